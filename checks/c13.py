#!/usr/bin/env python3
"""C13: output is a function of the contents and the flags."""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import random, copy, subprocess
from vlib.common import *
from vlib import idl, gen, mutate, corpora
from vlib.front import *
from vlib.runs import *

def place(p, rng):
    """which directory (main's `m`, or `l1`, `l2` reached by -I) holds each file"""
    n = len(p["files"]); 
    return {f["name"] + ".idl": ("m" if i + 1 == p["main"] else rng.choice(["m", "l1", "l2"])) for i, f in enumerate(p["files"])}

def decoy(f): return "const uint8 DECOY = 1;\nstruct DecoyS { uint64 a; };\n"

def lay(root, fs, pl, r):
    put({f"{pl[f]}/{f}": t for f, t in fs.items()}, root)
    for d in ("m", "l1", "l2"): os.makedirs(os.path.join(root, d), exist_ok=True)
    for d in ("m", "l1", "l2"): os.symlink(d, os.path.join(root, "ln_" + d))
    os.makedirs(os.path.join(root, "cwd", "deep"))
    os.symlink("../..", os.path.join(root, "cwd", "deep", "up"))
    # files keep the dates and the permissions of the machine they came from
    t = r.randrange(10**9, 2 * 10**9)
    for f in fs:
        q = os.path.join(root, pl[f], f); os.utime(q, (t, t + r.randrange(-9, 10**6))); os.chmod(q, r.choice([0o444, 0o644, 0o755]))
    # files of the same names in directories that are not searched
    put({f"{d}/{f}": decoy(f) for f in fs for d in ("cwd/deep", "cwd", "") if not f.startswith("../")}, root)

def spell(root, d, cwd, r):
    """a spelling of root/d seen from cwd"""
    k = r.randrange(8)
    a = os.path.join(root, d)
    rl = os.path.relpath(a, cwd)
    if k == 0: return a
    if k == 1: return rl
    if k == 2: return os.path.join(root, "m", "..", ".", d) + "/"
    if k == 3: return os.path.join(root, "ln_" + d)
    if k == 4: return os.path.join(os.path.relpath(root, cwd), "l1", "..", "ln_" + d)
    if k == 5: return "./" + rl + "//"
    if k == 6: return os.path.join(root, "cwd", "deep", "up", d)
    return os.path.join(os.path.relpath(root, cwd), ".", d)

def fn(c):
    exe = build_idlc(); lib = build_lib()
    c.stage("built")
    shim = os.path.join(scratch("shim"), "shim.so")
    if subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", shim, os.path.join(VERIF, "harness", "clock", "shim.c"), "-ldl"]).returncode: raise ToolError("shim.c does not build")
    rng = random.Random(f"c13-{SEED}")
    nprog, nvar = (300, 14) if THOROUGH else (90, 9)
    recs, infos, jobs = [], [], []
    base = scratch("loc")
    for k in range(nprog):
        g = gen.Gen(rng, methods=(0, 4), params=(0, 6), structs=(1, 5), ifaces=(1, 4), maxfiles=5, shuffle=rng.random() < .5, docs=True, objstruct=rng.random() < .5)
        p = g.prog()
        spread = k % 3 == 1
        if spread: p = corpora.spread(p, rng)
        fs = idl.render(p)
        if k % 6 == 5:   # a broken set: the decision is a function too
            try: fs = idl.render(mutate.mutate(p, rng, rng.choice(sorted(mutate.MUTS))))
            except mutate.NA: pass
        pl = {f: "m" for f in fs} if spread else place(p, rng)
        main = p["files"][p["main"] - 1]["name"] + ".idl"
        locs = [os.path.join(base, f"p{k}"), os.path.join(base, "a somewhat longer place", "with-\u00fcml\u00e4ut", f"q{k}.idl.d"), os.path.join(base, f"r{k}")]
        for l in locs[:2]: lay(l, fs, pl, rng)
        os.symlink(locs[0], locs[2])
        fl = rng.choice([[], [], ["--no-typed-objects"], ["--allow-undefined-behavior"]])
        for who in LANGS + ["lib"]:
            for v in range(nvar if who in ("c", "rust", "java") else nvar // 2):
                jobs.append((k, fs, pl, main, locs, fl, who, v, rng.random()))
    def go(j):
        k, fs, pl, main, locs, fl, who, v, sd = j
        r = random.Random(sd)
        plain = v < 3          # the very same command three times
        loc = locs[0] if plain else r.choice(locs)
        cwd = "/" if plain else r.choice([loc, os.path.join(loc, "m"), os.path.join(loc, "cwd", "deep"), "/", os.path.join(loc, "ln_l1")])
        md = os.path.join(loc, "m") if plain else spell(loc, "m", os.path.realpath(cwd), r)
        mp = os.path.join(md, main)
        if not plain and r.random() < .2 and not any("/" in f for f in fs):      # a link to the main file under another name
            ln = os.path.join(loc, "cwd", f"link{r.random()}.idl"); os.symlink(os.path.join(os.path.realpath(loc), "m", main), ln); mp = ln
        dirs = [os.path.join(loc, d) if plain else spell(loc, d, os.path.realpath(cwd), r) for d in ("l1", "l2")]
        if any("/" in f for f in fs): dirs.append(md)      # bare names of files in m, included from its subdirectories or from main in one
        if not plain and r.random() < .3: dirs.append(dirs[0])
        if not plain and r.random() < .3: dirs.append(md if "/" not in main else dirs[-1])
        o = scratch(f"o{next(cnt)}")
        lang = who.split("-")[0]
        outp = os.path.join(o, "out.h") if lang in ("c", "cpp") else o
        if not plain and r.random() < .5: outp = os.path.relpath(outp, os.path.realpath(cwd))
        env = dict(os.environ)
        if not plain: env.update(LANG=r.choice(["C", "de_DE.UTF-8"]), TZ=r.choice(["UTC", "Asia/Tokyo"]), HOME="/nonexistent", USER="someone")
        env.pop("PWD", None)
        if who == "lib": cmd = [lib, mp, outp] + dirs + [md]
        else: cmd = cmdline(exe, mp, who, outp, dirs, fl)
        if not plain and r.random() < .5:      # another day, another machine
            env.update(LD_PRELOAD=shim, SHIM_DAYS=str(r.choice([-9000, -40, -1, 1, 45, 400, 5000])), SHIM_HOST=r.choice(["", "elsewhere"]), HOSTNAME="elsewhere", LOGNAME="other", SOURCE_DATE_EPOCH="1")
        rc, so, se = run(cmd, cwd=cwd, env=env, preexec_fn=limits)
        if not plain and r.random() < .3:      # once more over what is there already, spoilt
            for f in os.listdir(o):
                with open(os.path.join(o, f), "ab") as h: h.write(b"stale\n" * r.choice([1, 1000]))
                if r.random() < .5: os.utime(os.path.join(o, f), (2e9, 2e9))
            rc, so, se = run(cmd, cwd=cwd, env=env, preexec_fn=limits)
        outs = {}
        for f in os.listdir(o):
            with open(os.path.join(o, f), "rb") as h: outs[f] = h.read()
        shutil.rmtree(o, ignore_errors=True)
        se = se.decode("utf-8", "replace")
        return (run_record((k, who, tuple(fl)), classify(rc), outs, se, who in ("rust", "java", "lib")),
                dict(files=fs, how=f"cwd={cwd} {' '.join(cmd[1:])}", err=se, hint=who, outputs={n: b.decode("utf-8", "replace") for n, b in outs.items()}))
    res = pmap(go, jobs)
    c.stage(f"{len(res)} runs")
    recs = [x[0] for x in res]; infos = [x[1] for x in res]
    for i in infos: i["outputs"] = {n: t[:20000] for n, t in i["outputs"].items()}
    judge_runs(c, recs, infos, "same contents and flags")
    c.cov["rejected_runs"] = sum(r["st"] == "rej" for r in recs)
    c.sample(dict(how=infos[5]["how"], record=recs[5])); c.sample(dict(how=infos[-1]["how"], record=recs[-1]))
    c.assumptions += ["nondeterminism is looked for by repetition: every set is compiled at least 4 times per backend in fresh processes"]

import itertools
cnt = itertools.count()
if __name__ == "__main__":
    main("C13", fn)
