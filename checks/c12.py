#!/usr/bin/env python3
"""C12: include resolution, cycles, visibility."""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import random
from vlib.common import *
from vlib.front import *

def inc_text(i): return i["name"] + ".idl" if i["bare"] else "/".join(i["up"] + [i["name"] + ".idl"])

def lay(c, probe):
    fs = {}
    for k, f in enumerate(c["files"]):
        t = "".join(f'include "{inc_text(x)}"\n' for x in f["incs"])
        t += f"struct V{k+1} {{ uint8 x; }};\n"
        if k + 1 == c["main"] and probe: t += f"interface Q {{ method m(in V{probe} p); }};\n"
        fs["/".join(f["dir"] + [f["name"] + ".idl"])] = t
    return fs

def observe(c, exe, lib, who, rng):
    """what the compiler does with configuration c: [ok, vis]"""
    root = scratch(f"inc{next(front_n)}")
    for d in c["dirs"]: os.makedirs(os.path.join(root, *d), exist_ok=True)
    for d in c.get("decoys", []): os.makedirs(os.path.join(root, *d), exist_ok=True)
    put(lay(c, 0), root)
    mainf = c["files"][c["main"] - 1]; main = "/".join(mainf["dir"] + [mainf["name"] + ".idl"])
    mp = os.path.join(root, main)
    # the same directory may be spelled with components that lead nowhere
    sp = random.Random(json.dumps(c["search"]) + str(len(c["files"])))
    incs = [sp.choice([x, x, x + "/", x + "/.", x + "/../" + os.path.basename(x), root + "/d0/.." + x[len(root):]]) if os.path.isdir(x) and ["d0"] in c["dirs"] else x
            for x in (os.path.join(root, *d) if d else root for d in c["search"])]
    def go(probe):
        if probe: put({main: lay(c, probe)[main]}, root)
        if who == "lib": return lib1(lib, root, main, incs + [os.path.dirname(mp)])
        return compile1(exe, root, main, who, incs=incs, timeout=40)
    st, _, err = go(0)
    vis = []
    if st == OK and not c.get("noprobe"):
        vis = [k for k in range(1, len(c["files"]) + 1) if go(k)[0] == OK]
    elif st == OK: vis = list(range(1, len(c["files"]) + 1))
    shutil.rmtree(root, ignore_errors=True)
    return dict(c=dict(files=c["files"], main=c["main"], search=c["search"], dirs=c["dirs"]), ok=st == OK, vis=vis, st=st, err=err[-400:], who=who)

import itertools
front_n = itertools.count()
DIRS = [[], ["d0"], ["d1"], ["d0", "s"], ["d1", "s"], ["d2"], ["x"], ["x", "y"]]

def rnd(r):
    names = ["a", "b", "c", "main", "dd"]
    dirs = r.sample(DIRS[1:], r.randint(2, 5))
    alld = DIRS
    slots = [(d, n) for d in dirs for n in names]; r.shuffle(slots)
    files = [dict(dir=d, name=n, incs=[]) for d, n in slots[:r.randint(2, 9)]]
    dense = r.random() < .3
    for k, f in enumerate(files):
        for _ in range(r.choice([0, 1, 1, 2, 3] if not dense else [1, 2, 3])):
            # prefer includes that resolve to a later file (acyclic), sometimes anything
            t = r.choice(files[k+1:] if files[k+1:] and r.random() < .85 else files) if r.random() < .9 else dict(dir=r.choice(alld), name=r.choice(names))
            if r.random() < .5: f["incs"].append(dict(bare=True, up=[], name=t["name"]))
            else: f["incs"].append(dict(bare=False, up=rel(f["dir"], t["dir"], r), name=t["name"]))
    s = [r.choice(alld + [["nonexistent"]]) for _ in range(r.choice([0, 1, 2, 3, 4]))]
    c = dict(files=files, main=1, search=s, dirs=alld)
    if r.random() < .3:   # directories that carry the name of an include
        c["decoys"] = [d + [n + ".idl"] for d in alld for n in names if not any(f["dir"] == d and f["name"] == n for f in files) and r.random() < .1]
    return c

def ambiguous(r):
    """every bare name stands in several of the directories searched, which are named more than once, the main file's among them"""
    dirs = r.sample(DIRS, r.randint(2, 4))
    names = ["a", "b", "c"]
    files = [dict(dir=dirs[0], name="m", incs=[dict(bare=True, up=[], name=n) for n in r.sample(names, r.randint(1, 3))])]
    for d in dirs:
        for k, n in enumerate(names):
            if r.random() < .75: files.append(dict(dir=d, name=n, incs=[dict(bare=True, up=[], name=m) for m in names[k+1:] if r.random() < .4]))
    s = [r.choice(dirs) for _ in range(r.randint(0, 2))] + [dirs[0]] * r.choice([0, 1, 1]) + [r.choice(dirs[1:]) for _ in range(r.randint(0, 2))]
    return dict(files=files, main=1, search=s, dirs=DIRS)

def twins(r):
    """trees of the same inner structure: the same text of an include names different files"""
    tops = r.sample([["d0"], ["d1"], ["d2"], ["x"], ["d0", "s"]], r.randint(2, 3))
    inner = [([], "a"), ([], "b"), (["s"], "a"), (["s"], "c"), (["y"], "c")]
    edges = [(i, j) for i in range(5) for j in range(i + 1, 5) if r.random() < .5]
    if r.random() < .1: edges.append((4, r.randrange(4)))
    texts = {(i, j): dict(bare=True, up=[], name=inner[j][1]) if r.random() < .25 else dict(bare=False, up=rel(inner[i][0], inner[j][0], r) if inner[i][0] != inner[j][0] or r.random() < .5 else ["."], name=inner[j][1]) for i, j in edges}
    files = [dict(dir=[], name="m", incs=[])]
    for t in tops:
        for i, (d, n) in enumerate(inner):
            if r.random() < .9: files.append(dict(dir=t + d, name=n, incs=[texts[e] for e in edges if e[0] == i]))
    seen = set(); files = [f for f in files if not ((tuple(f["dir"]), f["name"]) in seen or seen.add((tuple(f["dir"]), f["name"])))]
    for t in tops: files[0]["incs"].append(dict(bare=False, up=t, name="a"))
    alld = DIRS + [t + ["s"] for t in tops] + [t + ["y"] for t in tops]; alld = [d for k, d in enumerate(alld) if d not in alld[:k]]
    return dict(files=files, main=1, search=[r.choice(alld) for _ in range(r.choice([0, 0, 1, 2]))], dirs=alld)

def rel(a, b, r):
    k = 0
    while k < min(len(a), len(b)) and a[k] == b[k]: k += 1
    if r.random() < .2: k = 0
    up = [".."] * (len(a) - k) + b[k:]
    if r.random() < .3: up.insert(r.randint(0, len(up)), ".")
    if a and r.random() < .15: up = ["..", a[-1]] + up
    return up or ["."]

def shapes():
    B = lambda n: dict(bare=True, up=[], name=n)
    P = lambda n: dict(bare=False, up=["."], name=n)
    def cfg(fs, **k): return dict(files=[dict(dir=["d0"], name=n, incs=i) for n, i in fs], main=1, search=[], dirs=[[], ["d0"]], **k)
    for n in ((40, 400, 1500) if not THOROUGH else (40, 400, 1500, 3000)):
        np = n > 100
        ch = [(f"f{i}", [B(f"f{i+1}")]) for i in range(n - 1)]
        yield cfg(ch + [(f"f{n-1}", [])], noprobe=np)
        yield cfg(ch + [(f"f{n-1}", [B("f0")])], noprobe=np)
        yield cfg(ch + [(f"f{n-1}", [B(f"f{n//2}")])], noprobe=np)
        yield cfg(ch + [(f"f{n-1}", [P(f"f{n-1}")])], noprobe=np)
    # ladder: 2^k paths
    lad = [(f"l{i}", [B(f"l{i+1}"), P(f"l{min(i+2, 39)}")]) for i in range(39)]
    yield cfg(lad + [("l39", [])])
    yield cfg(lad + [("l39", [B("l20")])])
    # every file includes all later ones, twice, in two spellings
    yield cfg([(f"k{i}", [x for j in range(i + 1, 12) for x in (B(f"k{j}"), P(f"k{j}"))]) for i in range(12)])
    # self includes, cycles beside the main file, cycles out of reach
    yield cfg([("m", [B("m")])])
    yield cfg([("m", [P("m")])])
    yield cfg([("m", [B("a")]), ("a", [B("b")]), ("b", [P("a")])])
    yield cfg([("m", [B("c")]), ("a", [B("b")]), ("b", [B("a")]), ("c", [])])
    yield cfg([("m", [B("c"), B("a")]), ("a", [B("b")]), ("b", [B("a")]), ("c", [])])
    # files of the main file's own name elsewhere
    yield dict(files=[dict(dir=["d0"], name="m", incs=[dict(bare=True, up=[], name="m")]), dict(dir=["d1"], name="m", incs=[])], main=1, search=[["d1"]], dirs=[[], ["d0"], ["d1"]])
    yield dict(files=[dict(dir=["d0"], name="m", incs=[dict(bare=False, up=["..", "d1"], name="m")]), dict(dir=["d1"], name="m", incs=[dict(bare=True, up=[], name="m")])], main=1, search=[["d1"]], dirs=[[], ["d0"], ["d1"]])

def fn(c):
    exe = build_idlc(); lib = build_lib()
    c.stage("built")
    rng = random.Random(f"c12-{SEED}")
    r = tlc("MinkLoader", f"SPECIFICATION Spec\nCONSTANT Sample = {3 if THOROUGH else 5}\nINVARIANT OnceInv OutcomeInv\nPROPERTY Terminates\nCHECK_DEADLOCK FALSE\n",
            {"seed.json": {"v": SEED}}, workers=NCPU, heap="6g")
    c.tlc_design(r); c.cov["design_states"] = r.distinct
    cfgs = r.json("configs.json")
    c.cov["design_configurations"] = len(cfgs)
    c.stage(f"loader model checked on {len(cfgs)} configurations")
    rng.shuffle(cfgs)
    jobs = cfgs[:6000 if THOROUGH else 900]
    jobs += [twins(rng) for _ in range(2000 if THOROUGH else 160)]
    jobs += [ambiguous(rng) for _ in range(1500 if THOROUGH else 200)]
    jobs += [rnd(rng) for _ in range(4000 if THOROUGH else 600)]
    big = list(shapes())
    whos = ["c"] * 5 + ["rust", "lib", "c-skel", "cpp", "java"]
    obs = pmap(lambda x: observe(x[1], exe, lib, whos[x[0] % len(whos)], rng), list(enumerate(jobs + big)))
    for k in range(len(big)):   # the big shapes through two entry points
        pass
    obs += pmap(lambda x: observe(x, exe, lib, "lib" if len(x["files"]) < 500 else "rust", rng), big)
    c.stage(f"{len(obs)} configurations replayed")
    for o in obs:
        if o["st"] == BAD:
            c.violation("crash", f"compiler crashed, hung or exhausted the stack: {o['err']}", o)
    idx = list(range(len(obs))); random.Random(3).shuffle(idx)
    ch = chunks(idx, NCPU)
    bad, tot = judge(c, "MinkIncludeJudge", [{"obs.json": [dict(c=obs[i]["c"], ok=obs[i]["ok"], vis=obs[i]["vis"]) for i in x]} for x in ch])
    c.cov["traces_validated_against_impl"] += len(obs)
    c.cov.update(configurations_lawful=tot["accepted"], configurations_unlawful=tot["refused"])
    c.sample(dict(c=obs[0]["c"], ok=obs[0]["ok"], vis=obs[0]["vis"])); c.sample(dict(c=obs[-3]["c"], ok=obs[-3]["ok"], vis=obs[-3]["vis"]))
    for b in bad:
        o = obs[ch[b["chunk"]][b["case"] - 1]]
        kind = "accepted" if o["ok"] and not b["ok"] else "refused" if b["ok"] and not o["ok"] else "visibility"
        c.violation(f"{o['who']}:{kind}", f"{o['who']}: ok={o['ok']} visible={o['vis']}, specification: ok={b['ok']} visible={sorted(b['vis'])}: {o['err'][-200:]} {json.dumps(o['c'])[:300]}", dict(o, expected=b))
    c.assumptions += ["visibility of a file is observed by compiling with a parameter of a struct only that file declares",
                      "directories are not symbolic links here; links are exercised by C13"]

if __name__ == "__main__":
    main("C12", fn)
