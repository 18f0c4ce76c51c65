#!/usr/bin/env python3
"""C19: what reaches the file system."""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import random, copy, hashlib
from vlib.common import *
from vlib import idl, gen, mutate, lex, tokens
from vlib.idl import *
from vlib.front import *

def snap(root):
    out = []
    for r, ds, fs in os.walk(root):
        rel = os.path.relpath(r, root); rel = "" if rel == "." else rel + "/"
        for x in ds:
            st = os.lstat(os.path.join(r, x)); out.append(dict(n=rel + x + "/", d="dir", t=f"{st.st_ino}:{st.st_mode}"))
        for x in fs:
            p = os.path.join(r, x); st = os.lstat(p)
            d = "link" if os.path.islink(p) else hashlib.sha256(open(p, "rb").read()).hexdigest()[:24]
            out.append(dict(n=rel + x, d=d, t=f"{st.st_ino}:{st.st_mtime_ns}:{st.st_size}:{st.st_mode}"))
    return sorted(out, key=lambda e: e["n"])

def expected_names(m, who):
    """names that are likely targets, to have something old in their place"""
    if who == "rust": return [d["n"].lower() + ".rs" for d in m["decls"] if d["k"] == "iface"] + [m["name"].lower() + ".rs"]
    return [d["n"] + ".java" for d in m["decls"] if d["k"] == "iface"] + [m["name"] + ".java"]

def old(r): return r.choice([b"", b"old\n", b"// old contents }}}}\n" * 4000, bytes(range(256)) * 40, b"x" * 100000])

def fn(c):
    exe = build_idlc()
    rc, ver, _ = run([exe, "--version"])
    ver = ver.decode().split()[1]
    banner = f"// AUTOGENERATED FILE: DO NOT EDIT (idlc v{ver})"
    c.stage("built")
    rng = random.Random(f"c19-{SEED}")
    N = 8 if THOROUGH else 1
    cases = []
    for k in range(560 * N):
        g = gen.Gen(rng, methods=(0, 3), params=(0, 5), structs=rng.choice([(0, 0), (0, 2), (1, 4)]), ifaces=rng.choice([(0, 0), (0, 1), (1, 4)]), consts=rng.random() < .6, maxfiles=4, shuffle=rng.random() < .5, docs=True, objstruct=rng.random() < .4)
        p = g.prog(); f = p["files"][p["main"] - 1]; ifs = [d for d in f["decls"] if d["k"] == "iface"]
        x = rng.random()
        if ifs and x < .25: f["name"] = rng.choice([ifs[0]["n"], ifs[0]["n"].lower(), ifs[-1]["n"].upper()])
        elif x < .35: f["name"] = rng.choice(["a.b", "My-File", "x y", "UPPER", "mod.rs", "z"])
        if len(ifs) >= 2 and rng.random() < .12:   # names equal but for their case
            n0, n1 = ifs[0]["n"], ifs[1]["n"]; nn = n0.swapcase()
            if nn != n0:
                for fl in p["files"]:
                    for d in fl["decls"]:
                        if d["k"] == "iface":
                            if d["n"] == n1: d["n"] = nn
                            if d["b"] == n1: d["b"] = nn
                            for m in d["m"]:
                                for q in m.get("p", []):
                                    if q["t"] == n1: q["t"] = nn
                        if d["k"] == "struct":
                            for q in d["fields"]:
                                if q["t"] == n1: q["t"] = nn
        main = f["name"] + ".idl"
        kind = "lawful"; fs = idl.render(p)
        if k % 2:
            kind = rng.choice(["violation"] * 5 + ["text", "include", "marking", "flags", "tail", "javaobj"])
            if kind == "violation":
                kk = rng.choice(sorted(mutate.MUTS))
                try: p = mutate.mutate(p, rng, kk); fs = idl.render(p); kind = kk
                except mutate.NA: kind = "lawful"
            elif kind == "text":
                t = fs[main]; i = rng.randrange(len(t) + 1); fs[main] = t[:i] + rng.choice(["@", "};", "/*", "$"]) + t[i:]
            elif kind == "include": fs[main] = 'include "missing_file.idl"\n' + fs[main]
            elif kind == "tail": fs[main] = fs[main] + "\nstruct Zz { uint8 a; uint32 b; };\n"
            elif kind == "javaobj": fs[main] = fs[main] + "\nstruct ZzO { interface a; };\ninterface IZzz { method m(in ZzO x); };\n"
        cases.append((p, fs, main, kind))
    jobs = [(n, cs, who) for n, cs in enumerate(cases) for who in (LANGS if THOROUGH else [rng.choice(LANGS[:4]), "rust", "java"])]
    def go(j):
        n, (p, fs, main, kind), who = j
        r = random.Random(f"{SEED}-{n}-{who}")
        m = p["files"][p["main"] - 1]
        cfam = who.split("-")[0] in ("c", "cpp")
        root = scratch(f"fs{n}{who}")
        mode = r.choice(["sub", "sub", "empty", "src"] + ([] if cfam else ["cwd"]))
        od = {"sub": "o/", "empty": "o/", "src": "src/", "cwd": "w/"}[mode]
        out = od + (r.choice(["out.h", "hdr", "x.hpp", "a b.h", "x.idl.h"]) if cfam else "")
        mk = None
        if r.random() < .3 or kind == "marking":
            mk = r.choice([b"Copyright\n", b"a\nb\n\n", b"\n"]) if kind != "marking" else r.choice([None, b"\xff\xfe\xfd", b"ok\n\x80"])
        marked = mk is not None and kind != "marking" or kind == "marking"
        def build(rt, fill):
            put({"src/" + a: b for a, b in fs.items()}, rt)
            for d in ("o", "w", "src"): os.makedirs(os.path.join(rt, d), exist_ok=True)
            put({"w/keep.txt": b"k", "top.rs": b"t"}, rt)
            if mk is not None: put({"mark.txt": mk}, rt)
            if fill:
                r2 = random.Random(f"fill{SEED}-{n}-{who}")
                put({od + "unrelated.rs": old(r2), od + "sub/deep.h": old(r2), od + "ZZ.java": old(r2)}, rt)
                for nm in ([os.path.basename(out)] if cfam else expected_names(m, who)):
                    if r2.random() < .75 and not os.path.exists(os.path.join(rt, od, nm)): put({od + nm: old(r2)}, rt)
        def cmd(rt):
            l, _, sk = who.partition("-")
            a = [exe, os.path.join(rt, "src", main), "--" + l] + (["--skel"] if sk else [])
            if mode != "cwd": a += ["-o", os.path.join(rt, out)]
            if marked: a += ["--marking", os.path.join(rt, "mark.txt")]
            if kind == "flags": a += [["--dump", "mir"], ["--nonsense"], ["-I"], ["--dump", "ast"]][n // 2 % 4]
            return run(a, timeout=60, cwd=os.path.join(rt, "w"), preexec_fn=limits)
        fr = scratch(f"fs{n}{who}f")
        build(fr, False); b0 = snap(fr); cmd(fr)
        was = {e["n"]: e["d"] for e in b0}
        fresh = [dict(n=e["n"], d=e["d"]) for e in snap(fr) if was.get(e["n"]) != e["d"]]
        build(root, mode != "empty"); before = snap(root)
        rc, so, se = cmd(root)
        after = snap(root)
        st = {OK: "ok", REJ: "rej", BAD: "bad"}[classify(rc)]
        if kind == "flags" and n // 2 % 4 in (0, 3) and st == "ok": st = "rej"   # a dump writes no file
        text = []
        if st == "ok":
            for e in fresh:
                t = open(os.path.join(root, e["n"]), "rb").read().decode("utf-8", "replace") if os.path.exists(os.path.join(root, e["n"])) else ""
                ts = lex.lex(t, who.split("-")[0]); pre = []
                for kk, s in ts:
                    if kk != "c": break
                    pre.append(s)
                text.append(dict(n=e["n"], pre=pre, open=[s for kk, s in ts if kk == "t" and s in "{}()[]"]))
        shutil.rmtree(root, ignore_errors=True); shutil.rmtree(fr, ignore_errors=True)
        rec = dict(who=who, st=st, main=dict(n=m["name"], nl=m["name"].lower(), decls=[dict(k=d["k"], n=d["n"], nl=d["n"].lower()) for d in m["decls"]]), out=out, before=before, after=after, fresh=fresh, text=text, marked=bool(marked), banner=banner)
        if "javaobj" == kind and st == "ok": rec["main"]["decls"] += [dict(k="struct", n="ZzO", nl="zzo"), dict(k="iface", n="IZzz", nl="izzz")]
        return rec, dict(kind=kind, who=who, mode=mode, files=fs, main=main, err=se.decode("utf-8", "replace")[-400:], rc=rc)
    rs = pmap(go, jobs)
    c.stage(f"{len(rs)} executions")
    ch = chunks(list(range(len(rs))), NCPU)
    bad, tot = judge(c, "MinkOutput", [{"runs.json": [rs[i][0] for i in x]} for x in ch])
    for b in bad:
        i = ch[b["chunk"]][b["case"] - 1]; rec, inf = rs[i]
        c.violation(f"{b['why']}:{rec['who']}:{inf['kind'] if rec['st'] != 'ok' else ''}", f"{b['why']}: {rec['who']}, {inf['kind']}, output in {inf['mode']}, {rec['st']}; written {[f['n'] for f in rec['fresh']]}: {inf['err'][-200:]}", dict(inf, record=rec))
    st = {k: sum(1 for r, _ in rs if r["st"] == k) for k in ("ok", "rej", "bad")}
    c.cov["traces_validated_against_impl"] += len(rs); c.cov["runs"] = st
    kinds = {}
    for r, i in rs: kinds.setdefault(i["kind"], [0, 0])[r["st"] != "ok"] += 1
    c.cov["kinds"] = kinds
    x = next(r for r, i in rs if r["st"] == "ok" and r["who"] == "rust" and len(r["fresh"]) > 1)
    c.sample(dict(who="rust", out=x["out"], main=x["main"]["n"], decls=[d["n"] for d in x["main"]["decls"]], written=[f["n"] for f in x["fresh"]]))
    c.stage(str(st))
main("C19", fn)
