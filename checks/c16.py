#!/usr/bin/env python3
"""C16: total on arbitrary input; debug and release builds are the same function."""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import random
from vlib.common import *
from vlib import idl, gen, mutate, tokens
from vlib.front import *
from vlib.runs import *

FLAGS = [[], [], [], ["--no-typed-objects"], ["--allow-undefined-behavior"], ["--dump", "mir"], ["--dump", "pst"], ["--dump", "ast"], ["--no-typed-objects", "--allow-undefined-behavior"]]
FRAGS = [b"/*", b"*/", b"/**\n", b"//", b"/", b"\"", b"include \"", b".idl\"", b"\0", b"\xff\xfe", b"\xef\xbb\xbf", b"\xc3", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\r", b"\r\n", b"#[optional]", b"#[", b"};", b");", b"[",
         b"[0]", b"[65535]", b"[65536]", b"[18446744073709551616]", b"9" * 400, b"0x" + b"f" * 300, b"-0x1", b"-", b"1.5", b"1" * 330 + b".5", b"0.", b"const uint8 A = 256;", b"const float32 F = 1;", b"interface", b"interface I {};", b"struct S { S s; };",
         b"method m();", b"in interface[4] o", b"in buffer b", b"error E;", b"\xe2\x80\xa8", b"\x0b", b"\x85", b"\xc2\xa0", b"\x1b[31m", b"{" * 200, b"(" * 200, b"[" * 200, b"a" * 5000, b"struct", b"const", b"method", b" ", b"", b"=", b":"]

def rnd_bytes(r):
    k = r.randrange(5)
    n = r.choice([0, 1, 2, 3, 10, 60, 300])
    if k == 0: return bytes(r.randrange(256) for _ in range(n))
    if k == 1: return bytes(r.choice(b"abz019_{}();:,[]#\"=.-/* \n\t") for _ in range(n))
    if k == 2: return b"".join(r.choice(FRAGS) for _ in range(r.randint(0, 12)))
    if k == 3: return b" ".join(r.choice(FRAGS) for _ in range(r.randint(0, 12)))
    return "".join(chr(r.choice([r.randrange(32, 127), r.randrange(0x80, 0x800), r.randrange(0xe000, 0xfffe), r.randrange(0x10000, 0x110000)])) for _ in range(n)).encode()

def mut_bytes(b, r):
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 1, 2, 4])):
        k = r.randrange(6); i = r.randrange(len(b) + 1); j = min(len(b), i + r.choice([1, 1, 3, 20, 200]))
        if k == 0 and i < len(b): b[i] ^= 1 << r.randrange(8)
        elif k == 1: b[i:j] = b""
        elif k == 2: b[i:i] = r.choice(FRAGS)
        elif k == 3: b[i:j] = r.choice(FRAGS)
        elif k == 4: b = b[:i]
        else:
            x = bytes(b[i:j]); p = r.randrange(len(b) + 1); b[p:p] = x * r.choice([1, 2, 50])
    return bytes(b)

def deep(r):
    n = r.choice([3, 60, 150] + ([600, 1500] if THOROUGH else [500]))
    k = r.randrange(6)
    # a chain of n interfaces has n*n/2 methods to write
    if k == 0: n = min(n, 250)
    if k == 0: t = "".join(f"interface I{i}{' : I%d' % (i-1) if i else ''} {{ method m{i}(in uint32 a); error E{i}; const uint8 C{i} = {i % 256}; }};\n" for i in range(n))
    elif k == 1: t = "".join(f"struct S{i} {{ {'S%d s' % (i-1) if i else 'uint64 x'}; }};\n" for i in range(n)) + f"interface I {{ method m(in S{n-1} a, out S0[] b); }};\n"
    elif k == 2: t = "interface I {\n" + "".join(f"method m{i}(in uint32 a{i}, out buffer b);\n" for i in range(n)) + "};\n"
    elif k == 3: t = "interface I {\nmethod m(" + ", ".join(f"in uint8 p{i}" for i in range(n)) + ");\n};\n"
    elif k == 4: t = "struct S {\n" + "".join(f"uint32[{i % 9 + 1}] f{i};\n" for i in range(n // 2 * 2)) + "uint8[8] pad; };\ninterface I { method m(in S s); };\n"
    else: t = "/*" * n + "*/" + "//" * n + "\n" + "const uint8 A = 1;" + " " * n * 10 + "interface I {" + "\n" * n + "};"
    return t.encode()

def chain_files(r):
    n = r.choice([3, 100, 400])
    cyc = r.random() < .3
    fs = {f"f{i}.idl": f'include "f{i+1}.idl"\nconst uint8 A{i} = {i % 256};\n'.encode() for i in range(n)}
    fs[f"f{n}.idl"] = (f'include "f{r.randrange(n)}.idl"\n' if cyc else "").encode() + b"struct S { uint8 x; };\n"
    return fs, "f0.idl"

def fn(c):
    dbg, rel = pmap(lambda x: build_idlc(x), [False, True])
    c.stage("built, debug and release")
    rng = random.Random(f"c16-{SEED}")
    N = 8 if THOROUGH else 1
    cases = []   # (file set, main, src for the lexical judgement, kind)
    def prog(**k):
        return gen.Gen(rng, methods=(0, 5), params=(0, 7), structs=(0, 5), ifaces=(0, 4), maxfiles=4, shuffle=rng.random() < .5, docs=rng.random() < .5, objstruct=rng.random() < .5, **k).prog()
    for _ in range(110 * N):
        b = rnd_bytes(rng); cases.append(({"x.idl": b}, "x.idl", b, "bytes"))
    for _ in range(170 * N):
        p = prog(); fs = {k: v.encode() for k, v in idl.render(p).items()}; m = p["files"][p["main"] - 1]["name"] + ".idl"
        t = rng.choice(sorted(fs)) if rng.random() < .2 else m
        fs[t] = mut_bytes(fs[t], rng)
        cases.append((fs, m, fs[m] if len(fs[m]) < 1500 else b"", "mutated bytes"))
    for _ in range(60 * N):
        p = prog(); fs = idl.render(p); m = p["files"][p["main"] - 1]["name"] + ".idl"
        ts = tokens.mutate(tokens.tokens(fs[m]) or tokens.tokens("const uint8 A = 1;"), rng); fs[m] = tokens.text(ts)
        cases.append((fs, m, b"", "mutated tokens"))
    for _ in range(70 * N):
        p = prog(); m = p["files"][p["main"] - 1]["name"] + ".idl"
        try: q = mutate.mutate(p, rng, rng.choice(sorted(mutate.MUTS)))
        except mutate.NA: q = p
        cases.append((idl.render(q), m, b"", "violation"))
    for _ in range(80 * N):
        p = prog(); m = p["files"][p["main"] - 1]["name"] + ".idl"
        cases.append((idl.render(p), m, b"", "lawful"))
    for _ in range(14 * N): cases.append(({"x.idl": deep(rng)}, "x.idl", b"", "deep"))
    for _ in range(6 * N): cases.append((*chain_files(rng), b"", "include chain"))
    for k in sorted(mutate.MUTS):   # every restriction, refused by both builds alike
        for _ in range(50):
            p = prog(); m = p["files"][p["main"] - 1]["name"] + ".idl"
            try: q = mutate.mutate(p, rng, k)
            except mutate.NA: continue
            cases.append((idl.render(q), m, b"", "violation")); break
    for a, b in ((16384, 0), (16385, 0), (9000, 7384), (9000, 7385), (0, 16385)):
        t = "interface B {\n" + "".join(f"method b{i}();\n" for i in range(a)) + "};\ninterface D : B {\n" + "".join(f"method d{i}();\n" for i in range(b)) + "};\n"
        cases.append(({"x.idl": t.encode()}, "x.idl", b"", "limit"))
    for t in ("uint8[65535] x;", "uint8[65536] x;", "uint8[4294967297] x;", "uint8[18446744073709551617] x;", "uint8[0] x;", "uint8[00001] x;"): cases.append(({"x.idl": f"struct S {{ {t} }};\n".encode()}, "x.idl", b"", "limit"))
    for k in (14, 15, 16, 17, 31, 255, 256, 257, 271):
        for d in ("in", "out"):
            for t in ("buffer p%d", "interface p%d", "uint8 p%d", "B p%d"):
                cases.append((("x.idl", "struct B { uint64[3] z; };\ninterface I { method m(" + ", ".join(f"{d} " + t % i for i in range(k)) + "); };\n"), "x.idl", b"", "limit"))
            cases.append((("x.idl", f"interface I {{ method m({d} interface[{k}] o); }};\n"), "x.idl", b"", "limit"))
            cases.append((("x.idl", f"struct O {{ interface[{k}] o; uint64 x; }};\ninterface I {{ method m({d} O o); }};\n"), "x.idl", b"", "limit"))
    cases = [(({f[0]: f[1].encode()} if isinstance(f, tuple) else f), *x) for f, *x in cases]
    for b in [b"", b"\n", b"\xef\xbb\xbf", b"\xef\xbb\xbfconst uint8 A = 1;", b"const uint8 A = 1;\0", b"//", b"/*", b"/**", b"/**\n", b"/**/", b"/*/", b"\r", b"include \"x.idl\"", b"include \"\"", b"include \".idl\"", b"include \"..idl\"",
              b"include \"/dev/null.idl\"", b"include \"../../../../../../../../x.idl\"", b"include \"/x.idl\""]:
        cases.append(({"x.idl": b}, "x.idl", b, "edge"))
    jobs = []
    for n, (fs, m, src, kind) in enumerate(cases):
        whos = LANGS if rng.random() < .25 else [rng.choice(LANGS)]
        for who in whos:
            fl = rng.choice(FLAGS)
            # the printed tree of a deep nest is indented by depth, so its size and time are of the fourth power of it
            if kind == "deep" and len(src or fs["x.idl"]) > 1000 and fl == ["--dump", "mir"]: fl = []
            if rng.random() < .08: fl = fl + ["--marking", "MARK"]
            jobs.append((n, fs, m, src, kind, who, fl))
    # driver oddities: what is not a file, what is not UTF-8 on the command line
    def go(j):
        n, fs, m, src, kind, who, fl = j
        d = put(fs); mk = os.path.join(d, "MARK")
        b = random.Random(n).choice([b"mark\n", b"\xff\xfe", b"", b"a\0b"])
        with open(mk, "wb") as h: h.write(b)
        fl2 = [mk if x == "MARK" else x for x in fl]
        res = []
        for name, exe in (("debug", dbg), ("release", rel)):
            st, o, err = compile1(exe, d, m, who, extra=fl2, timeout=240)
            me = "--dump" in fl or who in ("rust", "java")
            key = (tuple(sorted(fs.items())), who, tuple(fl), b if "MARK" in fl else b"")
            res.append((run_record(repr((n, who, fl)), st, o, err, me, src), dict(how=f"{kind}, {who} {' '.join(fl)}, {name}", hint=kind, err=err, files={k: (v if isinstance(v, str) else v.decode("latin1"))[:20000] for k, v in list(fs.items())[:20]}, main=m, flags=fl, who=who, build=name)))
        shutil.rmtree(d, ignore_errors=True)
        return res
    rs = [x for r in pmap(go, jobs) for x in r]
    c.stage(f"{len(rs)} runs")
    # paths that are no IDL file, and command lines that make no sense
    d = put({"x.idl": "interface I { };\n", "sub/y.idl": ""}); o = os.path.join(d, "o"); os.makedirs(o)
    odd = [[os.path.join(d, "nope.idl")], [d], [os.path.join(d, "sub")], ["/dev/null"], [""], [os.path.join(d, "x.idl"), "--c", "--java"], [os.path.join(d, "x.idl"), "--java", "--skel"], [os.path.join(d, "x.idl"), "--dump", "nope"], [],
           [os.path.join(d, "x.idl"), "-I", os.path.join(d, "nope")], [os.path.join(d, "x.idl"), "-I", ""], [os.path.join(d, "x.idl"), "-I"], [os.path.join(d, "x.idl"), "--marking", os.path.join(d, "nope")], [os.path.join(d, "x.idl"), "--marking", d],
           [os.path.join(d, "x.idl"), "--what"], ["--help"], ["--version"], [os.path.join(d, "x.idl"), b"\xff"], [b"\xff\xfe.idl"]]
    for n, a in enumerate(odd):
        for name, exe in (("debug", dbg), ("release", rel)):
            for who in ("c", "rust"):
                shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
                ar = a + ([] if any(isinstance(x, str) and x in ("--c", "--java") for x in a) else ["--" + who]) + ["-o", o if who == "rust" else os.path.join(o, "out.h")]
                rc, so, se = run([exe] + ar, timeout=60, preexec_fn=limits)
                outs = {f: open(os.path.join(o, f), "rb").read() for f in os.listdir(o)}
                rs.append((run_record(f"odd{n}{who}", classify(rc), outs, se.decode("utf-8", "replace"), a in (["--help"], ["--version"]) or who == "rust"), dict(how=f"{a} {name}", hint="command line", err=se.decode("utf-8", "replace"))))
    judge_runs(c, [r for r, _ in rs], [i for _, i in rs], "debug and release")
    st = {k: sum(1 for r, _ in rs if r["st"] == k) for k in ("ok", "rej", "bad")}
    c.cov["runs"] = dict(st, total=len(rs))
    c.sample(dict(how=rs[5][1]["how"], file=list(rs[5][1]["files"].values())[0][:400], result=rs[5][0]["st"]))
    c.sample(dict(how=rs[400][1]["how"], result=rs[400][0]["st"]))
    # the recorded finding: memory exponential in the depth of a struct containing its predecessor twice
    def lim():
        import resource
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0)); resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    t = "struct S0 { uint32 x; };\n" + "".join(f"struct S{i} {{ S{i-1} a; S{i-1} b; }};\n" for i in range(1, 27)) + "interface I { method m(in S26 s); };\n"
    d = put({"x.idl": t})
    rc, so, se = run([rel, os.path.join(d, "x.idl"), "-o", os.path.join(d, "o.h")], timeout=100, preexec_fn=lim)
    if classify(rc) == BAD:
        c.violation("crash:struct doubling chain", f"27 structs, each containing its predecessor twice: rc {rc}", dict(text=t))
    c.stage(str(st))
main("C16", fn)
