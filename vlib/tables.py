"""Probes that read numbers back from generated code: constants, errors, op-codes, layouts.
Every probe names each table and row explicitly; MinkTables judges the rows."""
import os, json, re, random, threading
from .common import *
from . import idl, glue, front, execx
from .execx import sh, INC_C, INC_CPP, OBJ_RS

JH = os.path.join(VERIF, "harness", "java")
CC = [("c", "gcc"), ("c", "clang"), ("cpp", "g++"), ("cpp", "clang++")]

def members(M, n, k, own=False): return [(o, m) for o in ([n] if own else M.chain(n)) for m in M.ifaces[o]["m"] if m["k"] == k]

class Want:
    """the tables to read: list of [kind, scope, names]; file-level constants, per interface, per struct"""
    def __init__(s, M, kinds):
        s.t = []
        for i in M.reach:
            f = M.p["files"][i - 1]
            cs = [d["n"] for d in f["decls"] if d["k"] == "const"]
            if "const" in kinds and cs: s.t.append(("fconst", f["name"], cs))
        for n in M.ifaces:
            for kind, k in (("const", "const"), ("error", "error"), ("op", "method")):
                if kind not in kinds: continue
                if members(M, n, k): s.t.append((kind, n, [m["n"] for _, m in members(M, n, k)]))
                if members(M, n, k, True): s.t.append((kind + "own", n, [m["n"] for _, m in members(M, n, k, True)]))
        if "struct" in kinds:
            for n, d in M.structs.items():
                s.t.append(("struct", n, [f["n"] for f in d["fields"]]))
                s.t.append(("layout", n, [""]))

# ---------------------------------------------------------------------------------- C and C++

def c_probe(M, W, cpp):
    ext = "hpp" if cpp else "h"
    o = ["#include <stdio.h>", "#include <stddef.h>", "#include <stdint.h>", "#include <string.h>"] + (["#include <cstdint>", "#include <atomic>", "#include <type_traits>"] if cpp else [])
    for n in glue.names(M): o.append(f'#include "{n}.{ext}"')
    if cpp:
        o.append("template<class T> const char *tn() { return \"other\"; }")
        seen = [("signed char", "int8"), ("unsigned char", "uint8"), ("short", "int16"), ("unsigned short", "uint16"), ("int", "int32"), ("unsigned", "uint32"),
                ("long", "int64"), ("unsigned long", "uint64"), ("long long", "int64"), ("unsigned long long", "uint64"), ("float", "float32"), ("double", "float64"), ("char", "char")]
        for t, n in seen: o.append(f'template<> const char *tn<{t}>() {{ return "{n}"; }}')
        o.append("#define TN(x) tn<std::remove_cv<std::remove_reference<decltype(x)>::type>::type>()")
        o.append("#define VT(x) std::remove_cv<std::remove_reference<decltype(x)>::type>::type")
    else:
        o.append('#define TN(x) _Generic((x), signed char: "int8", unsigned char: "uint8", short: "int16", unsigned short: "uint16", int: "int32", unsigned: "uint32", '
                 'long: "int64", unsigned long: "uint64", long long: "int64", unsigned long long: "uint64", float: "float32", double: "float64", default: "other")')
        o.append("#define VT(x) __typeof__(x)")
    o.append('static int tab, row; static void T(int t) { tab = t; row = 0; }')
    o.append('static void V(const char *ty, const void *p, size_t n) { printf("{\\"t\\":%d,\\"ty\\":\\"%s\\",\\"b\\":[", tab, ty); for (size_t i = 0; i < n; i++) printf("%s%d", i ? "," : "", ((const unsigned char *)p)[i]); printf("]}\\n"); }')
    o.append('static void N(long long v) { printf("{\\"t\\":%d,\\"v\\":%lld}\\n", tab, v); }')
    o.append('static void F(size_t a, size_t b) { printf("{\\"t\\":%d,\\"x\\":%llu,\\"y\\":%llu}\\n", tab, (unsigned long long)a, (unsigned long long)b); }')
    o.append("#define K(x) do { VT(x) v_ = (x); V(TN(x), &v_, sizeof v_); } while (0)")
    body, fns = [], 0
    for k, (kind, sc, ns) in enumerate(W.t):
        ls = [f"T({k});"]
        if kind == "fconst": ls += [f"K({n});" for n in ns]
        elif kind in ("const", "error"): ls += [f"K(I{sc}::{n});" if cpp else f"K({sc}_{n});" for n in ns]
        elif kind == "opown":
            if cpp:
                o.append(f"struct HzOp{k} : I{sc} {{ static void run() {{ " + " ".join(f"N((long long)OP_{n});" for n in ns) + " } };")
                ls.append(f"HzOp{k}::run();")
            else: ls += [f"N((long long)({sc}_OP_{n}));" for n in ns]
        elif kind == "op" and cpp:
            o.append(f"struct HzOp{k} : I{sc} {{ static void run() {{ " + " ".join(f"N((long long)OP_{n});" for n in ns) + " } };")
            ls.append(f"HzOp{k}::run();")
        elif kind == "struct": ls += [f"F(offsetof({sc}, {n}), sizeof((({sc} *)0)->{n}));" for n in ns]
        elif kind == "layout": ls += [f"F(sizeof({sc}), {'alignof' if cpp else '_Alignof'}({sc}));"]
        else: continue
        o.append(f"static void t{k}(void) {{ {' '.join(ls)} }}"); body.append(f"t{k}();")
    o.append("int main(void) { " + " ".join(body) + " return 0; }")
    return "\n".join(o) + "\n"

# ------------------------------------------------------------------------------------- Rust

def rust_probe(M, W, mods):
    low = {m.lower(): m for m in mods}
    mod = lambda n: low.get(n.lower(), n.lower())
    o = ["#![allow(warnings)]", f'#[path = "{OBJ_RS}/mod.rs"] pub mod object;',
         "#[allow(unused, nonstandard_style, clippy::all)] pub mod interfaces { " + " ".join(f"pub mod r#{m};" for m in mods) + " }",
         "fn p(t: usize, ty: &str, b: &[u8]) { let s: Vec<String> = b.iter().map(|x| x.to_string()).collect(); println!(\"{{\\\"t\\\":{},\\\"ty\\\":\\\"{}\\\",\\\"b\\\":[{}]}}\", t, ty, s.join(\",\")); }",
         "trait Ty: Sized { const N: &'static str; } " + " ".join(f'impl Ty for {glue.RT[t]} {{ const N: &\'static str = "{t}"; }}' for t in idl.PRIMS),
         "fn k<T: Ty + Copy>(t: usize, v: T) { p(t, T::N, unsafe { std::slice::from_raw_parts(&v as *const T as *const u8, std::mem::size_of::<T>()) }) }",
         "fn f(t: usize, x: usize, y: usize) { println!(\"{{\\\"t\\\":{},\\\"x\\\":{},\\\"y\\\":{}}}\", t, x, y); }",
         "fn sz<T, F>(_: fn(&T) -> &F) -> usize { std::mem::size_of::<F>() }"]
    calls = []
    for k, (kind, sc, ns) in enumerate(W.t):
        if kind == "fconst": ls = [f"k({k}, interfaces::r#{mod(sc)}::{n.upper()});" for n in ns]
        elif kind == "constown": ls = [f"k({k}, interfaces::r#{mod(sc)}::{n.upper()});" for n in ns]
        elif kind == "errorown": ls = [f"k({k}, i32::from(object::Error::from(interfaces::r#{mod(sc)}::{n.upper()})));" for n in ns]
        elif kind == "struct":
            t = f"interfaces::r#{mod(M.file[sc])}::r#{sc}"
            ls = [f"f({k}, std::mem::offset_of!({t}, r#{n}), sz(|x: &{t}| &x.r#{n}));" for n in ns]
        elif kind == "layout":
            t = f"interfaces::r#{mod(M.file[sc])}::r#{sc}"; ls = [f"f({k}, std::mem::size_of::<{t}>(), std::mem::align_of::<{t}>());"]
        else: continue
        o.append(f"fn t{k}() {{ {' '.join(ls)} }}"); calls.append(f"t{k}();")
    return "\n".join(o) + "\nfn main() { " + " ".join(calls) + " }\n"

# -------------------------------------------------------------------------------------- MIR

_tok = re.compile(r'\s*("(?:[^"\\]|\\.)*"|[A-Za-z_][A-Za-z_0-9:]*|-?\d+(?:\.\d+)?|[{}\[\](),:])')
def rdebug(s):
    """Rust {:?}/{:#?} text -> (name, {field: value}) | (name, [values]) | [values] | str | number"""
    toks = _tok.findall(s); pos = 0
    def peek(): return toks[pos] if pos < len(toks) else None
    def nxt():
        nonlocal pos
        pos += 1; return toks[pos - 1]
    def seq(close):
        out = []
        while peek() != close:
            out.append(val())
            if peek() == ",": nxt()
        nxt(); return out
    def val():
        t = nxt()
        if t.startswith('"'): return json.loads(t)
        if re.fullmatch(r"-?\d+(\.\d+)?", t): return float(t) if "." in t else int(t)
        if t == "[": return seq("]")
        if t == "(": return ("", seq(")"))
        if t == "{": return ("", seq("}"))
        if peek() == "(": nxt(); return (t, seq(")"))
        if peek() == "{":
            nxt(); d = {}
            while peek() != "}":
                k = nxt(); assert nxt() == ":"; d[k] = val()
                if peek() == ",": nxt()
            nxt(); return (t, d)
        return (t, None)
    return val()

def mir_tables(exe, M, d, W, flags):
    """op-codes and error values in --dump mir, if the dump has the shape known here"""
    main = M.p["files"][M.p["main"] - 1]["name"]
    rc, so, se = run([exe, os.path.join(d, main + ".idl"), "--dump", "mir", "-o", os.path.join(d, "nil"), *flags], timeout=120)
    if rc != 0: return None
    try:
        v = rdebug(so.decode()); found = {}
        def ident(x): return x[1]["ident"] if isinstance(x, tuple) else x
        def iface(x):
            f = x[1]; n = ident(f["ident"])
            ops, ers = [], []
            for m in f["nodes"]:
                b = m[1][0] if isinstance(m[1], list) else m[1]
                if m[0] == "Function": ops.append((ident(b[1]["ident"]), b[1]["id"]))
                if m[0] == "Error": ers.append((ident(b[1]["ident"]), b[1]["value"]))
            found[n] = (ops, ers)
            if f["base"] and f["base"][1]: iface(f["base"][1][0])
        for nd in v[1]["nodes"]:
            if nd[0] == "Interface":
                iface(nd[1][0])
        assert all(isinstance(z, int) for o, e in found.values() for _, z in o + e)
    except Exception:
        return None
    out = []
    for kind, sc, ns in W.t:
        if sc not in found: continue
        if kind == "opown": out.append(dict(be="mir", cc="idlc", kind=kind, sc=sc, rows=[dict(n=n, v=z) for n, z in found[sc][0]]))
        if kind == "errorown": out.append(dict(be="mir", cc="idlc", kind=kind, sc=sc, rows=[dict(n=n, ty="int32", b=list(z.to_bytes(4, "little", signed=True))) for n, z in found[sc][1]]))
    return out

# ------------------------------------------------------------------------------------- Java

_jl = threading.Lock()
_jd = None
def java_home():
    """the runtime stand-in and the probe, compiled"""
    global _jd
    with _jl:
        if _jd is None:
            d = os.path.join(tmpdir(), "javart"); os.makedirs(d, exist_ok=True)
            src = [os.path.join(r, f) for r, _, fs in os.walk(JH) for f in fs if f.endswith(".java")]
            rc, out = sh(["javac", "-d", d] + src, d, 200)
            if rc: raise ToolError("java harness does not build:\n" + out[-2000:])
            _jd = d
    return _jd

def java_generate(exe, prog, d, flags=()):
    os.makedirs(d, exist_ok=True)
    front.put(idl.render(prog), d)
    o = os.path.join(d, "java"); os.makedirs(o, exist_ok=True)
    for n in glue.names(glue.Model(prog)):
        rc, out = sh([exe, os.path.join(d, n + ".idl"), "--java", "-o", o, *flags], d, 120)
        if rc: return o, f"idlc --java rc={rc}: {out[-300:]}"
    return o, None

def java_batch(dirs):
    """compile and reflect on many directories in one JVM -> per directory (ok, diagnostics, {class: {field: (ty, bytes)}})"""
    h = java_home(); l = scratch(f"jl{next(front._n)}"); f = os.path.join(l, "dirs")
    with open(f, "w") as w: w.write("\n".join(dirs) + "\n")
    p = subprocess.run(["java", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-Xss64m", "-Xmx2g", "-cp", h, "JProbe", f], capture_output=True, timeout=800)
    if p.returncode: raise ToolError("java probe: " + p.stderr.decode()[-1500:])
    res = [None] * len(dirs)
    for ln in p.stdout.decode().splitlines():
        e = json.loads(ln)
        if "ok" in e: res[e["k"]] = (e["ok"], e["diag"], {})
        else: res[e["k"]][2].setdefault(e["c"], {})[e["f"]] = (e["ty"], e["b"])
    return res

# ------------------------------------------------------------------------------------ reading

def fold(W, be, cc, rows):
    """printed rows -> tables"""
    by = {}
    for r in rows: by.setdefault(r["t"], []).append(r)
    out = []
    for k, (kind, sc, ns) in enumerate(W.t):
        if k not in by: continue
        rs = by[k]
        if len(rs) != len(ns): raise ToolError(f"probe printed {len(rs)} rows for {kind} {sc}")
        if kind == "struct": rr = [dict(n=n, off=r["x"], size=r["y"]) for n, r in zip(ns, rs)]
        elif kind == "layout": rr = [dict(n=n, size=r["x"], align=r["y"]) for n, r in zip(ns, rs)]
        elif kind in ("op", "opown"): rr = [dict(n=n, v=r["v"]) for n, r in zip(ns, rs)]
        else: rr = [dict(n=n, ty=r["ty"], b=r["b"]) for n, r in zip(ns, rs)]
        out.append(dict(be=be, cc=cc, kind=kind, sc=sc, rows=rr))
    return out

def read_native(exe, prog, kinds, flags=(), ccs=CC, rust=True):
    """-> tables, {what: error} for C, C++ and Rust"""
    d = scratch(f"tab{next(front._n)}")
    bes = sorted({b for b, _ in ccs}) + (["rust"] if rust else [])
    M, err = execx.generate(exe, prog, d, flags, bes)
    W = Want(M, kinds); tabs, fail = [], dict(err)
    for be, cc in ccs:
        if be in err: continue
        cpp = be == "cpp"; src = os.path.join(d, f"probe-{be}.{'cpp' if cpp else 'c'}")
        with open(src, "w") as h: h.write(c_probe(M, W, cpp))
        x = os.path.join(d, f"probe-{cc}")
        rc, out = sh([cc, "-w", "-O0", "-I", ".", "-I", INC_C] + (["-std=gnu++17", "-I", INC_CPP] if cpp else []) + [src, "-o", x], d)
        if rc == 0: rc, so, se = run([x], timeout=60); out = so.decode()
        if rc: fail[f"{be} ({cc})"] = " | ".join([l for l in out.splitlines() if "error" in l][:3])[:600] or out[-400:]; continue
        tabs += fold(W, be, cc, [json.loads(l) for l in out.splitlines()])
    if rust and "rust" not in err:
        mods = sorted(f[:-3] for f in os.listdir(os.path.join(d, "rs", "interfaces")) if f.endswith(".rs"))
        with open(os.path.join(d, "rs", "main.rs"), "w") as h: h.write(rust_probe(M, W, mods))
        x = os.path.join(d, "probe-rust")
        rc, out = sh(["rustc", "--edition", "2021", "--cfg", 'feature="std"', "-C", "debuginfo=0", "-C", "opt-level=0", "-A", "warnings", "rs/main.rs", "-o", x], d, env=cargo_env())
        if rc == 0: rc, so, se = run([x], timeout=60); out = so.decode()
        if rc: fail["rust"] = " | ".join([l for l in out.splitlines() if "error" in l][:3])[:600] or out[-400:]
        else: tabs += fold(W, "rust", "rustc", [json.loads(l) for l in out.splitlines()])
    if {"op", "error"} & set(kinds):
        mt = mir_tables(exe, M, d, W, flags)
        if mt: tabs += mt
    shutil.rmtree(d, ignore_errors=True)
    return tabs, fail

def read_java(exe, progs, kinds, flags=()):
    """-> per program (tables, {what: error}); skips programs the Java backend documents as unsupported"""
    ds = []
    def g(p):
        d = scratch(f"jt{next(front._n)}"); return d, *java_generate(exe, p, d, flags)
    gs = pmap(g, progs)
    java_home()
    idx = [i for i, (d, o, e) in enumerate(gs) if e is None]
    parts = chunks(idx, NCPU)
    rs = pmap(lambda q: java_batch([gs[i][1] for i in q]), parts)
    res = {i: r for q, x in zip(parts, rs) for i, r in zip(q, x)}
    out = []
    for i, p in enumerate(progs):
        if i not in res: out.append(([], {"java": gs[i][2]})); continue
        ok, diag, cls = res[i]
        if not ok: out.append(([], {"java": " | ".join(m for k, m in diag if k == "ERROR")[:500]})); continue
        M = glue.Model(p); W = Want(M, kinds); tabs = []
        get = lambda c, f: cls.get(c, {}).get(f, ("missing", []))
        for kind, sc, ns in W.t:
            if kind == "fconst": rr = [(n, get(sc, n)) for n in ns]
            elif kind in ("const", "error"): rr = [(n, get(sc, f"{sc}_{n.upper()}")) for n in ns]
            elif kind == "op":
                rr = [(n, get(sc, f"{sc}_OP_{n}")) for n in ns]
                tabs.append(dict(be="java", cc="javac", kind=kind, sc=sc, rows=[dict(n=n, v=int.from_bytes(bytes(b), "little", signed=True) if b else -1) for n, (t, b) in rr])); continue
            else: continue
            tabs.append(dict(be="java", cc="javac", kind=kind, sc=sc, rows=[dict(n=n, ty=t, b=b) for n, (t, b) in rr]))
        out.append((tabs, {}))
    for d, _, _ in gs: shutil.rmtree(d, ignore_errors=True)
    return out

def judge_tables(c, prop, progs, tabs, skip_fail=()):
    """tabs: per program (tables, failures)"""
    for p, (ts, fs) in zip(progs, tabs):
        for what, e in fs.items():
            c.violation(f"build:{what}", f"probe for {what} does not build: {e}", dict(files=idl.render(p), error=e))
    items = [(pi, t) for pi, (ts, _) in enumerate(tabs) for t in ts]
    random.Random(11).shuffle(items)
    # a program's tables go to one judge
    byp = {}
    for pi, t in items: byp.setdefault(pi, []).append(t)
    parts = [[] for _ in range(NCPU)]; load = [0] * NCPU
    for pi in sorted(byp, key=lambda x: -sum(len(t["rows"]) for t in byp[x])):
        k = load.index(min(load)); parts[k].append(pi); load[k] += sum(len(t["rows"]) + 5 for t in byp[pi])
    parts = [q for q in parts if q]
    flat = [[(pi, t) for pi in q for t in byp[pi]] for q in parts]
    data = [{"progs.json": [idl.strip(progs[pi]) for pi in q], "tables.json": [dict(p=q.index(pi) + 1, **{k: v for k, v in t.items() if k != "cc"}) for pi, t in fl]} for q, fl in zip(parts, flat)]
    bad, tot = judge(c, "MinkTables", data)
    c.cov["traces_validated_against_impl"] += len(items)
    by = {}
    for _, t in items: k = f"{t['be']}:{t['kind']}"; by.setdefault(k, 0); by[k] += len(t["rows"])
    for k, v in by.items(): c.cov.setdefault("rows", {}); c.cov["rows"][k] = c.cov["rows"].get(k, 0) + v
    c.stage(f"judged {tot}")
    for b in bad:
        pi, t = flat[b["chunk"]][b["case"] - 1]
        row = t["rows"][b["row"] - 1] if b["row"] else None
        decl = ""
        if row is not None and t["kind"] in ("fconst", "const", "constown"):
            for f in progs[pi]["files"]:
                for dd in f["decls"]:
                    for m in (dd["m"] if dd["k"] == "iface" else [dd]):
                        if m["k"] == "const" and m["n"] == row["n"]: decl = idl.r_const(m)
        c.violation(f"{t['be']}:{t['kind']}", f"{t['be']} ({t['cc']}) {t['kind']} of {t['sc']}: {row if row else t['rows'][:20]} {decl}",
                    dict(files=idl.render(progs[pi]), table=t, row=row))
    for pi, t in items[:3]: c.sample(t)
