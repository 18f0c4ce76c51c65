"""Builds what idlc writes the way upstream's integration build does: every unit a user of the
generated files would write, with conforming user code, by gcc, clang, g++, clang++, rustc
and javac.  Reports what each tool said; expects nothing."""
import json, os, re, shutil, subprocess
from .common import *
from . import execx, front, glue, idl
from .glue import CT, RT
from .idl import PSIZE

WARN = ["-Wall", "-Wextra", "-Wno-unused-parameter", "-Werror"]
WARNXX = ["-Wall", "-Wextra", "-Wno-unused-parameter", "-Wno-missing-field-initializers", "-Werror", "-include", "cstdint", "-include", "atomic"]
JT = {"uint8": "byte", "int8": "byte", "uint16": "char", "int16": "char", "uint32": "int", "int32": "int", "uint64": "long", "int64": "long", "float32": "float", "float64": "double"}
JHARN = os.path.join(VERIF, "harness", "java")

def own(M, f):
    """interfaces, structs and constants of one file"""
    ds = next(x for x in M.p["files"] if x["name"] == f)["decls"]
    return [d["n"] for d in ds if d["k"] == "iface"], [d["n"] for d in ds if d["k"] == "struct"], [d["n"] for d in ds if d["k"] == "const"]

def members(M, I, k):
    return [m["n"] for o in M.chain(I) for m in M.ifaces[o]["m"] if m["k"] == k]

# ------------------------------------------------------------------------------------- C, C++

def call_args(M, m, cpp):
    """declarations and arguments of a call"""
    pre, args = [], []
    for i, q in enumerate(m["p"]):
        k, z, no = M.kind(q); t, out = q["t"], q["d"] == "out"; x = f"usr{i}"
        if k == "b":
            ct = "uint8_t" if t == "buffer" else CT.get(t, t)
            pre.append(f"static {ct} {x}[3];"); args += [x, "3"]
            if out: pre.append(f"size_t {x}n = 0;"); args.append(f"&{x}n")
        elif k == "f" and t in PSIZE: pre.append(f"{CT[t]} {x} = 0;"); args.append(f"&{x}" if out else x)
        elif k == "f": pre.append(f"static {t} {x};"); args.append(x if cpp else f"&{x}")
        else:
            n = q["a"]
            ty = ("ProxyBase" if t == "interface" else t) if cpp else "Object"
            if n > 0: pre.append(f"{ty if cpp else 'static ' + ty} {x}[{n}];"); args.append(x if cpp else f"&{x}" if out else f"(const Object (*)[{n}])&{x}")
            elif cpp: pre.append(f"{ty} {x};"); args.append(x)
            else: pre.append(f"Object {x} = Object_NULL;"); args.append(f"&{x}" if out else x)
    return pre, args

def impl_sig(M, m, cpp, typed=True):
    sig = []
    for i, q in enumerate(m["p"]):
        k, z, no = M.kind(q); t, out = q["t"], q["d"] == "out"; x = f"usr{i}"; c = "" if out else "const "
        if k == "b":
            ct = "void" if t == "buffer" else CT.get(t, t)
            sig += [f"{c}{ct} *{x}", f"size_t {x}n"] + ([f"size_t *{x}o"] if out else [])
        elif k == "f" and t in PSIZE: sig.append(f"{CT[t]} *{x}" if out else f"{CT[t]} {x}")
        elif k == "f": sig.append(f"{c}{t} {'&' if cpp else '*'}{x}")
        else:
            ty = ("ProxyBase" if t == "interface" else t) if cpp else "Object"
            if q["a"] > 0: sig.append(f"{c}{ty} ({'&' if cpp else '*'}{x})[{q['a']}]")
            elif cpp: sig.append(f"{c}{ty} &{x}")
            else: sig.append(f"Object *{x}" if out else f"Object {x}")
    return ", ".join(sig)

CFILE = {"float32": "f", "float64": "d"}
def consts(M, f, cpp):
    """reads of every constant and error the file's header declares"""
    Is, Ss, Ks = own(M, f); out = []
    kt = {d["n"]: d["t"] for x in M.p["files"] for d in x["decls"] if d["k"] == "const"}
    for n in Ks: out.append(f"{CT[kt[n]]} {n_('usrk', n)}(void); {CT[kt[n]]} {n_('usrk', n)}(void) {{ return {n}; }}")
    for I in Is:
        for o in M.chain(I):
            for m in M.ifaces[o]["m"]:
                a = "::" if cpp else "_"; b = "I" if cpp else ""
                if m["k"] == "const": out.append(f"{CT[m['t']]} usrk_{I}__{m['n']}(void); {CT[m['t']]} usrk_{I}__{m['n']}(void) {{ return {b}{I}{a}{m['n']}; }}")
                if m["k"] == "error": out.append(f"int32_t usre_{I}__{m['n']}(void); int32_t usre_{I}__{m['n']}(void) {{ return {b}{I}{a}{m['n']}; }}")
    return out
def n_(a, b): return f"{a}__{b}"

def stub_unit(M, f, cpp, uid, with_consts=True):
    Is, Ss, Ks = own(M, f); o = []
    for I in Is:
        for ow, m in M.methods(I):
            pre, args = call_args(M, m, cpp); fn = f"usrc{uid}_{I}__{m['n']}"
            call = f"return {'usrt.' if cpp else I + '_'}{m['n']}({', '.join(args if cpp else ['usrt'] + args)});"
            ty = f"{I} &" if cpp else "Object "
            o.append(f"int32_t {fn}({ty}usrt); int32_t {fn}({ty}usrt) {{ {' '.join(pre)} {call} }}")
        if not cpp: o.append(f"int32_t usrr{uid}_{I}(Object usrt); int32_t usrr{uid}_{I}(Object usrt) {{ {I}_retain(usrt); return {I}_release(usrt); }}")
    for s in Ss: o.append(f"extern {s} usrs{uid}_{s}; {s} usrs{uid}_{s};")
    if with_consts: o += consts(M, f, cpp)
    return o

def skel_unit(M, f, cpp, bare, uid):
    Is, Ss, Ks = own(M, f); o = []
    for I in Is:
        ms = [m for _, m in M.methods(I) if not (bare and m["opt"])]
        if cpp:
            o.append(f"class usri{uid}_{I} : public {I}ImplBase {{ public:")
            for m in ms: o.append(f"  int32_t {m['n']}({impl_sig(M, m, True)}) {{ return Object_OK; }}")
            o.append(f"}}; Object usrn{uid}_{I}(); Object usrn{uid}_{I}() {{ return (Object) {{ ImplBase::invoke, new usri{uid}_{I}() }}; }}")
        else:
            p = f"usri{uid}_{I}_"
            o.append(f"typedef struct {{ int usr; }} usrT{uid}_{I};")
            for m in ms:
                s = f"int32_t {p}{m['n']}({', '.join(x for x in [f'usrT{uid}_{I} *usrm', impl_sig(M, m, False)] if x)})"
                o.append(f"{s}; {s} {{ return Object_OK; }}")
            for r in ("release", "retain"): o.append(f"static int32_t {p}{r}(usrT{uid}_{I} *usrm) {{ return Object_OK; }}")
            o.append(f"int32_t usrd{uid}_{I}(ObjectCxt usr_h, ObjectOp usr_op, ObjectArg *usr_a, ObjectCounts usr_k); {I}_DEFINE_INVOKE(usrd{uid}_{I}, {p}, usrT{uid}_{I} *)")
    return o

def c_units(M, cpp):
    """{unit: text}"""
    ext = "hpp" if cpp else "h"; fs = glue.names(M); us = {}
    for f in fs:
        us[f"{f}/stub"] = [f'#include "{f}.{ext}"'] + stub_unit(M, f, cpp, fs.index(f))
        us[f"{f}/skel"] = [f'#include "{f}_invoke.{ext}"'] + skel_unit(M, f, cpp, False, f"{fs.index(f)}")
    us["all/both"] = [f'#include "{f}_invoke.{ext}"' for f in fs] + [f'#include "{f}.{ext}"' for f in reversed(fs)] + \
                     [x for f in fs for x in skel_unit(M, f, cpp, True, f"9{fs.index(f)}")] + [x for f in fs for x in stub_unit(M, f, cpp, f"9{fs.index(f)}", False)]
    return us

def sh(cmd, d, env=None):
    for i in (0, 1):
        rc, so, se = run(cmd, timeout=300, cwd=d, env=env)
        if rc != "timeout" and rc >= 0: break
    return rc, (so + se).decode("utf-8", "replace")

def diag(out):
    ls = [l for l in out.splitlines() if re.search(r"error|warning|undefined reference|multiple definition|duplicate", l)]
    return " | ".join(ls[:3])[:600] or out[-300:]

def cc(d, M, cpp, tool, sub, opt="-O1"):
    """compiles every unit of a generated directory (d/sub) and links them"""
    w = os.path.join(d, sub, "w-" + tool); os.makedirs(w, exist_ok=True)
    us = c_units(M, cpp); recs, objs = [], []
    for i, (u, t) in enumerate(us.items()):
        src = os.path.join(w, f"u{i}." + ("cpp" if cpp else "c"))
        with open(src, "w") as f: f.write("\n".join(t) + "\n")
        cmd = [tool] + (WARNXX if cpp else WARN) + [opt, "-fPIC", "-c", "-I", "..", "-I", execx.INC_C] + (["-I", execx.INC_CPP] if cpp else []) + [src, "-o", src + ".o"]
        rc, out = sh(cmd, w)
        recs.append(dict(unit=u, rc=0 if rc == 0 else 1, say=0 if not out.strip() else 1, why=diag(out) if rc or out.strip() else ""))
        if rc == 0: objs.append(src + ".o")
    if len(objs) == len(us):
        rc, out = sh([tool, "-shared", "-o", os.path.join(w, "all.so")] + objs, w)
        recs.append(dict(unit="link", rc=0 if rc == 0 else 1, say=0 if not out.strip() else 1, why=diag(out) if rc or out.strip() else ""))
    shutil.rmtree(w, ignore_errors=True)
    return recs

# --------------------------------------------------------------------------------------- Rust

def rust_user(M, mods):
    low = {m.lower(): m for m in mods}
    def mod(n): return low.get(n.lower(), n.lower())
    def ity(t): return "crate::object::Object" if t == "interface" else f"crate::interfaces::{mod(t)}::{t}"
    def sty(t): return f"crate::interfaces::{mod(os.path.basename(M.file[t]))}::r#{t}"
    o = []
    for I in M.ifaces:
        nm = f"Usr{I}"
        o.append(f"#[allow(nonstandard_style, dead_code, clippy::all)] pub mod usr_{I} {{ pub struct {nm};")
        for w in M.chain(I):
            im = f"crate::interfaces::{mod(w)}"
            o.append(f" impl {im}::I{w} for {nm} {{")
            for m in [x for x in M.ifaces[w]["m"] if x["k"] == "method"]:
                if m["opt"] and len(m["n"]) % 2: continue
                sig, rty, rets = ["&mut self"], [], []
                for i, q in enumerate(m["p"]):
                    k, z, no = M.kind(q); t, out = q["t"], q["d"] == "out"; x = f"_usr{i}"
                    if k == "b":
                        et = "u8" if t == "buffer" else RT[t] if t in PSIZE else sty(t)
                        sig += [f"{x}: &mut [{et}]", f"{x}n: &mut usize"] if out else [f"{x}: &[{et}]"]
                    elif k == "f":
                        ty = RT[t] if t in PSIZE else sty(t)
                        if out: rty.append(ty); rets.append("todo!()")
                        else: sig.append(f"{x}: {ty}" if t in PSIZE else f"{x}: &{ty}")
                    else:
                        ty = f"::core::option::Option<{ity(t)}>" if q["a"] <= 0 else f"[::core::option::Option<{ity(t)}>; {q['a']}]"
                        if out: rty.append(ty); rets.append("todo!()")
                        else: sig.append(f"{x}: &{ty}" if q["a"] > 0 else f"{x}: ::core::option::Option<&{ity(t)}>")
                rt = "()" if not rty else rty[0] if len(rty) == 1 else f"({', '.join(rty)})"
                o.append(f"  fn r#{m['n']}({', '.join(sig)}) -> ::core::result::Result<{rt}, {im}::Error> {{ ::core::result::Result::Err(<{im}::Error as ::core::convert::From<crate::object::Error>>::from(crate::object::Error::from(1))) }}")
            o.append(" }")
        o.append(f" pub fn make() -> {ity(I)} {{ <{ity(I)} as ::core::convert::From<{nm}>>::from({nm}) }}")
        for ow, m in M.methods(I):
            pre, args = [], []
            for i, q in enumerate(m["p"]):
                k, z, no = M.kind(q); t, out = q["t"], q["d"] == "out"; x = f"a{i}"
                if k == "b":
                    et = "u8" if t == "buffer" else RT[t] if t in PSIZE else sty(t)
                    if out: pre.append(f"{x}: &mut [{et}], {x}n: &mut usize"); args += [x, f"{x}n"]
                    else: pre.append(f"{x}: &[{et}]"); args.append(x)
                elif out: pass
                elif k == "f": pre.append(f"{x}: {RT[t]}" if t in PSIZE else f"{x}: &{sty(t)}"); args.append(x)
                elif q["a"] > 0: pre.append(f"{x}: &[::core::option::Option<{ity(t)}>; {q['a']}]"); args.append(x)
                else: pre.append(f"{x}: ::core::option::Option<&{ity(t)}>"); args.append(x)
            o.append(f" pub fn call_{m['n']}(t: &{ity(I)}{''.join(', ' + x for x in pre)}) -> bool {{ {ity(ow)}::r#{m['n']}({', '.join(['t'] + args)}).is_ok() }}")
        o.append("}")
    return "\n".join(o) + "\n"

def rust(d, M, features=("std",)):
    r = os.path.join(d, "rs")
    mods = sorted(f[:-3] for f in os.listdir(os.path.join(r, "interfaces")) if f.endswith(".rs"))
    with open(os.path.join(r, "user.rs"), "w") as f: f.write(rust_user(M, mods))
    with open(os.path.join(r, "lib.rs"), "w") as f:
        f.write(f'#[allow(warnings)] #[path = "{execx.OBJ_RS}/mod.rs"] pub mod object;\n'
                "#[allow(unused, nonstandard_style, clippy::all, clippy::pedantic, clippy::nursery)]\npub mod interfaces {\n" + "".join(f"  pub mod {m};\n" for m in mods) + "}\n"
                "#[allow(nonstandard_style)] pub mod user;\n")
    cmd = ["rustc", "--edition", "2021", "--crate-type", "lib", "-D", "warnings", "-C", "debuginfo=0", "-C", "opt-level=0", "rs/lib.rs", "-o", os.path.join(d, "lib.rlib")]
    for x in features: cmd += ["--cfg", f'feature="{x}"']
    rc, out = sh(cmd, d, cargo_env())
    return [dict(unit="crate", rc=0 if rc == 0 else 1, say=0 if not out.strip() else 1, why=rdiag(out) if rc or out.strip() else "")]

def rdiag(out):
    ls = out.splitlines(); keep = []
    for i, l in enumerate(ls):
        if re.match(r"(error|warning)", l) and not l.startswith("error: aborting"): keep.append(l + (" " + ls[i + 1].strip() if i + 1 < len(ls) else ""))
    return " | ".join(keep[:3])[:600] or out[-300:]

# --------------------------------------------------------------------------------------- Java

def java_user(M):
    o = ["package usr;"]; G = "com.qualcomm.qti.mink."; R = "com.qualcomm.qti.qms.api.mink.IMinkObject"
    def jt(t): return JT[t] if t in PSIZE else R if M.obj(t) else f"{G}{os.path.basename(M.file[t])}.{t}"
    o.append("public class Usr {")
    for I in M.ifaces:
        o.append(f" public static class U_{I} implements {G}{I} {{")
        for ow, m in M.methods(I):
            sig = []
            for i, q in enumerate(m["p"]):
                k, z, no = M.kind(q); t, out = q["t"], q["d"] == "out"; x = f"a{i}"
                if k == "b": ty = "byte[]" if t == "buffer" else jt(t) + "[]"
                elif k == "f": ty = jt(t)
                else: ty = R + ("[]" if q["a"] > 0 else "")
                sig += [f"{ty}[] {x}"] + ([f"int {x}n"] if k == "b" or k == "o" and q["a"] > 0 else []) if out else [f"{ty} {x}"]
            if m["opt"] and len(m["n"]) % 2: continue
            o.append(f"  @java.lang.Override public void {m['n']}({', '.join(sig)}) throws {R}.InvokeException {{ }}")
        o.append(" }")
        o.append(f" public static {R} make_{I}() {{ return new {G}{I}.MinkObject(new U_{I}()); }}")
        o.append(f" public static {G}{I} proxy_{I}({R} o) {{ return new {G}{I}.Proxy(o); }}")
    return "\n".join(o) + "\n}\n"

def java(jobs, nproc=None):
    """jobs: [(directory of sources, M)] -> records per job, several javacs in as many JVMs as there are processors"""
    rt = scratch("jbuild")
    if not os.path.exists(os.path.join(rt, "JBuild.class")):
        srcs = [os.path.join(r, f) for r, _, fs in os.walk(os.path.join(JHARN, "rt")) for f in fs if f.endswith(".java")]
        rc, out = sh(["javac", "-nowarn", "-d", rt] + srcs + [os.path.join(JHARN, "JBuild.java")], rt)
        if rc: raise ToolError("JBuild does not compile:\n" + out[-1500:])
    for d, M in jobs:
        with open(os.path.join(d, "Usr.java"), "w") as f: f.write(java_user(M))
    def one(js):
        if not js: return []
        p = subprocess.run(["java", "-Xmx1g", "-cp", rt, "JBuild", rt] + [d for d, _ in js], capture_output=True, text=True, timeout=800)
        ls = [json.loads(l) for l in p.stdout.splitlines() if l.startswith("{")]
        if len(ls) != len(js): raise ToolError("JBuild: " + (p.stderr or p.stdout)[-800:])
        return [[dict(unit="classes", rc=0 if l["ok"] else 1, say=0 if not l["say"] else 1, why=" | ".join(l["say"][:3])[:600])] for l in ls]
    n = nproc or NCPU
    parts = [jobs[i::n] for i in range(n)]
    res = pmap(one, parts)
    out = [None] * len(jobs)
    for i, rs in enumerate(res):
        for j, x in enumerate(rs): out[i + j * n] = x
    return out

# ---------------------------------------------------------------------------------- everything

KINDS = [("c", "typed", "gcc"), ("c", "typed", "clang"), ("c", "untyped", "gcc"), ("c", "untyped", "clang"),
         ("cpp", "typed", "g++"), ("cpp", "typed", "clang++"), ("rust", "typed", "rustc"), ("java", "typed", "javac")]

def subdir(t, mode): return {"c": "c" if mode == "typed" else "cu", "cpp": "cpp", "java": "java"}[t]

def generate(exe, prog, d, targets):
    """idlc outputs; -> (M, {target: complaint})"""
    os.makedirs(d, exist_ok=True)
    front.put(idl.render(prog), d)
    M = glue.Model(prog); err = {}
    for t, mode in sorted(targets):
        o = os.path.join(d, "rs/interfaces" if t == "rust" else subdir(t, mode)); os.makedirs(o, exist_ok=True)
        x = ["--no-typed-objects"] if mode == "untyped" else []
        for n in glue.names(M):
            if "/" in n: os.makedirs(os.path.dirname(os.path.join(o, n)), exist_ok=True)
            src = os.path.join(d, n + ".idl")
            js = {"c": [["-o", f"{o}/{n}.h"], ["--skel", "-o", f"{o}/{n}_invoke.h"]], "cpp": [["-o", f"{o}/{n}.hpp"], ["--skel", "-o", f"{o}/{n}_invoke.hpp"]],
                  "rust": [["-o", o]], "java": [["-o", o]]}[t]
            for j in js:
                rc, out = sh([exe, src, "--" + t, "-I", d] + [y for k in sorted({os.path.dirname(z) for z in glue.names(M)} - {""}) for y in ("-I", os.path.join(d, k))] + j + x, d)
                if rc != 0: err[t] = f"idlc {' '.join(j)} rc={rc}: {out[-300:]}"
    return M, err

def build(exe, progs, kinds=KINDS, opts=("-O1",)):
    """-> [{(target, mode, tool): [unit records]} per program], {target: complaint} per program"""
    root = scratch(f"build{next(front._n)}"); res = [dict() for _ in progs]; errs = [None] * len(progs); jj = []
    tg = {(t, m) for t, m, _ in kinds}
    def gen(i):
        return generate(exe, progs[i], os.path.join(root, str(i)), tg)
    Ms = []
    for i, (M, e) in enumerate(pmap(gen, range(len(progs)))): Ms.append(M); errs[i] = e
    tasks = [(i, k) for i in range(len(progs)) for k in kinds if k[0] != "java" and k[0] not in errs[i]]
    def task(z):
        i, k = z; d = os.path.join(root, str(i)); t, mode, tool = k
        if t == "rust": return rust(d, Ms[i])
        return cc(d, Ms[i], t == "cpp", tool, subdir(t, mode), opts[i % len(opts)])
    for (i, k), r in zip(tasks, pmap(task, tasks)): res[i][k] = r
    for k in kinds:
        if k[0] != "java": continue
        js = [i for i in range(len(progs)) if "java" not in errs[i]]
        for i, r in zip(js, java([(os.path.join(root, str(i), "java"), Ms[i]) for i in js])): res[i][k] = r
    shutil.rmtree(root, ignore_errors=True)
    return res, errs
