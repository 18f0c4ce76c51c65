"""One generated Rust object shared by threads, run under a controlled scheduler
(harness/shared) on the unmodified generated code and object library of the repository."""
import json, os, random, shutil, subprocess
from .common import *
from . import execx, front, glue, idl

HS = os.path.join(VERIF, "harness", "shared")
_lib = None
def shim():
    """the standard library with shuttle's locks and atomics -> rustc flags"""
    global _lib
    if _lib: return _lib
    w = scratch("shim"); tgt = os.path.join(BUILD, "shared")
    for f in ("Cargo.toml", "Cargo.lock"): shutil.copy(os.path.join(HS, f), os.path.join(w, f))
    shutil.copytree(os.path.join(HS, "src"), os.path.join(w, "src"), dirs_exist_ok=True)
    e = cargo_env(); e["CARGO_TARGET_DIR"] = tgt
    p = subprocess.run(["cargo", "build", "--offline", "--release"], cwd=w, env=e, capture_output=True, text=True)
    if p.returncode: raise ToolError("scheduler shim does not build:\n" + p.stderr[-3000:])
    d = os.path.join(tgt, "release")
    _lib = ["--extern", "vstd=" + os.path.join(d, "libvstd.rlib"), "-L", "dependency=" + os.path.join(d, "deps")]
    return _lib

def kinds(M, mods):
    low = {m.lower(): m for m in mods}
    pos = {n: i for i, n in enumerate(M.ifaces)}; o = []
    for n, d in M.ifaces.items():
        T = f"crate::interfaces::{low.get(n.lower(), n.lower())}::{n}"
        b = d["b"]; B = f"crate::interfaces::{low.get(b.lower(), b.lower())}::{b}" if b else "Object"
        o.append(f"fn hzss_{n}() {{ fn f<T: Send + Sync + Clone>() {{}} f::<{T}>() }}")
        o.append(f"unsafe fn hzk_{n}(h: HObj) -> HObj {{ let t: ManuallyDrop<{T}> = transmute(h); transmute::<{T}, HObj>((*t).clone()) }}")
        o.append(f"unsafe fn hzd_{n}(h: HObj) {{ drop(transmute::<HObj, {T}>(h)) }}")
        o.append(f"unsafe fn hzu_{n}(h: HObj) -> HObj {{ let t: {T} = transmute(h); let b: {B} = {B}::from(t); transmute::<{B}, HObj>(b) }}")
        o.append(f"unsafe fn hzl_{n}(h: HObj) -> bool {{ let t: ManuallyDrop<Object> = transmute(h); crate::interfaces::{low.get(n.lower(), n.lower())}::downcast_concrete::<(), hzs_{n}>(&*t, |_| drive::hz_look()).is_some() }}")
    o.append("unsafe fn hzk_(h: HObj) -> HObj { let t: ManuallyDrop<Object> = transmute(h); transmute::<Object, HObj>((*t).clone()) } unsafe fn hzd_(h: HObj) { drop(transmute::<HObj, Object>(h)) }")
    ks = [f'drive::Kind {{ name: "{n}", clone: hzk_{n}, drop: hzd_{n}, up: Some(({pos[d["b"]] if d["b"] else len(pos)}, hzu_{n})), look: Some(hzl_{n}) }}' for n, d in M.ifaces.items()]
    ks.append('drive::Kind { name: "", clone: hzk_, drop: hzd_, up: None, look: None }')
    o.append(f"static HZ_KINDS: [drive::Kind; {len(ks)}] = [{', '.join(ks)}];")
    return "\n".join(o)

def build(exe, prog, sched=True):
    """-> (executable, error, model)"""
    d = scratch(f"sh{next(front._n)}")
    M, err = execx.generate(exe, prog, d, (), ["rust"])
    if err: return None, str(err), M, d
    mods = sorted(f[:-3] for f in os.listdir(os.path.join(d, "rs", "interfaces")) if f.endswith(".rs"))
    src = glue.rust_file(M, mods, os.path.join(REPO, "tests", "src", "object"))
    drive = "drive.rs" if sched else "drive_os.rs"
    # the functions the glue declares are the driver's
    head = "extern crate vstd as std; extern crate vstd as core;" if sched else ""
    src = src.replace("#![allow(warnings)]", "#![allow(warnings)] " + head, 1)
    src += kinds(M, mods) + "\n" + open(os.path.join(HS, drive)).read()
    with open(os.path.join(d, "rs", "main.rs"), "w") as h: h.write(src)
    x = os.path.join(d, "shared")
    rc, out = execx.sh(["rustc", "--edition", "2021", "--cfg", 'feature="std"', "-C", "debuginfo=0", "-C", "opt-level=1", "-C", "debug-assertions=on", "-A", "warnings", *(shim() if sched else []), "rs/main.rs", "-o", x], d, env=cargo_env())
    return (x, None, M, d) if rc == 0 else (None, " | ".join([l for l in out.splitlines() if "error" in l][:4])[:700] or out[-400:], M, d)

def method_lines(M):
    o, seen = [], set()
    for I in M.ifaces:
        for own, m in M.methods(I):
            if m["n"] in seen: continue
            seen.add(m["n"])
            ps = [f"{k} {z} {no} {q['d'][0]}" for q in m["p"] for k, z, no in [M.kind(q)]]
            o.append(" ".join([f"M {I} {m['n']} {len(ps)}"] + ps))
    return o
