"""Glue between generated code and the driver (harness/exec): for every interface of a
program, a client and a server in C, C++ and Rust, spelled the way the generated code
documents.  It converts between typed values and byte images, nothing else."""
from .idl import PRIMS, PSIZE

CT = {**{p: p + "_t" for p in PRIMS if "int" in p}, "float32": "float", "float64": "double"}
RT = {p: p.replace("uint", "u").replace("int", "i").replace("float", "f") for p in PRIMS}

class Model:
    """the resolved names of a program"""
    def __init__(s, p):
        s.p = p
        s.structs, s.ifaces, s.file = {}, {}, {}
        reach, todo = [], [p["main"]]
        while todo:
            i = todo.pop()
            if i in reach: continue
            reach.append(i); todo += p["files"][i - 1]["incs"]
        for i in sorted(reach):
            for d in p["files"][i - 1]["decls"]:
                if d["k"] == "struct": s.structs[d["n"]] = d; s.file[d["n"]] = p["files"][i - 1]["name"]
                if d["k"] == "iface": s.ifaces[d["n"]] = d; s.file[d["n"]] = p["files"][i - 1]["name"]
        s.reach = sorted(reach)
    def chain(s, n):
        out = []
        while n: out.insert(0, n); n = s.ifaces[n]["b"]
        return out
    def methods(s, n): return [(o, m) for o in s.chain(n) for m in s.ifaces[o]["m"] if m["k"] == "method"]
    def obj(s, t): return t == "interface" or t in s.ifaces
    def size(s, t):
        if t in PSIZE: return PSIZE[t]
        if t in s.structs: return sum(s.size(f["t"]) * f["c"] for f in s.structs[t]["fields"])
        return 16
    def nobj(s, t):
        if t in PSIZE or t == "buffer": return 0
        if t in s.structs: return sum(s.nobj(f["t"]) * f["c"] for f in s.structs[t]["fields"])
        return 1
    def kind(s, q):
        """f fixed data, b buffer, o objects; with element size and number of objects"""
        if q["t"] == "buffer": return "b", 1, 0
        if s.obj(q["t"]): return "o", 0, q["a"] if q["a"] > 0 else 1
        if q["a"] == 0: return "b", s.size(q["t"]), 0
        return "f", s.size(q["t"]), s.nobj(q["t"])

# ------------------------------------------------------------------------------------ C, C++

def c_helpers(M):
    out = []
    done = []
    def go(n):
        if n in done: return
        for f in M.structs[n]["fields"]:
            if f["t"] in M.structs: go(f["t"])
        done.append(n)
        g, h = [], []
        for f in M.structs[n]["fields"]:
            a = f["c"] != 1
            x = f"d->{f['n']}" + ("[i]" if a else "")
            lo = f"for (size_t i = 0; i < {f['c']}; i++) " if a else ""
            if f["t"] in PSIZE:
                t, z = CT[f["t"]], PSIZE[f["t"]]
                g.append(f"{lo}{{ {t} t; memcpy(&t, *p, {z}); *p += {z}; {x} = t; }}")
                h.append(f"{lo}{{ {t} t = {x}; memcpy(*p, &t, {z}); *p += {z}; }}")
            elif f["t"] in M.structs:
                g.append(f"{lo}hz_get_{f['t']}(&{x}, p, o);"); h.append(f"{lo}hz_put_{f['t']}(&{x}, p, o);")
            else:
                g.append(f"{lo}{{ *p += 16; memcpy(&{x}, *o, 16); (*o)++; }}")
                h.append(f"{lo}{{ memset(*p, 0, 16); *p += 16; memcpy(*o, &{x}, 16); (*o)++; }}")
        out.append(f"static inline void hz_get_{n}({n} *d, const uint8_t **p, HObj **o) {{ {' '.join(g)} }}")
        out.append(f"static inline void hz_put_{n}(const {n} *d, uint8_t **p, HObj **o) {{ {' '.join(h)} }}")
    for n in M.structs: go(n)
    return out

def c_client(M, I, m, cpp):
    """a function from images to a call of the stub"""
    pre, args, post = [], [], []
    for i, q in enumerate(m["p"]):
        k, z, no = M.kind(q); t, out = q["t"], q["d"] == "out"
        v, x = f"v[{i}]", f"a{i}"
        if k == "b":
            if t == "buffer": ct = "void"
            else: ct = CT.get(t, t)
            args += [f"({'const ' if not out else ''}{ct} *){v}.b", f"{v}.n"] + ([f"&{v}.lenout"] if out else [])
        elif k == "f" and t in PSIZE:
            pre.append(f"{CT[t]} {x}; memcpy(&{x}, {v}.b, {z});")
            args.append(f"&{x}" if out else x)
            if out: post.append(f"memcpy({v}.b, &{x}, {z});")
        elif k == "f":
            pre.append(f"{t} {x}; memset((void *)&{x}, 0x5A, sizeof {x});")
            pre.append(f"{{ const uint8_t *p = {v}.b; HObj *o = {v}.o; hz_get_{t}(&{x}, &p, &o); }}")
            args.append(x if cpp else f"&{x}")
            if out: post.append(f"{{ uint8_t *p = {v}.b; HObj *o = {v}.o; hz_put_{t}(&{x}, &p, &o); }}")
        elif q["a"] > 0:
            n = q["a"]
            if cpp:
                ty = "ProxyBase" if t == "interface" else t
                pre.append(f"{ty} {x}[{n}] = {{ {', '.join(f'{ty}(hz_O({v}.o[{j}]))' for j in range(n))} }};")
                post.append(f"for (int j = 0; j < {n}; j++) {v}.o[j] = hz_H({x}[j].ProxyBase::extract());")
                args.append(x)
            else:
                pre.append(f"Object {x}[{n}]; memcpy({x}, {v}.o, sizeof {x});"); args.append(f"&{x}" if out else f"(const Object (*)[{n}])&{x}")
                post.append(f"memcpy({v}.o, {x}, sizeof {x});")
        else:
            if cpp:
                ty = "ProxyBase" if t == "interface" else t
                pre.append(f"{ty} {x}(hz_O({v}.o[0]));"); args.append(x); post.append(f"{v}.o[0] = hz_H({x}.ProxyBase::extract());")
            else:
                pre.append(f"Object {x} = hz_O({v}.o[0]);"); args.append(f"&{x}" if out else x); post.append(f"{v}.o[0] = hz_H({x});")
    f = f"hzc_{I}__{m['n']}"
    if cpp:
        body = f"{I} t(hz_O(target)); " + " ".join(pre) + f" int32_t r = t.{m['n']}({', '.join(args)}); " + " ".join(post) + " t.ProxyBase::extract(); return r;"
    else:
        body = " ".join(pre) + f" int32_t r = {I}_{m['n']}({', '.join(['hz_O(target)'] + args)}); " + " ".join(post) + " return r;"
    return f, f"static int32_t {f}(HObj target, HV *v) {{ {body} }}"

def c_server(M, m, cpp):
    """-> (parameter list, body) of an implementation"""
    sig, pre, post = [], [f"HV v[{len(m['p']) + 1}]; memset((void *)v, 0, sizeof v);"], []
    for i, q in enumerate(m["p"]):
        k, z, no = M.kind(q); t, out = q["t"], q["d"] == "out"
        v, x = f"v[{i}]", f"a{i}"
        if k == "b":
            ct = "void" if t == "buffer" else CT.get(t, t)
            sig += [f"{'' if out else 'const '}{ct} *{x}", f"size_t {x}_len"] + ([f"size_t *{x}_lenout"] if out else [])
            pre.append(f"{v}.b = (uint8_t *){x}; {v}.n = {x}_len;")
            if out: post.append(f"*{x}_lenout = {v}.lenout;")
        elif k == "f" and t in PSIZE:
            sig.append(f"{CT[t]} *{x}" if out else f"{CT[t]} {x}")
            pre.append(f"uint8_t b{i}[{z}]; {v}.b = b{i};" + ("" if out else f" memcpy(b{i}, &{x}, {z});"))
            if out: post.append(f"{{ {CT[t]} t; memcpy(&t, b{i}, {z}); *{x} = t; }}")
        elif k == "f":
            sig.append((f"{t} &{x}" if out else f"const {t} &{x}") if cpp else (f"{t} *{x}" if out else f"const {t} *{x}"))
            r = f"&{x}" if cpp else x
            pre.append(f"uint8_t b{i}[{z}]; HObj o{i}[{no + 1}]; {v}.b = b{i}; {v}.o = o{i};")
            if out: post.append(f"{{ const uint8_t *p = b{i}; HObj *o = o{i}; hz_get_{t}({r}, &p, &o); }}")
            else: pre.append(f"{{ uint8_t *p = b{i}; HObj *o = o{i}; hz_put_{t}({r}, &p, &o); }}")
        else:
            n = q["a"] if q["a"] > 0 else 1
            ty = ("ProxyBase" if t == "interface" else t) if cpp else "Object"
            pre.append(f"HObj o{i}[{n}]; {v}.o = o{i};")
            if q["a"] > 0:
                sig.append(f"{'' if out else 'const '}{ty} (&{x})[{n}]" if cpp else f"{'' if out else 'const '}{ty} (*{x})[{n}]")
                e = f"{x}[j]" if cpp else f"(*{x})[j]"
                lo = f"for (int j = 0; j < {n}; j++) "
            else:
                sig.append(f"{'' if out else 'const '}{ty} &{x}" if cpp else (f"Object *{x}" if out else f"Object {x}"))
                e = x if cpp or not out else f"*{x}"; lo = "{ int j = 0; "
            if out: post.append(lo + (f"{e} = {ty}(hz_O(o{i}[j]));" if cpp else f"{e} = hz_O(o{i}[j]);") + ("}" if lo[0] == "{" else ""))
            else: pre.append(lo + (f"o{i}[j] = hz_H({e}.ProxyBase::get());" if cpp else f"o{i}[j] = hz_H({e});") + ("}" if lo[0] == "{" else ""))
    body = " ".join(pre) + f" int32_t r = hz_serve(\"{m['n']}\", v, {len(m['p'])}); " + " ".join(post) + " return r;"
    return ", ".join(sig), body

def names(M):
    return [M.p["files"][i - 1]["name"] for i in M.reach]

def c_file(M, cpp):
    ext = "hpp" if cpp else "h"
    o = ['#include <string.h>', '#include <stdlib.h>'] + (["#include <cstdint>", "#include <atomic>"] if cpp else [])
    for n in names(M): o.append(f'#include "{n}.{ext}"')
    for n in names(M): o.append(f'#include "{n}_invoke.{ext}"')
    o.append('#include "hz.h"')
    o.append("static inline Object hz_O(HObj h) { Object o; memcpy((void *)&o, &h, sizeof o); return o; }")
    o.append("static inline HObj hz_H(Object o) { HObj h; memcpy(&h, &o, sizeof h); return h; }")
    o += c_helpers(M)
    ct, st = [], []
    if not cpp: o.append("typedef struct { int refs; } HzS;")
    for I in M.ifaces:
        ms = M.methods(I)
        for own, m in ms:
            f, code = c_client(M, I, m, cpp); o.append(code); ct.append(f'{{"{I}", "{m["n"]}", {f}}}')
        for bare in (0, 1):
            if bare and not any(m["opt"] for _, m in ms): continue
            nm = f"hz{'b' if bare else 's'}_{I}"
            if cpp:
                o.append(f"class {nm} : public {I}ImplBase {{ public: ~{nm}() {{ hz_gone(); }}")
                for own, m in ms:
                    if bare and m["opt"]: continue
                    sig, body = c_server(M, m, True); o.append(f"  int32_t {m['n']}({sig}) {{ {body} }}")
                o.append("};")
                o.append(f"static void {nm}_make(HObj *h) {{ Object o = (Object){{ ImplBase::invoke, new {nm}() }}; *h = hz_H(o); }}")
            else:
                o.append(f"static int32_t {nm}_release(HzS *s) {{ if (--s->refs == 0) {{ hz_gone(); free(s); }} return 0; }}")
                o.append(f"static int32_t {nm}_retain(HzS *s) {{ s->refs++; return 0; }}")
                for own, m in ms:
                    if bare and m["opt"]: continue
                    sig, body = c_server(M, m, False); o.append(f"int32_t {nm}_{m['n']}({', '.join(['HzS *me'] + ([sig] if sig else []))}) {{ {body} }}")
                o.append(f"static {I}_DEFINE_INVOKE({nm}_invoke, {nm}_, HzS *)")
                o.append(f"static void {nm}_make(HObj *h) {{ HzS *s = (HzS *)malloc(sizeof *s); s->refs = 1; Object o = {{ {nm}_invoke, s }}; *h = hz_H(o); }}")
            st.append(f'{{"{I}", {bare}, {nm}_make}}')
    ex = 'extern "C" ' if cpp else ""
    vis = '__attribute__((visibility("default"))) '
    o.append(f"{ex}{{ extern const HClient {vis}hz_clients[]; extern const HServer {vis}hz_servers[]; }}" if cpp else f"extern const HClient {vis}hz_clients[]; extern const HServer {vis}hz_servers[];")
    o.append(f"const HClient hz_clients[] = {{ {', '.join(ct + ['{0, 0, 0}'])} }};")
    o.append(f"const HServer hz_servers[] = {{ {', '.join(st + ['{0, 0, 0}'])} }};")
    return "\n".join(o) + "\n"

# ------------------------------------------------------------------------------------- Rust

def rust_file(M, mods, object_dir):
    """mods: module names of the generated files"""
    low = {m.lower(): m for m in mods}
    def mod(n): return low.get(n.lower(), n.lower())
    def ity(t): return "Object" if t == "interface" else f"crate::interfaces::{mod(t)}::{t}"
    def sty(t): return f"crate::interfaces::{mod(M.file[t])}::r#{t}"
    o = ["#![allow(warnings)]", f'#[path = "{object_dir}/mod.rs"] pub mod object;',
         "#[allow(unused, nonstandard_style, clippy::all)] pub mod interfaces { " + " ".join(f"pub mod {m};" for m in mods) + " }",
         "use object::Object; use std::mem::{transmute, transmute_copy, ManuallyDrop, forget, MaybeUninit}; use std::ptr::{read_unaligned, write_unaligned, addr_of_mut, addr_of};",
         "#[repr(C)] #[derive(Clone, Copy)] pub struct HObj { i: usize, c: usize }",
         "#[repr(C)] pub struct HV { b: *mut u8, n: usize, lenout: usize, o: *mut HObj }",
         "#[repr(C)] pub struct HClient { i: *const u8, m: *const u8, f: Option<unsafe extern \"C\" fn(HObj, *mut HV) -> i32> }",
         "#[repr(C)] pub struct HServer { i: *const u8, bare: i32, f: Option<unsafe extern \"C\" fn(*mut HObj)> }",
         "unsafe impl Sync for HClient {} unsafe impl Sync for HServer {}",
         "extern \"C\" { fn hz_serve(m: *const u8, v: *mut HV, n: i32) -> i32; fn hz_gone(); }",
         "fn hv() -> HV { HV { b: std::ptr::null_mut(), n: 0, lenout: 0, o: std::ptr::null_mut() } }",
         "unsafe fn sl<'a, T>(p: *const u8, n: usize) -> &'a [T] { if n == 0 { &[] } else { std::slice::from_raw_parts(p.cast(), n) } }",
         "unsafe fn slm<'a, T>(p: *mut u8, n: usize) -> &'a mut [T] { if n == 0 { &mut [] } else { std::slice::from_raw_parts_mut(p.cast(), n) } }",
         "unsafe fn h<T>(o: Option<&T>) -> HObj { match o { Some(x) => transmute_copy(x), None => HObj { i: 0, c: 0 } } }"]
    for n, d in M.structs.items():
        g, p = [], []
        for f in d["fields"]:
            a = f["c"] != 1; x = f"(*d).r#{f['n']}" + ("[i]" if a else "")
            lo, hi = (f"for i in 0..{f['c']} {{ ", " }") if a else ("", "")
            if f["t"] in PSIZE:
                t, z = RT[f["t"]], PSIZE[f["t"]]
                g.append(f"{lo}{{ let t: {t} = read_unaligned((*p).cast()); *p = (*p).add({z}); {x} = t; }}{hi}")
                p.append(f"{lo}{{ let t: {t} = {x}; write_unaligned((*p).cast(), t); *p = (*p).add({z}); }}{hi}")
            elif f["t"] in M.structs:
                g.append(f"{lo}get_{f['t']}(addr_of_mut!({x}), p, o);{hi}"); p.append(f"{lo}put_{f['t']}(addr_of!({x}), p, o);{hi}")
            else:
                g.append(f"{lo}{{ *p = (*p).add(16); let t: Option<{ity(f['t'])}> = transmute(**o); *o = (*o).add(1); addr_of_mut!({x}).write(t); }}{hi}")
                p.append(f"{lo}{{ std::ptr::write_bytes(*p, 0, 16); *p = (*p).add(16); let t: &Option<{ity(f['t'])}> = &{x}; **o = transmute_copy(t); *o = (*o).add(1); }}{hi}")
        o.append(f"unsafe fn get_{n}(d: *mut {sty(n)}, p: &mut *const u8, o: &mut *const HObj) {{ {' '.join(g)} }}")
        o.append(f"unsafe fn put_{n}(d: *const {sty(n)}, p: &mut *mut u8, o: &mut *mut HObj) {{ {' '.join(p)} }}")
    ct, st = [], []
    for I in M.ifaces:
        for own, m in M.methods(I):
            pre, args, pat, post, fin = [], [], [], [], []
            for i, q in enumerate(m["p"]):
                k, z, no = M.kind(q); t, out = q["t"], q["d"] == "out"; v, x = f"(*v.add({i}))", f"a{i}"
                if k == "b":
                    et = "u8" if t == "buffer" else RT[t] if t in PSIZE else sty(t)
                    if out:
                        args += [f"slm::<{et}>({v}.b, {v}.n)", f"&mut {x}"]; pre.append(f"let mut {x}: usize = {v}.lenout;"); fin.append(f"{v}.lenout = {x};")
                    else: args.append(f"sl::<{et}>({v}.b, {v}.n)")
                elif k == "f" and t in PSIZE:
                    if out: pat.append(x); post.append(f"{{ let {x}: {RT[t]} = {x}; write_unaligned({v}.b.cast(), {x}); }}")
                    else: pre.append(f"let {x}: {RT[t]} = read_unaligned({v}.b.cast());"); args.append(x)
                elif k == "f":
                    if out: pat.append(x); post.append(f"{{ let {x}: ManuallyDrop<{sty(t)}> = ManuallyDrop::new({x}); let (mut p, mut o) = ({v}.b, {v}.o); put_{t}(&*{x}, &mut p, &mut o); }}")
                    else:
                        pre.append(f"let mut {x} = ManuallyDrop::new(MaybeUninit::<{sty(t)}>::uninit()); {{ let (mut p, mut o) = ({v}.b as *const u8, {v}.o as *const HObj); get_{t}({x}.as_mut_ptr(), &mut p, &mut o); }}")
                        args.append(f"&*{x}.as_ptr()")
                else:
                    n = q["a"] if q["a"] > 0 else 0
                    ty = f"Option<{ity(t)}>"
                    if n:
                        if out: pat.append(x); post.append(f"{{ let {x}: [{ty}; {n}] = {x}; for j in 0..{n} {{ *{v}.o.add(j) = transmute_copy(&{x}[j]); }} forget({x}); }}")
                        else: pre.append(f"let {x}: ManuallyDrop<[{ty}; {n}]> = ManuallyDrop::new(std::ptr::read({v}.o.cast()));"); args.append(f"&*{x}")
                    else:
                        if out: pat.append(x); post.append(f"{{ let {x}: {ty} = {x}; *{v}.o = transmute_copy(&{x}); forget({x}); }}")
                        else: pre.append(f"let {x}: ManuallyDrop<{ty}> = ManuallyDrop::new(std::ptr::read({v}.o.cast()));"); args.append(f"(*{x}).as_ref()")
            f = f"hzc_{I}__{m['n']}"
            pt = "()" if not pat else f"({pat[0]})" if len(pat) == 1 else f"({', '.join(pat)})"
            o.append(f"unsafe extern \"C\" fn {f}(target: HObj, v: *mut HV) -> i32 {{ let t: ManuallyDrop<{ity(I)}> = transmute(target); {' '.join(pre)} "
                     f"let r = t.r#{m['n']}({', '.join(args)}); {' '.join(fin)} match r {{ Ok({pt}) => {{ {' '.join(post)} 0 }} Err(e) => i32::from(object::Error::from(e)) }} }}")
            ct.append(f'HClient {{ i: c"{I}".as_ptr().cast(), m: c"{m["n"]}".as_ptr().cast(), f: Some({f}) }}')
        for bare in (0, 1):
            ch = M.chain(I)
            if bare and not any(m["opt"] for _, m in M.methods(I)): continue
            nm = f"hz{'b' if bare else 's'}_{I}"
            o.append(f"struct {nm}; impl Drop for {nm} {{ fn drop(&mut self) {{ unsafe {{ hz_gone() }} }} }}")
            for own in ch:
                im = f"crate::interfaces::{mod(own)}"
                o.append(f"impl {im}::I{own} for {nm} {{")
                for m in [x for x in M.ifaces[own]["m"] if x["k"] == "method"]:
                    if bare and m["opt"]: continue
                    sig, pre, rets, rty, fin = ["&mut self"], [f"let mut v: [HV; {len(m['p']) + 1}] = [{', '.join(['hv()'] * (len(m['p']) + 1))}];"], [], [], []
                    for i, q in enumerate(m["p"]):
                        k, z, no = M.kind(q); t, out = q["t"], q["d"] == "out"; v, x = f"v[{i}]", f"a{i}"
                        if k == "b":
                            et = "u8" if t == "buffer" else RT[t] if t in PSIZE else sty(t)
                            if out:
                                sig += [f"{x}: &mut [{et}]", f"{x}_lenout: &mut usize"]; pre.append(f"{v}.b = {x}.as_mut_ptr().cast(); {v}.n = {x}.len();"); fin.append(f"*{x}_lenout = {v}.lenout;")
                            else: sig.append(f"{x}: &[{et}]"); pre.append(f"{v}.b = {x}.as_ptr() as *mut u8; {v}.n = {x}.len();")
                        elif k == "f":
                            ty = RT[t] if t in PSIZE else sty(t)
                            pre.append(f"let mut b{i} = [0u8; {z}]; let mut o{i} = [HObj {{ i: 0, c: 0 }}; {no + 1}]; {v}.b = b{i}.as_mut_ptr(); {v}.o = o{i}.as_mut_ptr();")
                            if out:
                                rty.append(ty)
                                if t in PSIZE: rets.append(f"read_unaligned::<{ty}>(b{i}.as_ptr().cast())")
                                else: rets.append(f"{{ let mut s = MaybeUninit::<{ty}>::uninit(); let (mut p, mut o) = (b{i}.as_ptr(), o{i}.as_ptr()); get_{t}(s.as_mut_ptr(), &mut p, &mut o); s.assume_init() }}")
                            elif t in PSIZE: sig.append(f"{x}: {ty}"); pre.append(f"write_unaligned(b{i}.as_mut_ptr().cast(), {x});")
                            else: sig.append(f"{x}: &{ty}"); pre.append(f"{{ let (mut p, mut o) = (b{i}.as_mut_ptr(), o{i}.as_mut_ptr()); put_{t}({x}, &mut p, &mut o); }}")
                        else:
                            n = q["a"] if q["a"] > 0 else 0
                            pre.append(f"let mut o{i} = [HObj {{ i: 0, c: 0 }}; {n or 1}]; {v}.o = o{i}.as_mut_ptr();")
                            if n:
                                ty = f"[Option<{ity(t)}>; {n}]"
                                if out: rty.append(ty); rets.append(f"transmute::<[HObj; {n}], {ty}>(o{i})")
                                else: sig.append(f"{x}: &{ty}"); pre.append(f"for j in 0..{n} {{ o{i}[j] = h({x}[j].as_ref()); }}")
                            else:
                                ty = f"Option<{ity(t)}>"
                                if out: rty.append(ty); rets.append(f"transmute::<HObj, {ty}>(o{i}[0])")
                                else: sig.append(f"{x}: Option<&{ity(t)}>"); pre.append(f"o{i}[0] = h({x});")
                    rt = f"({', '.join(rty)})"
                    o.append(f"  fn r#{m['n']}({', '.join(sig)}) -> Result<{rt}, {im}::Error> {{ unsafe {{ {' '.join(pre)} "
                             f"let r = hz_serve(c\"{m['n']}\".as_ptr().cast(), v.as_mut_ptr(), {len(m['p'])}); {' '.join(fin)} "
                             f"if r != 0 {{ return Err({im}::Error::from(object::Error::from(r))); }} Ok(({', '.join(rets)})) }} }}")
                o.append("}")
            o.append(f"unsafe extern \"C\" fn {nm}_make(h: *mut HObj) {{ *h = transmute({ity(I)}::from({nm})); }}")
            st.append(f'HServer {{ i: c"{I}".as_ptr().cast(), bare: {bare}, f: Some({nm}_make) }}')
    ct.append("HClient { i: std::ptr::null(), m: std::ptr::null(), f: None }")
    st.append("HServer { i: std::ptr::null(), bare: 0, f: None }")
    o.append(f"#[no_mangle] pub static hz_clients: [HClient; {len(ct)}] = [{', '.join(ct)}];")
    o.append(f"#[no_mangle] pub static hz_servers: [HServer; {len(st)}] = [{', '.join(st)}];")
    return "\n".join(o) + "\n"
