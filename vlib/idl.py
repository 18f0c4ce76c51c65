"""Abstract IDL file sets (the JSON the TLA+ modules read) and their rendering as text."""
import copy, os, random

PRIMS = ["uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "float32", "float64"]
PSIZE = dict(uint8=1, int8=1, uint16=2, int16=2, uint32=4, int32=4, float32=4, uint64=8, int64=8, float64=8)

def lit(s):
    """'-0x1F' / '12' / '-1.50' -> literal record"""
    neg = s.startswith("-"); t = s[1:] if neg else s
    hx = t.startswith("0x"); t = t[2:] if hx else t
    ip, dot, fp = t.partition(".")
    return dict(neg=neg, hex=hx, i=[int(c, 16) for c in ip], f=[int(c) for c in fp], dot=bool(dot), s=s)

def const(n, t, s): return dict(k="const", n=n, t=t, v=lit(s))
def field(t, n, c=1, arr=None): return dict(t=t, n=n, c=c, arr=(c != 1) if arr is None else arr)
def struct(n, fields): return dict(k="struct", n=n, fields=fields)
def param(d, t, n, a=-1): return dict(d=d, t=t, n=n, a=a)
def method(n, ps, opt=False, attrs=None, doc=None):
    at = attrs if attrs is not None else (["optional"] if opt else [])
    return dict(k="method", n=n, p=ps, opt="optional" in at, attrs=at, doc=doc or "")
def error(n): return dict(k="error", n=n)
def iface(n, members, b=""): return dict(k="iface", n=n, b=b, m=members)
def file(name, decls, incs=()): return dict(name=name, decls=decls, incs=list(incs))
def program(files, main=1): return dict(main=main, files=files)

def r_field(f): return f"{f['t']}{'[%d]' % f['c'] if f['arr'] else ''} {f['n']};"
def r_param(p):
    a = "" if p["a"] < 0 else "[]" if p["a"] == 0 else f"[{p['a']}]"
    return f"{p['d']} {p['t']}{a} {p['n']}"
def r_member(m):
    if m["k"] == "const": return r_const(m)
    if m["k"] == "error": return f"error {m['n']};"
    doc = ""
    if m.get("doc"):
        doc = "/**\n" + m["doc"] + "*/\n  "
    at = "".join(f"#[{a}] " for a in m["attrs"])
    return f"{doc}{at}method {m['n']}({', '.join(r_param(p) for p in m['p'])});"
def r_const(c): return f"const {c['t']} {c['n']} = {c['v']['s']};"
def r_decl(d):
    if d["k"] == "const": return r_const(d)
    if d["k"] == "struct":
        return f"struct {d['n']} {{\n" + "".join(f"  {r_field(f)}\n" for f in d["fields"]) + "};"
    b = f" : {d['b']}" if d["b"] else ""
    return f"interface {d['n']}{b} {{\n" + "".join(f"  {r_member(m)}\n" for m in d["m"]) + "};"
def inc_path(a, b):
    """how file a includes file b: with directories, paths are relative to the including file"""
    return os.path.relpath(b, os.path.dirname(a) or ".") if "/" in a or "/" in b else b
def r_file(p, i):
    f = p["files"][i]
    inc = "".join(f'include "{inc_path(f["name"], p["files"][j-1]["name"])}.idl"\n' for j in f["incs"])
    return inc + "\n".join(r_decl(d) for d in f["decls"]) + "\n"
def render(p): return {f["name"] + ".idl": r_file(p, i) for i, f in enumerate(p["files"])}

def strip(p):
    """the part of a program the specification reads"""
    q = copy.deepcopy(p)
    def cl(x):
        if isinstance(x, dict):
            x.pop("s", None); x.pop("doc", None)
            for v in x.values(): cl(v)
        elif isinstance(x, list):
            for v in x: cl(v)
    cl(q)
    return q
