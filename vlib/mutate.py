"""Injecting one restriction violation into a well-formed file set, at a random place.  The injected
kind is a hint for coverage statistics only; the specification decides what the result violates."""
import copy
from .idl import *

def structs(p): return [(i, d) for i, f in enumerate(p["files"]) for d in f["decls"] if d["k"] == "struct"]
def ifaces(p): return [(i, d) for i, f in enumerate(p["files"]) for d in f["decls"] if d["k"] == "iface"]
def methods(p): return [(i, d, m) for i, d in ifaces(p) for m in d["m"] if m["k"] == "method"]
def names(p): return [d["n"] for f in p["files"] for d in f["decls"]]

def chain(p, d):
    by = {x["n"]: x for _, x in ifaces(p)}
    out = [d]
    while out[-1]["b"] and out[-1]["b"] in by: out.append(by[out[-1]["b"]])
    return out

OUT = dict(uint8=["256", "0x100", "-1", "-0", "-0x1", "1.5", "99999999999999999999999", "0x1FF"],
           uint16=["65536", "0x10000", "-1", "2.0"], uint32=["4294967296", "0x100000000", "-5", "0.5"],
           uint64=["18446744073709551616", "0x10000000000000000", "-1", "1.0", "-0x0"],
           int8=["128", "-129", "0x80", "-0x81", "1.5"], int16=["32768", "-32769", "0x8000", "-0x8001"],
           int32=["2147483648", "-2147483649", "0x80000000", "-0x80000001"],
           int64=["9223372036854775808", "-9223372036854775809", "0x8000000000000000", "-0x8000000000000001", "3.25"])

class NA(Exception): pass

def pick(r, xs):
    if not xs: raise NA()
    return r.choice(xs)

def m_inc_cycle(p, r):
    j = r.randrange(len(p["files"])); k = r.randint(j + 1, len(p["files"]))
    p["files"][j]["incs"].append(k)
def m_struct_cycle(p, r):
    _, d = pick(r, structs(p))
    by = {x["n"]: x for _, x in structs(p)}
    # a struct reachable by containment from d (or d itself) gets a field of type d
    seen, st = [d], [d]
    while st:
        for f in st.pop()["fields"]:
            q = by.get(f["t"])
            if q and q not in seen: seen.append(q); st.append(q)
    q = r.choice(seen[::-1])
    if r.random() < .5: q["fields"].append(field(d["n"], "cyc_x"))
    else: r.choice(q["fields"])["t"] = d["n"]
def m_inherit_cycle(p, r):
    _, d = pick(r, ifaces(p)); c = chain(p, d)
    c[-1]["b"] = r.choice(c)["n"]
def m_dup_param(p, r):
    _, d, m = pick(r, [x for x in methods(p) if x[2]["p"]])
    q = r.choice(m["p"])
    m["p"].insert(r.randint(0, len(m["p"])), param(r.choice(["in", "out"]), r.choice(["uint32", "buffer", q["t"]]), q["n"]))
def m_dup_field(p, r):
    _, d = pick(r, structs(p)); f = r.choice(d["fields"])
    d["fields"].insert(0, dict(f)) if r.random() < .5 else d["fields"].append(dict(f))
def m_dup_method(p, r):
    _, d = pick(r, ifaces(p)); c = chain(p, d)
    ms = [m for x in c for m in x["m"] if m["k"] == "method"]
    m = pick(r, ms)
    d["m"].insert(r.randint(0, len(d["m"])), method(m["n"], []))
def m_dup_const_error(p, r):
    _, d = pick(r, ifaces(p)); c = chain(p, d)
    x = r.choice(c)
    new = lambda: r.choice([error("DupE"), const("DupE", "uint8", "1"), const("DupE", "int32", "-1")])
    x["m"].insert(r.randint(0, len(x["m"])), new())
    d["m"].insert(r.randint(0, len(d["m"])), new())
def m_dup_top(p, r):
    n = pick(r, names(p)); f = r.choice(p["files"])
    new = r.choice([struct(n, [field("uint8", "a")]), const(n, "uint8", "1"), iface(n, []), iface(n, [method("zz", [])])])
    f["decls"].insert(r.randint(0, len(f["decls"])), new)
def m_undef_field(p, r):
    _, d = pick(r, structs(p)); d["fields"].append(field("NoSuchType", "nst"))
def m_undef_param(p, r):
    _, d, m = pick(r, methods(p))
    cs = [c["n"] for f in p["files"] for c in f["decls"] if c["k"] == "const"]
    t = r.choice(["NoSuchType"] + cs)
    m["p"].insert(r.randint(0, len(m["p"])), param(r.choice(["in", "out"]), t, "nst", r.choice([-1, -1, 0, 3])))
def m_undef_base(p, r):
    _, d = pick(r, ifaces(p))
    r.choice(chain(p, d))["b"] = r.choice(["NoSuchBase"] + [s["n"] for _, s in structs(p)])
def m_misalign(p, r):
    _, d = pick(r, structs(p))
    d["fields"].insert(r.randint(0, len(d["fields"])), field(r.choice(["uint8", "uint16", "int32", "float64", "interface"]), "mis_x", r.choice([1, 1, 2, 3])))
def m_missize(p, r):
    _, d = pick(r, structs(p)); d["fields"].append(field("uint8", "mis_y", r.choice([1, 2, 3])))
def m_newstruct(p, r):
    """a small struct over the primitive alphabet, aligned or not, placed anywhere"""
    f = r.choice(p["files"])
    fs = [field(r.choice(PRIMS + ["interface"]), "q%d" % i, r.choice([1, 1, 1, 2, 3])) for i in range(r.randint(1, 4))]
    f["decls"].insert(r.randint(0, len(f["decls"])), struct("ProbeS", fs))
def m_neststruct(p, r):
    """structs of structs and of arrays of structs, aligned or not, placed anywhere in any order"""
    f = r.choice(p["files"])
    leaf = [[("uint64", 1)], [("uint32", 1)], [("uint16", 1)], [("uint8", 1)], [("uint32", 2)], [("int16", 3)], [("float64", 1)], [("interface", 1)], [("uint8", 4)], [("uint32", 1), ("uint16", 2)]]
    ds = [struct("ProbeN0", [field(t, "q%d" % i, n) for i, (t, n) in enumerate(r.choice(leaf))])]
    for k in range(1, r.randint(2, 4)):
        fs = [field("ProbeN%d" % (k - 1), "in0", r.choice([1, 1, 2, 3, 4]))]
        for i in range(r.randint(0, 2)):
            fs.insert(r.randint(0, len(fs)), field(r.choice(["uint8", "uint16", "uint32", "uint64", "ProbeN%d" % r.randrange(k)]), "q%d" % i, r.choice([1, 1, 2, 4])))
        ds.append(struct("ProbeN%d" % k, fs))
    r.shuffle(ds)
    for d in ds: f["decls"].insert(r.randint(0, len(f["decls"])), d)
def m_const_range(p, r):
    t = r.choice(sorted(OUT)); c = const("OutOfRange", t, r.choice(OUT[t]))
    if r.random() < .5 and ifaces(p):
        _, d = r.choice(ifaces(p)); d["m"].insert(r.randint(0, len(d["m"])), c)
    else:
        f = r.choice(p["files"]); f["decls"].insert(r.randint(0, len(f["decls"])), c)
def vis_iface(p, r, i):
    """a visible interface name for file i (its own or included ones), or None"""
    ns = [d["n"] for j, d in ifaces(p) if j <= i]
    return r.choice(ns) if ns else None
def ins(r, m, q): m["p"].insert(r.randint(0, len(m["p"])), q)
def m_objarr_unbounded(p, r):
    i, d, m = pick(r, methods(p)); ins(r, m, param(r.choice(["in", "out"]), d["n"], "oau", 0))
def m_objarr_single(p, r):
    i, d, m = pick(r, methods(p)); di = r.choice(["in", "out"])
    a, b = param(di, r.choice([d["n"], "interface"]), "oa1", r.randint(1, 3)), param(di, r.choice([d["n"], "interface"]), "ob1")
    ins(r, m, a); ins(r, m, b)
def m_objarr_two(p, r):
    i, d, m = pick(r, methods(p)); di = r.choice(["in", "out"])
    for n in ("oa1", "oa2"): ins(r, m, param(di, r.choice([d["n"], "interface"]), n, r.randint(1, 3)))
def objstruct(p, r, deep=None):
    f = p["files"][0]
    s = [struct("ObS", [field("interface", "ob")]), struct("ObS", [field("uint64", "a"), field("interface", "ob", 2)])]
    f["decls"].append(r.choice(s))
    n = "ObS"
    if r.random() < .4:
        f["decls"].append(struct("ObT", [field("uint32", "a", 2), field("ObS", "in_s")])); n = "ObT"
    return n
def m_objarr_struct(p, r):
    i, d, m = pick(r, methods(p)); di = r.choice(["in", "out"]); n = objstruct(p, r)
    ins(r, m, param(di, "interface", "oa1", 2)); ins(r, m, param(di, n, "os1"))
def m_arr_objstruct(p, r):
    i, d, m = pick(r, methods(p)); n = objstruct(p, r)
    ins(r, m, param(r.choice(["in", "out"]), n, "os1", 0))
def m_arr_bounded(p, r):
    i, d, m = pick(r, methods(p))
    ts = PRIMS + [s["n"] for j, s in structs(p) if j <= i]
    ins(r, m, param(r.choice(["in", "out"]), r.choice(ts), "ab1", r.choice([1, 2, 7, 100])))
def m_dup_attr(p, r):
    _, d, m = pick(r, methods(p)); m["attrs"] = ["optional"] * r.choice([2, 2, 3]); m["opt"] = True
def m_many(p, r):
    i, d, m = pick(r, methods(p)); di = r.choice(["in", "out"]); k = r.choice([15, 16, 16, 17, 20])
    x = r.randrange(5)
    if x == 0: m["p"] = [param(di, "buffer", f"mb{j}") for j in range(k)]
    elif x == 1: m["p"] = [param(di, "interface", f"mo{j}") for j in range(k)]
    elif x == 2: m["p"] = [param(di, "interface", "moa", r.choice([k, 16, 255, 256, 65535]))]
    elif x == 3:
        n = objstruct(p, r); m["p"] = [param(di, n, f"ms{j}") for j in range(r.choice([7, 8, 15, 16]))]
    else: m["p"] = [param(di, "uint8", f"mp{j}", 0) for j in range(k - 1)] + [param(di, "uint64", "ma"), param(di, "uint16", "mb")]
def m_arrsize(p, r):
    _, d = pick(r, structs(p)); f = field("uint8", "asz", 1, True); f["c"] = r.choice([0, 0, 65536, 65535 * 16, 1000000])
    d["fields"].append(f)

MUTS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("m_")}

def mutate(p, r, kind):
    q = copy.deepcopy(p)
    MUTS[kind](q, r)
    return q
