"""Names a user may well choose: where they go, and what the specification says about them there."""
import os, re, random, copy
from .common import *
from . import buildx, front, gen, idl
from .idl import *

# the names of the template are its roles
def template():
    inc = file("stemI", [struct("SI", [field("uint32", "fa"), field("uint32", "fb", 3)]), const("KI", "uint32", "7"), const("KI2", "float32", "-1.5"),
        iface("IB", [const("cb", "int32", "-3"), error("eb"), method("mb", [param("in", "uint32", "pa"), param("out", "uint32", "pb")])])])
    main = file("stemM", [struct("SM", [field("SI", "fc"), field("uint64", "fd", 2)]), struct("SN", [field("SM", "fe", 2), field("float64", "ff")]), const("KM", "uint16", "9"),
        iface("ID", [const("cd", "uint8", "3"), const("cd2", "float64", "2.5"), error("ed"), error("ed2"),
          method("md", [param("in", "uint32", "pc"), param("in", "SI", "pd"), param("out", "uint64", "pe"), param("out", "uint16", "pf"), param("in", "buffer", "pg"),
             param("out", "SM", "ph", 0), param("in", "IB", "pi"), param("out", "ID", "pj")]),
          method("mz", []), method("mo", [param("in", "SM", "pk"), param("in", "uint8", "pl"), param("out", "IB", "pm", 2), param("in", "interface", "pn", 3)], opt=True)], "IB"),
        iface("IE", [method("mq", [param("in", "SI", "po", 0), param("out", "SI", "pp"), param("out", "SN", "pq"), param("in", "uint64", "pr"), param("out", "buffer", "ps")]),
                     method("mr", [param("out", "uint8", "pt"), param("in", "int16", "pu", 0), param("out", "interface", "pv")])], "ID")], [1])
    return program([inc, main], 2)
ROLES = ["stemI", "stemM", "SI", "SM", "SN", "KI", "KI2", "KM", "IB", "ID", "IE", "fa", "fb", "fc", "fd", "fe", "ff", "cb", "eb", "cd", "cd2", "ed", "ed2",
         "mb", "md", "mo", "mq", "mr", "mz"] + ["p" + x for x in "abcdefghijklmnopqrstuv"]
NICE = {r: dict(stemI="incx", stemM="mainx", SI="Sinc", SM="Smain", SN="Snest", KI="kone", KI2="kreal", KM="kmain", IB="Ibase", ID="Ider", IE="Ilast", cb="cbase", eb="ebase", cd="cder", cd2="creal",
            ed="eder", ed2="emore", mb="mbase", md="mder", mo="mopt", mq="mlast", mr="mfin", mz="mvoid").get(r, r + "x") for r in ROLES}

EXTRA = """notify wait getClass hashCode toString clone finalize equals drop borrow main errno stdin printf exit abort malloc free index read write assert EOF INT_MAX
UINT8_MAX memcpy memcmp std string vector linux unix i386 String Integer Byte Short Long Void System Thread List Vec i8 i16 i64 f32 f64 isize str bool char hash cmp eq
impl_ base proxy obj args count n k x _x y z self_ result status ret rv tmp data buf len val type_ value key id name out_ in_ ref_ ptr_ IFoo Foo FooImplBase Io OP_x retain release invoke
object mink interfaces core alloc crate_ Drop Default Iterator Sized Fn ToString Debug_ err ok some none e f a b c d p q r s t u v w op ctx cxt h me func prefix bi bo oi oo size methodID
boSizes consume isNull get set assign attach detach wrap unwrap as_ptr as_mut_ptr len_ iter map cast from_ OutOfMemoryError Exception Class Enum Record var_ module
exports open opens provides requires to transitive uses with yield_ union auto_ raw safe macro_rules dyn_ NAN INFINITY M_PI I0 _1 signed_ near far min max abs log pow time signal""".split()

def rename(p, f):
    q = copy.deepcopy(p); g = lambda x: f.get(x, x)
    for fl in q["files"]:
        fl["name"] = g(fl["name"])
        for d in fl["decls"]:
            d["n"] = g(d["n"])
            for x in d.get("fields", []): x["n"], x["t"] = g(x["n"]), g(x["t"])
            if "b" in d: d["b"] = g(d["b"])
            for m in d.get("m", []):
                m["n"] = g(m["n"])
                for x in m.get("p", []): x["n"], x["t"] = g(x["n"]), g(x["t"])
    return q

def nice(f=None): return rename(template(), dict(NICE, **(f or {})))

def harvest(exe):
    """every identifier of what the generators write for the template"""
    d = scratch("harv"); buildx.generate(exe, nice(), d, {(t, m) for t, m, _ in buildx.KINDS})
    toks = set()
    for r, _, fs in os.walk(d):
        for f in fs:
            if f.endswith(".idl"): continue
            s = re.sub(r"//.*|/\*.*?\*/|\"[^\"]*\"", "", open(os.path.join(r, f)).read())
            toks |= set(re.findall(r"[A-Za-z_]\w*", s))
    return toks

def pool(exe):
    ok = lambda t: re.fullmatch(r"[A-Za-z][A-Za-z0-9_]*", t) and t not in gen.RESERVED and t not in ("interface", "struct", "method", "error", "const", "include", "in", "out", "buffer")
    return sorted(t for t in harvest(exe) | set(EXTRA) if ok(t))

RELS = [["xyz", "xyz"], ["Xyz", "Xyz"], ["xyz", "XYZ"], ["Xyz", "xyz"], ["xyz", "xyz_ptr"], ["xyz", "xyz_val"], ["xyz", "xyz_len"], ["xyz", "xyz_lenout"], ["xyz", "xyz_obj"], ["xyz", "xyz_ref"],
        ["Xyz", "IXyz"], ["Xyz", "XyzImplBase"], ["xyz", "OP_xyz"], ["xyz", "m_xyz"], ["xyz", "xyz_out"], ["Xyz", "Xyz_release"]]
PAIRROLES = ["stemI", "stemM", "SI", "SM", "SN", "KI", "KI2", "KM", "IB", "ID", "IE", "fa", "fc", "fe", "cb", "eb", "cd", "cd2", "ed", "mb", "md", "mq", "pa", "pc", "pd", "pe", "pg", "ph", "pi", "pj", "pm"]

# roles whose circumstances are those of another role
LIKE = dict(SN="SM", KI="KM", KI2="KM", cd2="cd", ed2="ed", mo="md", mr="mq", **{f: "fa" for f in ("fb", "fd", "ff")}, pb="pa",
            **{"p" + x: "pc" for x in "defghijklmn"}, **{"p" + x: "po" for x in "pqrstuv"})

def places(pl, pairs=None, few=None):
    """-> {role: {name: {target: [labels]} or None}}, [(f, {target: labels} or None)]"""
    pairs = pairs if pairs is not None else [(a, b) for a in PAIRROLES for b in PAIRROLES if a != b]
    t = idl.strip(nice()); inv = {r: NICE[r] for r in ROLES}
    n = NCPU
    cs = [{"names.json": dict(template=t, sets=[dict(roles=[inv[r] for r in ROLES if r not in LIKE and r[0] == "p"], pool=pl[i::n]), dict(roles=[inv[r] for r in ROLES if r not in LIKE and r[0] != "p"], pool=(few or pl)[i::n])], rels=RELS, pairs=[[inv[a], inv[b]] for a, b in pairs[i::n]], storms=[])} for i in range(n)]
    res = pmap(lambda d: tlc("MinkNames", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", d, heap="3g", timeout=800).json("places.json"), cs)
    back = {v: r for r, v in inv.items()}
    ones = {r: {} for r in ROLES}; twos = []
    val = lambda x: {t: sorted(l) for t, l in x["clash"].items()} if x["ok"] else None
    for i, v in enumerate(res):
        for st in v["ones"]:
            for rn, ns in st.items():
                for nm, x in ns.items(): ones[back[rn]][nm] = val(x)
        for (a, b), js in zip(pairs[i::n], v["twos"]):
            for (x, y), o in zip(RELS, js): twos.append(({a: x, b: y}, val(o)))
    for r, o in LIKE.items(): ones[r] = ones[o]
    return ones, twos

def labels(fs):
    """whole assignments of names to roles -> {target: labels} or None each"""
    n = NCPU; t = idl.strip(nice())
    cs = [{"names.json": dict(template=t, sets=[], rels=[], pairs=[], storms=[[[NICE[r], x] for r, x in f.items()] for f in fs[i::n]])} for i in range(n)]
    res = pmap(lambda d: tlc("MinkNames", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", d, heap="3g", timeout=800).json("places.json"), cs)
    out = [None] * len(fs)
    for i, v in enumerate(res):
        for j, x in enumerate(v["many"]): out[i + j * n] = {t: sorted(l) for t, l in x["clash"].items()} if x["ok"] else None
    return out
