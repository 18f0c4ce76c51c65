"""Programs to execute: signatures the specification enumerates, seeded random programs,
and seeded methods of particular shapes."""
import copy, random
from .common import *
from . import gen, idl
from .idl import *

ALPHA = [iface("IQ", []), iface("IR", [], "IQ"),
         struct("S3", [field("uint8", "a", 3)]), struct("S4", [field("uint16", "a"), field("int8", "b", 2)]),
         struct("S6", [field("uint16", "a"), field("uint16", "b", 2)]),
         struct("S16", [field("uint64", "a"), field("uint32", "b", 2)]), struct("S17", [field("uint8", "a", 17)]),
         struct("S24", [field("S16", "a"), field("S4", "b", 2)]), struct("S12", [field("S4", "x", 2), field("float32", "y")]),
         struct("SO", [field("IQ", "o")]), struct("SX", [field("interface", "o"), field("uint64", "z")]),
         struct("SN", [field("uint32", "k", 2), field("SX", "x", 2), field("IR", "q", 1)])]
SHAPES = [dict(t=t, a=-1) for t in PRIMS + ["S3", "S4", "S6", "S12", "S16", "S17", "S24", "SO", "SX", "SN", "buffer", "IQ", "interface"]] + \
         [dict(t=t, a=0) for t in ["uint8", "uint32", "float64", "S3", "S12", "S17"]] + [dict(t="IQ", a=2), dict(t="interface", a=3), dict(t="IR", a=1)]

def signatures(c=None):
    """every lawful signature of at most two parameters, as TLC enumerates them"""
    p = program([file("al", ALPHA)])
    r = tlc("MinkSigs", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", {"alphabet.json": idl.strip(p), "shapes.json": SHAPES})
    s = r.json("sigs.json")
    s.sort(key=json.dumps)
    return s

def sig_programs(sigs, per=40, extra=None):
    """the alphabet in one file, methods in another, spread over interfaces"""
    out = []
    for k in range(0, len(sigs), per):
        ms = [method(f"m{i}", [dict(q) for q in s]) for i, s in enumerate(sigs[k:k + per])]
        h = len(ms) // 2
        fs = [file("al", ALPHA), file("sg", [iface("IBase", ms[:h]), iface("IDer", ms[h:], "IBase")], [1])]
        out.append(program(fs, 2))
    return out

SMALL = PRIMS + ["S3", "S4", "S6", "S12", "S16", "SO"]
def shaped(r, shape):
    """parameters of a shape"""
    nm = iter([f"{a}{b}" for a in "pq" for b in "abcdefghijklmnoprtuvwxyz"] + [f"z{i}" for i in range(20)])
    P = lambda d, t, a=-1: param(d, t, next(nm), a)
    ps = []
    ob = {"in": 0, "out": 0}
    def sm(d):
        t = r.choice(SMALL)
        if t == "SO":
            if ob[d] >= 15: t = "uint8"
            else: ob[d] += 1
        return P(d, t)
    if shape == "bundle-in": ps = [sm("in") for _ in range(r.randint(2, 7))] + [sm("out") for _ in range(r.randint(0, 1))]
    elif shape == "bundle-out": ps = [sm("out") for _ in range(r.randint(2, 7))] + [sm("in") for _ in range(r.randint(0, 1))]
    elif shape == "bundle-both": ps = [sm(r.choice(["in", "out"])) for _ in range(r.randint(4, 12))]
    elif shape == "ties": t = r.choice([("uint8", "int8"), ("uint32", "float32", "S4", "int32"), ("uint16", "int16"), ("uint64", "float64", "int64"), ("S16", "SO")]); ps = [P(r.choice(["in", "out"]), r.choice([x for x in t if x != "SO"])) for _ in range(r.randint(3, 7))]
    elif shape == "bundle-huge":   # more members than a short sort handles
        n = r.randint(20, 45); d = r.choice(["in", "out"]); o = "out" if d == "in" else "in"
        ps = [P(d, r.choice(["uint8", "int16", "uint32", "float32", "uint64", "S3", "S4", "S12"])) for _ in range(n)] + [P(o, r.choice(SMALL[:-1])) for _ in range(r.randint(0, 3))]
    elif shape == "mixed":
        for _ in range(r.randint(3, 8)):
            d = r.choice(["in", "out"]); x = r.random()
            if x < .5: ps.append(sm(d))
            elif x < .6: ps.append(P(d, r.choice(["S17", "S24"])))
            elif x < .8: ps.append(P(d, *r.choice([("buffer",), ("uint8", 0), ("uint32", 0), ("uint64", 0), ("S12", 0), ("S17", 0)])))
            elif ob[d] < 9: ps.append(P(d, r.choice(["IQ", "IR", "interface"]))); ob[d] += 1
    elif shape == "objects":
        for d in ("in", "out"):
            x = r.random()
            if x < .3:
                ps.append(P(d, r.choice(["IQ", "IR", "interface"]), r.randint(1, 6))); ps += [P(d, r.choice(["uint8", "uint64", "S3"])) for _ in range(r.randint(0, 2))]
            else:
                for _ in range(r.randint(0, 4)):
                    t = r.choice(["IQ", "interface", "IR", "SO", "SX", "SN", "uint32", "S24", "buffer"])
                    n = dict(IQ=1, interface=1, IR=1, SO=1, SX=1, SN=3).get(t, 0)
                    if ob[d] + n <= 15: ps.append(P(d, t)); ob[d] += n
        r.shuffle(ps)
    elif shape == "full":      # many arguments of a class
        for d in ("in", "out"):
            cl = r.choice(["buf", "obj", "objarr", "none", "both", "struct"])
            if cl in ("buf", "both"): ps += [P(d, *r.choice([("buffer",), ("uint16", 0), ("S17",), ("S24",)])) for _ in range(r.choice([8, 13, 14, 15]))]
            if cl == "obj": ps += [P(d, r.choice(["IQ", "interface"])) for _ in range(r.choice([7, 14, 15]))]
            if cl in ("objarr", "both"): ps.append(P(d, "IQ", r.choice([9, 14, 15])))
            if cl == "struct": ps += [P(d, "SN") for _ in range(r.choice([4, 5]))]
        r.shuffle(ps)
    return ps

def shaped_program(r, shapes, n=16):
    ms = [method(f"m{i}", shaped(r, r.choice(shapes)), opt=r.random() < .1) for i in range(n)]
    h = r.randint(0, n)
    return program([file("al", ALPHA), file("sh", [iface("IBase", ms[:h] + [error("E_ONE")]), iface("IDer", ms[h:], "IBase")], [1])], 2)

def random_programs(r, n, **o):
    k = dict(methods=(2, 5), params=(0, 6), structs=(1, 4), ifaces=(1, 3), maxfiles=3, chain=4)
    k.update(o)
    return [gen.Gen(r, shuffle=r.random() < .4, **k).prog() for _ in range(n)]

def spread(p, r):
    """the program with some of its files in directories"""
    if len(p["files"]) < 2: return p
    p = copy.deepcopy(p)
    for i, f in enumerate(p["files"]):
        if r.random() < .6: f["name"] = r.choice(["sub/", "sub/deep/", "other/"]) + f["name"]
    return p

def positions(r, n=1):
    """every kind of argument at every place of an argument list: earlier classes full, and up to three arguments short of it"""
    SM = [struct("SL", [field("SX", "x", 4), field("IQ", "p", 2), field("interface", "o")]), struct("SM", [field("uint64", "k"), field("SL", "l"), field("SX", "m", 2), field("IQ", "q", 6)])]
    out = []
    for _ in range(n):
        ms = []
        for cls, before in (("oo", 3), ("oi", 2), ("bo", 1), ("bi", 0)):
            for full in range(before + 1):
                for how in range(3):
                    nm = (f"p{i}" for i in range(200)); ps = []
                    P = lambda d, t, a=-1: ps.append(param(d, t, next(nm), a))
                    def buf(d): P(d, *r.choice([("buffer",), ("uint8", 0), ("uint32", 0), ("uint64", 0), ("S12", 0), ("S17", 0), ("S24",), ("S17",)]))
                    def obj(d): P(d, r.choice(["IQ", "IR", "interface"]))
                    k = {c: (15 if i < full else 0) for i, c in enumerate(["bi", "bo", "oi"][:before])}
                    # short of full by a few
                    for c in k:
                        if k[c]: k[c] -= r.choice([0, 0, 0, 1, 2, 3])
                    k[cls] = 15
                    for d, b, o in (("in", "bi", "oi"), ("out", "bo", "oo")):
                        n_b, n_o = k.get(b, 0), k.get(o, 0)
                        if n_b and r.random() < .5:     # one of the buffers is the bundle
                            n_b -= 1
                            for _ in range(r.randint(1, 4)): P(d, r.choice(PRIMS + ["S3", "S12", "S16"]))
                        if how == 1:
                            # an array of all of them (there is one in a direction, and nothing beside it)
                            if n_o: P(d, r.choice(["IQ", "IR", "interface"]), n_o)
                        elif o == cls and how == 2 and n_b < 15:
                            P(d, "SM"); n_b = max(n_b - 1, 0); n_o -= 15
                            for _ in range(n_o): obj(d)
                        else:
                            for _ in range(n_o): obj(d)
                        for _ in range(n_b): buf(d)
                    r.shuffle(ps); ms.append(method(f"m{len(ms)}", ps, opt=r.random() < .1))
        r.shuffle(ms)
        out.append(program([file("al", ALPHA + SM), file("pos", [iface("IBase", ms[:9]), iface("IDer", ms[9:], "IBase")], [1])], 2))
    return out

def nests(r, n=1):
    """structs of arrays of structs, several levels deep, and long arrays"""
    D = [struct("D0", [field("uint8", "a", 2, arr=True)]), struct("D1", [field("D0", "x", 2)]), struct("D2", [field("D1", "x", 2)]), struct("D3", [field("D2", "x", 2)]),
         struct("L0", [field("uint16", "a"), field("int8", "b", 2)]), struct("L1", [field("L0", "x", 2), field("uint32", "y")]), struct("L2", [field("uint32", "k"), field("L1", "x", 3)]),
         struct("L3", [field("L2", "x", 2), field("L0", "z", 3)]), struct("L4", [field("L3", "x", 2), field("int16", "t", 301), field("uint16", "u")]), struct("L5", [field("float32", "f"), field("L4", "x", 2), field("uint8", "w", 1000)])]
    names = [d["n"] for d in D]; small = names[:4] + ["L0", "L1"]
    out = []
    for _ in range(n):
        ms = []
        for t in names:
            for d in ("in", "out"):
                ms.append([param(d, t, "s")])
                ms.append([param(d, t, "s"), param(r.choice(["in", "out"]), r.choice(names), "q"), param(d, r.choice(PRIMS), "z")])
                ms.append([param(d, t, "s", 0), param(r.choice(["in", "out"]), r.choice(names), "q", r.choice([0, -1]))])
            if t in small: ms += [[param(d, r.choice(small + PRIMS[:3]), f"s{i}") for i in range(r.randint(2, 5))] + [param(d, t, "t")] for d in ("in", "out")]
        r.shuffle(ms); h = len(ms) // 2
        ms = [method(f"m{i}", m) for i, m in enumerate(ms)]
        out.append(program([file("ne", D), file("nm", [iface("IBase", ms[:h]), iface("IDer", ms[h:], "IBase")], [1])], 2))
    return out
