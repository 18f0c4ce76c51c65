"""Tables of file sets that lie on either side of a restriction: the specification says which."""
from .common import *
from .idl import *

def lay(ds, how, r):
    """the declarations in the main file, or with the first of them in an included file, or all of them in one the main file does not use"""
    if how == 0: return program([file("near", ds)])
    if how == 1: return program([file("low", ds[:-1]), file("top", ds[-1:], [1])], 2)
    if how == 2: return program([file("low", ds), file("top", [iface("Unrelated", [method("um", [])])], [1])], 2)
    return program([file("low", ds[:1]), file("mid", ds[1:], [1]), file("top", [const("UNRELATED", "uint8", "1")], [2])], 3)

def case(p, hint, **k): return dict(kind="prog", ub=False, hint=hint, p=p, **k)

def members(r):
    """two members of one name, `d` generations apart"""
    mk = dict(const=lambda i: const("same", ["uint8", "int32"][i], "1"), error=lambda i: error("same"), method=lambda i: method("same", [param("in", "uint8", "x")] * i))
    for k1 in mk:
        for k2 in mk:
            for d in range(4):
                for how in (0, 1, 2):
                    ifs = [iface(f"Gen{g}", [error(f"e{g}"), method(f"m{g}", []), const(f"c{g}", "uint8", "1")], f"Gen{g-1}" if g else "") for g in range(4)]
                    top = r.randrange(4 - d)
                    for g, k, i in ((top, k1, 0), (top + d, k2, 1)): ifs[g]["m"].insert(r.randint(0, len(ifs[g]["m"])), mk[k](i))
                    yield case(lay(ifs, how, r), f"near:member {k1}/{k2}")

def tops(r):
    """two declarations of one name, in files related in several ways"""
    mk = dict(struct=lambda i: struct("Same", [field("uint8", "a", i + 1)]), const=lambda i: const("Same", "uint8", "1"), iface=lambda i: iface("Same", [method(f"q{i}", [])]))
    for k1 in mk:
        for k2 in mk:
            a, b = mk[k1](0), mk[k2](1); o = [const("OTHER", "uint8", "1")]
            yield case(program([file("near", [a] + o + [b])]), "near:top")
            yield case(program([file("low", [a]), file("top", [b] + o, [1])], 2), "near:top")
            yield case(program([file("la", [a]), file("lb", [b]), file("top", o, [1, 2])], 3), "near:top")
            yield case(program([file("la", [a]), file("lb", o, [1]), file("top", [b], [2])], 3), "near:top")
            yield case(program([file("la", [a]), file("lb", [b], [1]), file("lc", [const("C", "uint8", "1")], [2]), file("top", o, [3])], 4), "near:top")

def refs(r):
    """a type that is not there, or is something else, wherever a type is named"""
    sites = [lambda t: struct("Site", [field(t, "a")]), lambda t: struct("Site", [field("uint64", "z"), field(t, "a", 2)]), lambda t: iface("Site", [], t), lambda t: iface("Site", [method("m", [])], t)]
    for d in ("in", "out"):
        for a in (-1, 0, 2):
            sites.append(lambda t, d=d, a=a: iface("Site", [method("n", []), method("m", [param("in", "uint8", "x"), param(d, t, "y", a)])]))
    known = [struct("St", [field("uint64", "a")]), struct("Ob", [field("interface", "o")]), iface("Ifc", []), const("Co", "uint8", "1")]
    for s in sites:
        for t in ("Nowhere", "Co", "St", "Ob", "Ifc", "Site", "st"):
            yield case(lay(known + [s(t)], r.randrange(4), r), "near:reference")

def cycles(r):
    """rings of structs and of interfaces, closed or not"""
    for n in (1, 2, 3, 5):
        for closed in (0, 1):
            for arr in (0, 1):
                for how in (0, 1, 2, 3):
                    ss = [struct(f"R{i}", ([field("uint8", "z", 8)] if r.random() < .5 else []) + [field(f"R{(i+1) % n}" if closed or i < n - 1 else "uint8", "x", 2 if arr and i == n - 1 else 1)]) for i in range(n)]
                    r.shuffle(ss); yield case(lay(ss, how, r) if n > 1 or how != 1 else lay(ss, 2, r), "near:ring")
            for how in (0, 1, 2, 3):
                ii = [iface(f"R{i}", [method(f"m{i}", [])], f"R{(i+1) % n}" if closed or i < n - 1 else "") for i in range(n)]
                r.shuffle(ii); yield case(lay(ii, how, r) if n > 1 or how != 1 else lay(ii, 2, r), "near:ring")

def literals(r):
    """literals at and past the ends of their types, wherever a constant stands"""
    for b in (8, 16, 32, 64):
        for s in ("uint", "int"):
            lo, hi = (0, 2 ** b - 1) if s == "uint" else (-2 ** (b - 1), 2 ** (b - 1) - 1)
            vs = [str(hi), str(hi + 1), hex(hi), hex(hi + 1), str(lo), str(lo - 1), str(hi * 10), "0x" + "0" * 20 + format(hi, "X"), "-0", "-" + hex(-lo) if s == "int" else "-0x0", "-" + hex(-lo + 1), str(2 ** 64), hex(2 ** 64), "1" + "0" * 40, "000" + str(hi)]
            if s == "int": vs.append(hex(2 ** b - 1))
            for v in vs:
                c = const("KK", f"{s}{b}", v); w = r.randrange(5)
                if w == 0: p = program([file("near", [c])])
                elif w == 1: p = program([file("near", [iface("I", [method("m", []), c])])])
                elif w == 2: p = program([file("low", [c]), file("top", [iface("I", [])], [1])], 2)
                elif w == 3: p = program([file("low", [iface("B", [c])]), file("top", [iface("I", [], "B")], [1])], 2)
                else: p = program([file("la", [const("K2", "uint8", "1"), iface("B", [error("e"), c])]), file("lb", [], [1]), file("top", [const("K1", "uint8", "1")], [2])], 3)
                yield case(p, "near:literal")
    for t in ("float32", "float64"):
        for v in ("0", "-0.0", "1.5", "0x10", "3" + "0" * 38, "4" + "0" * 38, "1" + "0" * 308, "2" + "0" * 308, "1" + "0" * 400, "0." + "0" * 400 + "1", "-3" + "0" * 39):
            yield case(program([file("near", [const("KK", t, v)])]), "near:literal")

def limits(r):
    """fourteen to sixteen arguments of a class, made of two kinds"""
    pre = [struct("Big", [field("uint64", "a", 3)]), struct("Sm", [field("uint16", "a", 3)]), struct("O1", [field("interface", "o")]), struct("O3", [field("interface", "o", 3)]), struct("B2", [field("O1", "x", 2), field("uint64", "z")]), iface("IQ", [])]
    buf = dict(buffer=("buffer", -1, 1), array=("uint16", 0, 1), sarray=("Big", 0, 1), big=("Big", -1, 1))
    obj = dict(obj=("interface", -1, 1), typed=("IQ", -1, 1), o1=("O1", -1, 1), o3=("O3", -1, 3), b2=("B2", -1, 2))
    for tab in (buf, obj):
        for a in tab:
            for b in tab:
                for d in ("in", "out"):
                    for tot in (15, 16):
                        ps, n = [], 0
                        first = r.randint(1, 14)
                        while n < tot:
                            t, x, w = tab[a] if n < first else tab[b]
                            if n + w > tot: t, x, w = ("interface", -1, 1) if tab is obj else t and (t, x, w)
                            ps.append(param(d, t, f"p{len(ps)}", x)); n += w
                        # a bundle is one more buffer, however many are in it
                        if tab is buf and r.random() < .5: ps[0:1] = [param(d, "uint8", "s0"), param(d, "Sm", "s1"), param(d, "uint32", "s2")]
                        elif r.random() < .5: ps.append(param("out" if d == "in" else "in", r.choice(["uint8", "buffer", "interface"]), "other"))
                        r.shuffle(ps)
                        yield case(lay(pre + [iface("I", [method("m", ps)])], r.choice([0, 1, 2]), r), "near:limit")
    for t in ("interface", "IQ"):
        for d in ("in", "out"):
            for n in (1, 14, 15, 16, 17, 255, 256, 257, 271, 272, 65535):
                yield case(lay(pre + [iface("I", [method("m", [param(d, t, "p", n)])])], r.choice([0, 2]), r), "near:limit")

def params(r):
    """two parameters of one name"""
    for d1 in ("in", "out"):
        for d2 in ("in", "out"):
            for t1, a1 in (("uint8", -1), ("buffer", -1), ("uint32", 0), ("interface", -1)):
                for t2, a2 in (("uint8", -1), ("uint16", 0), ("interface", -1)):
                    for n2 in ("same", "Same"):
                        ps = [param("in", "uint64", "x"), param(d1, t1, "same", a1), param("out", "uint8", "y")]; ps.insert(r.randint(0, 3), param(d2, t2, n2, a2))
                        yield case(lay([iface("I", [method("n", [param("in", "uint8", "same")]), method("m", ps)])], r.choice([0, 2]), r), "near:parameter")

def layouts(r, deep=2):
    """structs of up to `deep` + 1 members, lawful or not"""
    pre = [struct("T8", [field("uint64", "a")]), struct("T4", [field("uint32", "a", 2)]), struct("T2", [field("uint16", "a", 3)]), struct("U4", [field("T2", "x", 2), field("T4", "y"), field("uint32", "z")]), struct("TO", [field("interface", "o")])]
    al = [("uint8", 1), ("uint8", 8), ("uint16", 1), ("uint32", 1), ("uint32", 2), ("uint64", 1), ("T8", 1), ("T8", 2), ("T4", 1), ("T2", 1), ("T2", 4), ("U4", 1), ("TO", 1), ("interface", 1)]
    def seqs(n): return [[]] if n == 0 else [s + [x] for s in seqs(n - 1) for x in al]
    ss = [s for n in range(1, deep + 1) for s in seqs(n)]; s3 = seqs(deep + 1)
    ss += s3 if THOROUGH else r.sample(s3, 500)
    for s in ss:
        d = struct("Near", [field(t, f"f{i}", c, arr=c > 1) for i, (t, c) in enumerate(s)])
        x = r.random()
        # the same members may stand a level down
        ds = pre + ([d] if x < .7 else [d, struct("Outer", [field("Near", "n", r.choice([1, 2])), field(*(lambda t, c: (t, "m", c))(*r.choice(al)))])])
        yield case(lay(ds, r.randrange(3), r), "near:layout")

def table(r): return [x for f in (members, tops, refs, cycles, literals, limits, params) for x in f(r)]
