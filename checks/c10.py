#!/usr/bin/env python3
"""C10: everything the specification calls lawful is accepted."""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import random, copy
from vlib.common import *
from vlib import idl, front, gen, tokens, near
from vlib.front import *
from vlib.idl import *
from vlib.accept import *

def rearrange(p, r):
    """the same declarations in another order and in other files of the (connected) include set"""
    q = copy.deepcopy(p)
    ds = [d for f in q["files"] for d in f["decls"]]
    r.shuffle(ds)
    n = len(q["files"])
    if r.random() < .4: n = r.randint(1, 4)
    files = [file(f"R{i}x", [], sorted(r.sample(range(1, i + 1), r.randint(1, min(i, 2)))) if i else []) for i in range(n)]
    # the last file reaches every other one
    inc = set()
    for f in files: inc |= set(f["incs"])
    files[-1]["incs"] = sorted(set(files[-1]["incs"]) | (set(range(1, n)) - inc))
    for d in ds: r.choice(files)["decls"].append(d)
    return program(files, n)

def share(p):
    """the same declarations under names that scopes which the restrictions do not relate have in common"""
    q = copy.deepcopy(p); m = {}; n = 0
    for f in q["files"]:
        for d in f["decls"]:
            if d["k"] == "iface":
                k = {"method": 0, "ce": 0}
                for x in d["m"]:
                    w = "method" if x["k"] == "method" else "ce"
                    x["n"] = f"nm{n}_{k[w]}"; k[w] += 1
                    for i, y in enumerate(x.get("p", [])): y["n"] = f"nm{n}_{i}"
                n += 1
            elif d["k"] == "struct":
                for i, y in enumerate(d["f"] if "f" in d else d["fields"]): y["n"] = f"nm0_{i}"
    return q

BND = dict(uint8=["0", "255", "0xFF", "0x0"], int8=["-128", "127", "-0x80", "0x7f", "-0"], uint16=["65535", "0xffff"], int16=["-32768", "32767", "-0x8000", "0x7FFF"],
           uint32=["4294967295", "0xFFFFFFFF", "00"], int32=["-2147483648", "2147483647", "-0x80000000", "0x7fffffff"],
           uint64=["18446744073709551615", "0xFFFFFFFFFFFFFFFF", "0x00000000000000000001"], int64=["-9223372036854775808", "9223372036854775807", "-0x8000000000000000", "0x7fffffffffffffff"],
           float32=["0", "-0.0", "340282346638528859811704183484516925440", "3.4028234", "0.000001", "-17"], float64=["0.1", "1.7976931348623157", "123456789012345678901234567890", "-0.25"])

def edge():
    def P(hint, ds, **k): return dict(kind="prog", hint=hint, p=program([file("edge", ds)]), **k)
    yield P("empty", [])
    yield P("const-bounds", [const(f"K{t}{i}", t, v) for t in BND for i, v in enumerate(BND[t])])
    yield P("const-bounds", [iface("I", [const(f"K{t}{i}", t, v) for t in BND for i, v in enumerate(BND[t])])])
    for t, vs in OUTR.items():
        for v in vs: yield P("ub-const", [const("K", t, v)], ub=True)
    for n in (1, 15):
        for kind in ("buf", "prim", "big", "obj"):
            for d in ("in", "out"):
                if kind == "buf": ps = [param(d, "buffer", f"p{i}") for i in range(n)]
                elif kind == "prim": ps = [param(d, "uint8", f"p{i}") for i in range(40)]
                elif kind == "big": ps = [param(d, "B", f"p{i}") for i in range(n)]
                else: ps = [param(d, "interface", f"p{i}") for i in range(n)]
                yield P("fifteen", [struct("B", [field("uint64", "z", 3)]), iface("I", [method("m", ps)])])
    for d in ("in", "out"):
        yield P("fifteen", [iface("I", [method("m", [param(d, "interface", "o", 15), param("in", "buffer", "b")])])])
        yield P("fifteen", [struct("O", [field("interface", "o", 15), field("uint64", "z")]), iface("I", [method("m", [param(d, "O", "o")])])])
    both = [param(d, "uint8", f"{d}_{i}", 0) for d in ("in", "out") for i in range(14)]
    both += [param(d, "uint32", f"{d}{j}") for d in ("in", "out") for j in range(9)]
    both += [param(d, "interface", f"{d}_o", 15) for d in ("in", "out")]
    yield P("sixty", [iface("I", [method("m", both)])])
    yield P("sizes", [struct("A", [field("uint8", "a", 65535), field("uint8", "b", 1, arr=True)]), iface("I", [method("m", [param("in", "A", "x"), param("out", "A", "y")])])])
    yield P("deep-inherit", [iface(f"I{i}", [method(f"m{i}", []), error(f"E{i}")], f"I{i-1}" if i else "") for i in range(60)][::-1])
    yield P("deep-struct", [struct(f"S{i}", [field(f"S{i-1}" if i else "uint8", "x")]) for i in range(60)][::-1])
    yield dict(kind="prog", hint="deep-include", p=program([file(f"d{i}", [struct(f"S{i}", [field(f"S{i+1}" if i < 49 else "uint8", "x")])], [i] if i else []) for i in range(50)], 50))
    yield dict(kind="prog", hint="diamonds", p=program([file(f"d{i}", [const(f"C{i}", "uint8", "1")], [j for j in (i, i - 1) if j > 0]) for i in range(30)], 30), timeout=90)
    # many of everything, and long names of everything
    yield P("many", [struct(f"S{i}", [field("uint32", "a")]) for i in range(400)])
    yield P("many", [struct(f"S{i}", [field(f"S{r}" if r else "uint64", f"f{j}") for j in range(3)]) for i in range(300) for r in [(i * 7919) % i if i else 0]])
    yield P("many", [struct("S", [field("uint8", f"f{i}") for i in range(600)]), iface("I", [method("m", [param("in", "S", "a"), param("out", "S", "b")])])])
    yield P("many", [iface(f"I{i}", [method(f"m{i}", [param("in", f"I{(i * 31) % 300}", "a")]), error(f"e{i}")], f"I{i // 3}" if i else "") for i in range(300)])
    yield P("many", [const(f"K{i}", "uint32", str(i)) for i in range(1500)])
    yield P("many", [iface("I", [x for i in range(400) for x in (const(f"K{i}", "int16", str(-i)), error(f"E{i}"))])])
    yield P("many", [iface("I", [method(f"m{i}", [param("in", "uint8", "a"), param("out", "uint16", "b")]) for i in range(600)])])
    yield P("many", [iface("I", [method("m", [param(d, "uint8", f"{d}_{i}") for i in range(300) for d in ("in", "out")])])])
    yield dict(kind="prog", hint="many", p=program([file(f"w{i}", [struct(f"S{i}", [field("uint8", "x")])]) for i in range(200)] + [file("w", [iface("I", [method("m", [param("in", "S199", "a")])])], list(range(1, 201)))], 201), timeout=90)
    for n in (64, 256, 1025):
        L = lambda x: x + "x" * (n - 1)
        yield P("long-names", [struct(L("s"), [field("uint32", L("f")), field("uint32", L("g"))]), const(L("k"), "uint8", "1"), iface("Ii", [const(L("k"), "uint8", "1"), error(L("e")), method(L("m"), [param("in", L("s"), L("p")), param("out", "uint32", L("q"))])])])
        if n < 200: yield dict(kind="prog", hint="long-names", p=program([file(L("w"), [struct("S", [field("uint8", "x")])]), file(L("v"), [iface(L("i"), [method("m", [param("in", "S", "a"), param("in", L("i"), "b")])])], [1])], 2))
    m = [method(f"m{i}", []) for i in range(MAXM)]
    yield dict(kind="prog", hint="op-limit", p=program([file("lim", [iface("B", m[:9000]), iface("D", m[9000:], "B")])]), whos=["c", "rust"], timeout=120)
    # names shared across scopes that the restrictions do not relate
    yield P("scopes", [struct("S", [field("uint8", "a")]), struct("T", [field("uint8", "a")]), const("c", "uint8", "1"),
                       iface("I", [method("a", [param("in", "uint8", "a"), param("in", "S", "S1")]), method("b", [param("in", "uint8", "a")]), error("a1"), const("c1", "uint8", "2")]),
                       iface("J", [method("a", []), error("a1"), const("c1", "uint8", "3")])])

OUTR = dict(uint8=["256", "-1", "0x100"], int8=["128", "-129"], uint16=["65536"], int16=["0x8000"], uint32=["4294967296", "-5"], int32=["2147483648", "-2147483649"])
MAXM = 16384

FLAGS = [[], [], [], ["--no-typed-objects"], ["--allow-undefined-behavior"], ["--marking", "@mark"], ["--marking", "@mark", "--no-typed-objects"]]

def fn(c):
    n = 3000 if THOROUGH else 330
    exe = build_idlc(); lib = build_lib()
    c.stage("built")
    rng = random.Random(f"c10-{SEED}")
    mark = os.path.join(scratch("mark"), "m.txt")
    with open(mark, "w") as f: f.write("Copyright (c) Someone\n\n  second line\n")
    cases = []
    for k in range(n):
        g = gen.Gen(rng, methods=(0, 6), params=(0, 9), structs=(0, 6), ifaces=(0, 4), maxfiles=4, shuffle=rng.random() < .5,
                    objstruct=rng.random() < .6, docs=rng.random() < .3, fldarr=rng.choice([5, 20]))
        p = g.prog()
        fl = [mark if x == "@mark" else x for x in rng.choice(FLAGS)]
        cases.append(dict(kind="prog", p=p, hint="plain", flags=fl))
        if k % 2 == 0: cases.append(dict(kind="prog", p=rearrange(p, rng), hint="rearranged", flags=fl))
        if k % 3 == 1: cases.append(dict(kind="prog", p=share(p), hint="shared", flags=fl))
        if k % 4 == 1:
            fs = {f: tokens.noise(tokens.tokens(t), rng) for f, t in idl.render(p).items()}
            cases.append(dict(kind="prog", p=p, files=fs, hint="comments", flags=fl))
    cases += edge()
    tab = near.table(rng) + list(near.layouts(rng))
    if not THOROUGH:
        for x in tab: x["whos"] = rng.sample(LANGS + ["lib"], 2)
    if not THOROUGH:
        # every way of running the compiler on a third, a random three on the others
        for k, x in enumerate(cases):
            if x["hint"] in ("plain", "rearranged", "comments", "shared") and k % 3:
                x["whos"] = rng.sample(LANGS + ["lib"], 4)
    c.stage(f"{len(cases)} cases")
    judge_cases(c, cases, exe, lib, sound=False, complete=True)
    if c.cov["file_sets_unlawful"] > 0.02 * len(cases) + 1: raise ToolError("generator emits unlawful programs")
    # the lawful ones of the tables that lie along the restrictions
    judge_cases(c, tab, exe, lib, sound=False, complete=True)
    c.assumptions += ["identifiers are drawn from names that are reserved in no target language and begin with no keyword or primitive type name of the IDL",
                      "a bounded array of `buffer` is not generated (the documentation does not settle it)"]

if __name__ == "__main__":
    main("C10", fn)
