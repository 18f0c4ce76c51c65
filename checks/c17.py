#!/usr/bin/env python3
"""C17: constants."""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import random
from fractions import Fraction
from vlib.common import *
from vlib.idl import *
from vlib.front import build_lib
from vlib import tables, accept, corpora

def spellings(r, m, neg, n=2):
    """ways to write the integer"""
    s = "-" if neg else ""
    z = r.choice(["0", "00", "0000000"])
    dec, lo, up = str(m), "%x" % m, "%X" % m
    mix = "".join(r.choice([ch.lower(), ch.upper()]) for ch in lo)
    al = [dec, "0x" + lo, "0x" + up, "0x" + mix, z + dec, "0x" + z + up]
    return [s + x for x in r.sample(al, n)]

def bits(t): return PSIZE[t] * 8
def rng(t): return (0, 2 ** bits(t) - 1) if t[0] == "u" else (-2 ** (bits(t) - 1), 2 ** (bits(t) - 1) - 1)

def int_values(t):
    lo, hi = rng(t)
    return [lo, lo + 1, lo + 2, hi, hi - 1, hi - 2, 0, 1, 2, 7, 8, 10, 100, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, 2**31 + 1,
            2**32 - 1, 2**32, 2**53, 2**53 + 1, 2**63 - 1, 2**63, 2**64 - 1, -1, -2, -9, -127, -128, -129, -255, -32768, -32769, -2**31, -2**31 - 1, -2**32, -2**63 + 1]

def good_ints(r, t, extra):
    lo, hi = rng(t)
    vs = sorted({v for v in int_values(t) if lo <= v <= hi}) + [r.randint(lo, hi) for _ in range(extra)] + [r.randint(0, hi) >> r.randint(0, bits(t) - 1) for _ in range(extra)]
    out = [x for v in vs for x in spellings(r, abs(v), v < 0)]
    if t[0] == "i": out += ["-0", "-0x0", "-00"]
    return out

def bad_ints(r, t):
    lo, hi = rng(t)
    vs = [hi + 1, hi + 2, 2 * hi + 2, 2 * hi + 1, hi * 16 + 15, 10 ** 19 + 5, 2 ** 64, 2 ** 65 + 1, 2 ** 128, lo - 1, lo - 2, -hi - 2, -2 ** 64, -2 ** 63 - 1]
    out = [x for v in set(vs) if not lo <= v <= hi for x in spellings(r, abs(v), v < 0, 2)]
    out += ["1.5", "0.0", "3.0", "-1.0"]
    if t[0] == "u": out += ["-0", "-1", "-0x0", "-0x1", "-00", f"-{hi}"]
    return out

LIM = {"float32": Fraction(2) ** 128 - Fraction(2) ** 103, "float64": Fraction(2) ** 1024 - Fraction(2) ** 970}
def flt_text(fr, digs=None):
    """exact decimal text of a dyadic fraction, or cut after digs digits"""
    s = "-" if fr < 0 else ""; fr = abs(fr); i = int(fr); f = fr - i; d = ""
    while f and (digs is None or len(d) < digs):
        f *= 10; d += str(int(f)); f -= int(f)
    return f"{s}{i}" + (f".{d}" if d else "")

def good_flts(r, t, extra):
    p = 24 if t == "float32" else 53
    out = ["0", "-0", "0.0", "-0.0", "00", "1", "-1", "007", "0x10", "-0xFF", "0xfFfF", "1.0", "0.1", "-0.1", "0.5", "1.50", "3.25", "0.3333333333333333333333", "123456789", "16777217", "-16777219.5",
           "9007199254740993", "9007199254740992.5", "4503599627370496.5", "0.000001", "0.0000000000000001", "100000000000000000000", "3.14159265358979323846264338327950288",
           "340282346638528859811704183484516925440" if t == "float32" else "1" + "0" * 60, "0x" + "F" * 16, "-0x8000000000000001", "0.00000000000000000000000000000000000001", "00012.50000"]
    if t == "float64": out += [str(2 ** 1023 + 2 ** 971), str(int(LIM["float64"] - Fraction(2) ** 969))] if THOROUGH else []
    else: out += [str(int(LIM[t]) - 1), "0x" + "%x" % (2 ** 127 + 1), "0." + "0" * 44 + "14", "0." + "0" * 38 + "5"]
    for _ in range(extra):
        k = r.random()
        if k < .35: out.append(("-" if r.random() < .3 else "") + str(r.randint(0, 10 ** r.randint(0, 20))) + "." + str(r.randint(0, 10 ** r.randint(1, 18))))
        elif k < .6:     # just at, or next to, a half-way point
            m = r.randint(2 ** (p - 1), 2 ** p - 1); e = r.randint(-p - 6, 6)
            x = (2 * m + 1) * Fraction(2) ** (e - 1)
            tx = flt_text(x)
            if "." in tx: tx += r.choice(["", "1", "0001"])
            out.append(tx)
        elif k < .75: out.append(flt_text(Fraction(r.randint(1, 2 ** p)) * Fraction(2) ** r.randint(-30, 10), r.randint(1, 25)))
        elif k < .9: out += spellings(r, r.getrandbits(r.randint(1, 70)), r.random() < .3, 1)
        else: out.append(str(r.randint(1, 9)) + "".join(str(r.randint(0, 9)) for _ in range(r.randint(0, 36))))
    return out

def bad_flts(r, t):
    l = int(LIM[t]); big = l * 10
    return [str(l), "-" + str(l), str(l + 1), str(l) + ".0", "0x%x" % l, "-0x%X" % l, str(big), "0" + str(l), str(l * 2 ** 10), str(10 ** len(str(l)))]

def edge_flts(t):
    l = int(LIM[t]); return [str(l - 1), "-" + str(l - 1) + ".9", "0x%x" % (l - 1), "00" + str(l - 1)]

def const_programs(r, lits, per):
    """constants spread over files, interfaces and chains, declared between other members"""
    out = []
    for k in range(0, len(lits), per):
        part = lits[k:k + per]; nm = [0]
        def K(t, s):
            nm[0] += 1; pre = r.choice(["K", "k_", "MAX_", "Lim", "v"])
            return const(f"{pre}{nm[0]}{r.choice(['', '_a', 'X'])}", t, s)
        cs = [K(t, s) for t, s in part]
        n = len(cs); cut = sorted(r.randint(0, n) for _ in range(5)); cut = [0] + cut + [n]
        g = [cs[cut[i]:cut[i + 1]] for i in range(6)]
        def mix(cs, tag, k):
            ms = list(cs)
            for j in range(k): ms.insert(r.randint(0, len(ms)), r.choice([method(f"m{tag}{j}", []), error(f"E{tag}{j}"), method(f"m{tag}{j}", [param("in", "uint32", "x")])]))
            return ms
        top = [iface("IRoot", mix(g[1], "a", 2)), struct("SS", [field("uint32", "x")])] + g[0]
        r.shuffle(top)
        low = [iface("IMid", mix(g[3], "b", 2), "IRoot"), iface("ILeaf", mix(g[4], "c", 1), "IMid"), iface("IOther", mix(g[5], "d", 1), "IRoot")] + g[2]
        r.shuffle(low)
        out.append(program([file(r.choice(["top", "Base_defs"]), top), file(r.choice(["low", "Der"]), low, [1])], 2))
    return out

def fn(c):
    exe = build_idlc(); c.stage("idlc built")
    r = random.Random(f"c17-{SEED}")
    K = 15 if THOROUGH else 1
    lits = []
    for t in PRIMS:
        ls = good_flts(r, t, 45 * K) if t.startswith("f") else good_ints(r, t, 12 * K)
        lits += [(t, s) for s in ls]
    r.shuffle(lits)
    c.cov["literals_in_range"] = len(lits)
    progs = const_programs(r, lits, 90)
    flags = [("--allow-undefined-behavior",) if r.random() < .3 else () for _ in progs]
    ccs = [[("c", r.choice(["gcc", "clang"])), ("cpp", r.choice(["g++", "clang++"]))] for _ in progs]
    if THOROUGH: ccs = [tables.CC] * len(progs)
    nat = pmap(lambda z: tables.read_native(exe, z[0], ("const",), flags=z[1], ccs=z[2]), list(zip(progs, flags, ccs)))
    c.stage(f"{len(lits)} constants in {len(progs)} programs, read back from C, C++ and Rust")
    jv = tables.read_java(exe, progs, ("const",))
    c.stage("read back from Java")
    rp = corpora.random_programs(r, 6 * K, ifaces=(2, 5), chain=6)
    rn = pmap(lambda p: tables.read_native(exe, p, ("const",)), rp)
    tables.judge_tables(c, "C17", progs + progs + rp, nat + jv + rn)
    # ranges: what is refused, what must not be
    cases = []
    def case(t, s, ub, scope, hint):
        k = const("KX", t, s); q = const("KQ", "uint8", "1")
        fs = {"file": [file("t", [q, k])], "iface": [file("t", [iface("IA", [error("E"), k, method("m", [])]), q])], "inc": [file("a", [k]), file("t", [q], [1])],
              "base": [file("a", [iface("IA", [k])]), file("t", [iface("IB", [q], "IA")], [1])]}[scope]
        cases.append(dict(kind="prog", p=program(fs, len(fs)), ub=ub, hint=hint))
    sc = lambda: r.choice(["file", "iface", "inc", "base"])
    for t in PRIMS:
        fl = t.startswith("f")
        bad = bad_flts(r, t) if fl else bad_ints(r, t)
        ok = edge_flts(t) if fl else [x for v in (*rng(t), 0) for x in spellings(r, abs(v), v < 0, 3)]
        for s in (bad if THOROUGH else r.sample(bad, min(14, len(bad)))):
            case(t, s, False, sc(), "out of range")
        for s in (bad if THOROUGH else r.sample(bad, min(4, len(bad)))):
            if not (t[0] in "ui" and "." in s): case(t, s, True, sc(), "out of range, allowed")
        for s in (ok if THOROUGH else r.sample(ok, min(4, len(ok)))): case(t, s, False, sc(), "at the boundary")
    accept.judge_cases(c, cases, exe, build_lib(), True, True)
main("C17", fn)
