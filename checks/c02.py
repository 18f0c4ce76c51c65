#!/usr/bin/env python3
"""C02: envelope: op, counts, sections"""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import random
from vlib.common import *
from vlib.idl import *
from vlib.front import build_lib
from vlib import corpora, callcheck, execx, gen, idl, mutate, accept

def limits_cases(r, n):
    """methods whose argument counts lie around 15, in every class and by every way to add an argument"""
    out = []
    for k in range(n):
        ps, nm = [], iter(f"p{i}" for i in range(400))
        d = ["in", "out"][k % 2]; o = "out" if d == "in" else "in"
        P = lambda t, a=-1, dd=None: ps.append(param(dd or d, t, next(nm), a))
        tgt = r.choice([13, 14, 15, 16, 16, 17, 18, 31, 32, 33, 48, 255, 256, 257, 271, 272])
        how = r.choice(["buffers", "bigs", "bundle+buffers", "objects", "objarray", "structobjs", "bigobjs", "mixbuf", "arrays+small", "small-only"])
        small = r.randint(2, 6)
        if how == "buffers":
            for _ in range(tgt): P(*r.choice([("buffer",), ("uint8", 0), ("uint64", 0), ("S17", 0)]))
        elif how == "bigs":
            for _ in range(tgt): P(r.choice(["S17", "S24"]))
        elif how == "bundle+buffers":
            for _ in range(tgt - 1): P(*r.choice([("buffer",), ("S24",), ("uint16", 0)]))
            for _ in range(small): P(r.choice(["uint8", "S4", "float64"]))
        elif how == "objects":
            for _ in range(tgt): P(r.choice(["IQ", "IR", "interface"]))
        elif how == "objarray": P(r.choice(["IQ", "interface"]), tgt)
        elif how == "structobjs":
            for _ in range(tgt): P("SO")
        elif how == "bigobjs":
            for _ in range(tgt // 3): P("SN")
            for _ in range(tgt % 3): P(r.choice(["IQ", "SX", "SO"]))
        elif how == "mixbuf":
            for _ in range(tgt): P(*r.choice([("buffer",), ("S17",), ("SX",)]))
        elif how == "arrays+small":
            for _ in range(tgt - 1): P("buffer")
            P("uint32")
        else:
            for _ in range(tgt): P(r.choice(["uint8", "uint16", "S3"]))
        for _ in range(r.choice([0, 0, 1, 3, 15])): P(*r.choice([("buffer",), ("S17",), ("uint8", 0)]), **{"dd": o}) if how != "x" else None
        if how not in ("objarray",): r.shuffle(ps)
        m = method("m", ps)
        inh = r.random()
        if inh < .3: fs = [file("al", corpora.ALPHA), file("t", [iface("IBase", [m]), iface("IMain", [method("z", [])], "IBase")], [1])]; main = 2
        elif inh < .5: fs = [file("al", corpora.ALPHA), file("t", [iface("IBase", [m])], [1]), file("u", [iface("IMain", [method("z", [])], "IBase")], [2])]; main = 3
        else: fs = [file("al", corpora.ALPHA), file("t", [iface("IMain", [method("a", []), m])], [1])]; main = 2
        out.append(dict(kind="prog", p=program(fs, main), ub=r.random() < .1, hint=how))
    return out

def fn(c):
    exe = build_idlc()
    c.stage("idlc built")
    r = random.Random(f"c02-{SEED}")
    callcheck.design(c, 3 if THOROUGH else 2)
    K = 12 if THOROUGH else 1
    sigs = corpora.signatures()
    objs = [s for s in sigs if any(q["t"] in ("IQ", "IR", "interface", "SO", "SX", "SN") for q in s)]
    progs = corpora.sig_programs(sigs if THOROUGH else r.sample(objs, 150) + r.sample(sigs, 60), 70)
    progs += [corpora.shaped_program(r, [s], 14) for s in ["full", "full", "full", "objects", "mixed", "bundle-both"] for _ in range(2 * K)]
    progs += corpora.random_programs(r, 4 * K, ifaces=(1, 4), chain=6)
    progs += corpora.positions(r, K)
    us, plans, out = callcheck.go(c, "C02", exe, progs, r)
    # methods the envelope cannot express are refused, those that just fit are not
    accept.judge_cases(c, limits_cases(r, 90 * K), exe, build_lib(), True, False)
main("C02", fn)
