#!/usr/bin/env python3
"""C03: wire bytes"""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import random
from vlib.common import *
from vlib import corpora, callcheck, execx, gen, idl, mutate, accept

def fn(c):
    exe = build_idlc()
    c.stage("idlc built")
    r = random.Random(f"c03-{SEED}")
    callcheck.design(c, 3 if THOROUGH else 2)
    K = 12 if THOROUGH else 1
    sigs = corpora.signatures()
    data = [s for s in sigs if not any(q["t"] in ("IQ", "IR", "interface") for q in s)]
    progs = corpora.sig_programs(sigs if THOROUGH else r.sample(data, 455), 65)
    progs += [corpora.shaped_program(r, [s], 18) for s in ["bundle-in", "bundle-out", "bundle-both", "ties", "mixed"] for _ in range(3 * K)]
    progs += [corpora.shaped_program(r, ["bundle-huge"], 5) for _ in range(1 + K // 2)]
    progs += corpora.random_programs(r, 4 * K, objstruct=True)
    us, plans, out = callcheck.go(c, "C03", exe, progs, r, fail=.08)
main("C03", fn)
