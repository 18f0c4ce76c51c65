#!/usr/bin/env python3
"""C05: reference counts"""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import random
from vlib.common import *
from vlib import corpora, callcheck, execx, gen, idl, mutate, accept

def fn(c):
    exe = build_idlc()
    c.stage("idlc built")
    r = random.Random(f"c05-{SEED}")
    callcheck.design(c, 3 if THOROUGH else 2)
    K = 12 if THOROUGH else 1
    sigs = corpora.signatures()
    objs = [s for s in sigs if any(q["t"] in ("IQ", "IR", "interface", "SO", "SX", "SN") for q in s)]
    progs = corpora.sig_programs(objs if THOROUGH else r.sample(objs, 400), 50)
    progs += [corpora.shaped_program(r, ["objects", "objects", "mixed"], 16) for _ in range(10 * K)]
    progs += corpora.random_programs(r, 4 * K, objstruct=True)
    progs += corpora.positions(r, K)
    flags = [("--no-typed-objects",) if r.random() < .12 else () for _ in progs]
    us, plans, out = callcheck.go(c, "C05", exe, progs, r, flags, fail=.35, opts=dict(objpat=lambda r: r.choice([0, 0, 1, 1, 1, 2, 3, 4, 5, 6])), small=True)
main("C05", fn)
