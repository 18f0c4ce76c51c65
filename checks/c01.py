#!/usr/bin/env python3
"""C01: a call through any pairing of backends is value-exact"""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import random
from vlib.common import *
from vlib import corpora, callcheck, execx, gen, idl, mutate, accept

def fn(c):
    exe = build_idlc()
    c.stage("idlc built")
    r = random.Random(f"c01-{SEED}")
    callcheck.design(c, 3 if THOROUGH else 2)
    sigs = corpora.signatures()
    c.cov["signatures_of_the_model"] = len(sigs)
    pick = sigs if THOROUGH else r.sample(sigs, 720)
    progs = corpora.sig_programs(pick, 60)
    K = 12 if THOROUGH else 1
    progs += [corpora.shaped_program(r, ["bundle-in", "bundle-out", "bundle-both", "ties", "mixed", "objects", "full", "bundle-huge"]) for _ in range(10 * K)]
    progs += corpora.random_programs(r, 16 * K, ifaces=(1, 4), docs=True, consts=True)
    progs += corpora.positions(r, K) + corpora.nests(r, K)
    flags = [("--no-typed-objects",) if r.random() < .12 else () for _ in progs]
    us, plans, out = callcheck.go(c, "C01", exe, progs, r, flags)
main("C01", fn)
