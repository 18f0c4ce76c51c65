#!/usr/bin/env python3
"""C18: Java proxies and skeletons agree with each other and with the wire model"""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import random
from vlib.common import *
from vlib import corpora, callcheck, gen, javacall, hier, idl

def fn(c):
    exe = build_idlc()
    c.stage("idlc built")
    r = random.Random(f"c18-{SEED}")
    callcheck.design(c, 3 if THOROUGH else 2)
    sigs = corpora.signatures()
    c.cov["signatures_of_the_model"] = len(sigs)
    K = 12 if THOROUGH else 1
    progs = corpora.sig_programs(sigs if THOROUGH else r.sample(sigs, 1100), 50)
    shapes = ["bundle-in", "bundle-out", "bundle-both", "ties", "mixed", "objects", "full", "bundle-huge", "nested"]
    shapes = [s for s in shapes if s != "nested"]
    progs += [corpora.shaped_program(r, shapes) for _ in range(12 * K)]
    progs += corpora.random_programs(r, 60 * K, ifaces=(1, 4), docs=True, objstruct=False)
    progs += corpora.random_programs(r, 20 * K, ifaces=(1, 3), objstruct=False, fldarr=12, structs=(3, 7))
    progs += corpora.positions(r, 3 * K) + corpora.nests(r, K)
    progs = [javacall.java_only(p) for p in progs]
    flags = [("--no-typed-objects",) if r.random() < .12 else () for _ in progs]
    items = javacall.go(c, "C18", exe, progs, r, per=3 if THOROUGH else 2, flags=flags)
    c.cov["programs"] = len(progs); c.cov["calls"] = len(items)
    for _, x, ev in items[:3]: c.sample(dict(method=idl.r_member(x.m), proxy=x.I, server=x.S, values=[dict(b=v["b"].hex(), o=v["o"], n=v["n"]) for v in x.vals], sent=ev[1] if len(ev) > 1 else None))
    c.assumptions.append("harness/java/rt stands in for the Mink Java runtime API the generated classes import")
main("C18", fn)
