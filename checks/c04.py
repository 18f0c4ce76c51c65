#!/usr/bin/env python3
"""C04: what a skeleton must not serve."""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import random
from vlib.common import *
from vlib import corpora, execx, rawcheck
from vlib.idl import *

def fn(c):
    exe = build_idlc()
    c.stage("idlc built")
    r = random.Random(f"c04-{SEED}")
    K = 10 if THOROUGH else 1
    sigs = corpora.signatures()
    progs = corpora.sig_programs(r.sample(sigs, 3000 if THOROUGH else 80), 40)
    for p in progs:      # some methods optional
        for d in p["files"][1]["decls"]:
            for m in d["m"]:
                if r.random() < .2: m["opt"] = True; m["attrs"] = ["optional"]
    progs += [corpora.shaped_program(r, ["bundle-in", "bundle-out", "bundle-both", "mixed", "objects", "full"], 10) for _ in range(4 * K)]
    progs += corpora.random_programs(r, 5 * K, ifaces=(1, 4), methods=(1, 4))
    progs += corpora.positions(r, K)
    ccs = [r.choice(["clang", "clang", "gcc"]) for _ in progs]
    us = pmap(lambda z: execx.build(exe, z[0], cc=z[1]), list(zip(progs, ccs)))
    c.stage(f"{len(us)} programs built")
    execx.report_builds(c, us)
    rawcheck.go(c, "C04", us, r, 150000 if THOROUGH else 14000)
main("C04", fn)
