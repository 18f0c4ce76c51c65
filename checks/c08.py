#!/usr/bin/env python3
"""C08: error values."""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import random
from vlib.common import *
from vlib import javacall, tables, corpora, callcheck, hier

def fn(c):
    exe = build_idlc(); c.stage("idlc built")
    r = random.Random(f"c08-{SEED}")
    K = 10 if THOROUGH else 1
    progs = [hier.hierarchy(r, errs=(0, 6), meths=(0, 2), consts=(0, 2), depth=r.choice([1, 2, 4, 6, 9]), width=r.choice([1, 2, 3])) for _ in range(14 * K)]
    progs += [hier.hierarchy(r, errs=(40, 160), meths=(0, 2), consts=(0, 1), depth=3, width=2) for _ in range(2 * K)]
    progs += corpora.random_programs(r, 4 * K, ifaces=(2, 5), chain=6, maxfiles=4)
    ccs = [tables.CC if THOROUGH else [("c", r.choice(["gcc", "clang"])), ("cpp", r.choice(["g++", "clang++"]))] for _ in progs]
    nat = pmap(lambda z: tables.read_native(exe, z[0], ("error",), ccs=z[1]), list(zip(progs, ccs)))
    c.stage(f"{len(progs)} programs read back from C, C++, Rust and --dump mir")
    jp = [p for p in progs if not hier.java_unsupported(p)]
    jv = tables.read_java(exe, jp, ("error",)); c.stage("read back from Java")
    tables.judge_tables(c, "C08", progs + jp, nat + jv)
    # implementations returning the named errors
    ex = [hier.hierarchy(r, errs=(0, 4), meths=(1, 3), consts=(0, 1), depth=r.choice([1, 2, 3, 4]), width=2, params=True) for _ in range(5 * K)]
    us, plans, out = callcheck.go(c, "C08", exe, ex, r, fail=.7, statuses=hier.statuses, per=2 * (2 if THOROUGH else 1))
    je = [p for p in ex if not hier.java_unsupported(p)]
    javacall.go(c, "C08", exe, je, r, per=1, fail=.7, statuses=hier.statuses, labels={"status", "entered", "order", "crash"})
main("C08", fn)
