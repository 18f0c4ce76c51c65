#!/usr/bin/env python3
"""C07: op-codes."""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import random
from vlib.common import *
from vlib.idl import *
from vlib.front import build_lib
from vlib import javacall, tables, corpora, callcheck, hier, accept, rawcheck, execx

def many(r, levels, files=True, opt=None):
    """a chain whose levels declare the given numbers of methods; opt: which op-codes are of optional ones"""
    fs, prev, op = [], "", 0
    opt = opt or (lambda op: r.random() < .3)
    for k, n in enumerate(levels):
        ms = [method(f"m{k}_{i}", [], opt=opt(op + i)) for i in range(n)]; op += n
        for _ in range(r.randint(0, 3)): ms.insert(r.randint(0, len(ms)), r.choice([error(f"E{k}_{len(ms)}"), const(f"K{k}_{len(ms)}", "uint8", "3")]))
        d = iface(f"IL{k}", ms, prev); prev = f"IL{k}"
        if files and fs and r.random() < .5: fs.append(file(f"f{k}", [d], [len(fs)]))
        elif fs: fs[-1]["decls"].append(d)
        else: fs.append(file(f"f{k}", [d]))
    return program(fs, len(fs))

def fn(c):
    exe = build_idlc(); c.stage("idlc built")
    r = random.Random(f"c07-{SEED}")
    K = 10 if THOROUGH else 1
    progs = [hier.hierarchy(r, errs=(0, 3), meths=(0, 6), consts=(0, 2), depth=r.choice([1, 2, 4, 6, 9]), width=r.choice([1, 2, 3])) for _ in range(12 * K)]
    progs += [hier.hierarchy(r, errs=(0, 2), meths=(60, 200), consts=(0, 1), depth=3, width=2) for _ in range(2 * K)]
    progs += corpora.random_programs(r, 4 * K, ifaces=(2, 5), chain=6, maxfiles=4)
    ccs = [tables.CC if THOROUGH else [("c", r.choice(["gcc", "clang"])), ("cpp", r.choice(["g++", "clang++"]))] for _ in progs]
    # an op-code optional in the one is not in the other
    half = [r.random() < .5 for _ in range(16384)]
    big = [many(r, l, opt=lambda op, k=k: half[op] ^ (k == 1)) for k, l in enumerate ([[16384], [1, 16000, 383], [255, 2, 256, 1]])]
    nat = pmap(lambda z: tables.read_native(exe, z[0], ("op",), ccs=z[1], rust=False), list(zip(progs + big, ccs + [[("c", "gcc"), ("cpp", "clang++")]] * 3)))
    c.stage(f"{len(progs) + len(big)} programs read back from C, C++ and --dump mir")
    jp = [p for p in progs + big[2:] if not hier.java_unsupported(p)]
    jv = tables.read_java(exe, jp, ("op",)); c.stage("read back from Java")
    tables.judge_tables(c, "C07", progs + big + jp, nat + jv)
    # the bound
    cases = []
    for k, l in enumerate([[16385], [16384], [8192, 8193], [1, 16384], [0, 16384, 0], [5000, 1, 5000, 6384]] + ([[8192, 8192], [16384, 1], [5000, 0, 5000, 6384]] if THOROUGH else [])):
        cases.append(dict(kind="prog", p=many(r, l), hint="method count", timeout=240, whos=None if THOROUGH else [["c", "cpp-skel"], ["rust"], ["java"], ["lib"], ["c-skel"], ["cpp"]][k]))
    accept.judge_cases(c, cases, exe, build_lib(), True, True)
    # stubs and skeletons executed: the op-code on the wire, the method that runs
    ex = [hier.hierarchy(r, errs=(0, 2), meths=(0, 5), consts=(0, 1), depth=r.choice([1, 2, 4, 7]), width=2, params=True) for _ in range(6 * K)]
    ex += [many(r, l) for l in ([255, 2, 40], [130, 130])]
    us, plans, out = callcheck.go(c, "C07", exe, ex, r, fail=.1, small=True)
    rawcheck.go(c, "C07", us, r, 60000 if THOROUGH else 5000, keep=lambda q: all(x == 0 for x in q["k"]) and q["hi"] == 0)
    je = [p for p in ex if not hier.java_unsupported(p)]
    javacall.go(c, "C07", exe, je, r, per=1, labels={"op", "method", "entered", "order", "crash"})
main("C07", fn)
