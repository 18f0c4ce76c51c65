#!/usr/bin/env python3
"""C06: struct layouts."""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import random
from vlib.common import *
from vlib.idl import *
from vlib.front import *
from vlib import tables, corpora, callcheck, accept, rawcheck, execx, gen, glue, near

NAMES = ["a", "b", "cc", "d_1", "eE", "fld", "g9", "hh", "kk", "mm"]
def sloppy(r, n, avail, objs):
    """a struct whose layout may or may not work out; avail: names of structs"""
    fs = []
    for k in range(r.choice([1, 1, 2, 2, 3, 3, 4, 5, 7])):
        x = r.random()
        t = r.choice(avail) if x < .3 and avail else r.choice(objs) if x < .42 and objs else r.choice(PRIMS if x < .8 else ["uint8", "uint16", "uint32", "int8", "int16"])
        c = 1
        if r.random() < .4: c = r.choice([1, 2, 2, 3, 4, 5, 7, 8, 16, 255, 256] if r.random() < .9 else [1000, 65535, 32768, 4096])
        fs.append(field(t, f"{NAMES[k]}", c, arr=(c != 1 or r.random() < .2)))
    return struct(n, fs)

def case_program(r):
    """a few structs, nested in one another, declared in any order, possibly in an included file"""
    objs = r.choice([[], [], ["interface"], ["IQ", "interface"]])
    ss, nm = [], [f"{p}{i}" for i, p in enumerate(r.sample(["Alpha", "B", "Cfg_", "tag", "Zz", "S", "hdr"], 5))]
    for n in nm[:r.randint(1, 4)]:
        ss.append(sloppy(r, n, [d["n"] for d in ss], objs))
    # keep what no array multiplies out of hand
    def size(t, d={}):
        m = {x["n"]: x for x in ss}
        return PSIZE[t] if t in PSIZE else sum(size(f["t"]) * f["c"] for f in m[t]["fields"]) if t in m else 16
    while any(size(d["n"]) > 1 << 28 for d in ss): ss.pop()
    q = [iface("IQ", [])]
    if not ss: ss = [struct("S", [field("uint8", "a")])]
    if r.random() < .4 and len(ss) > 1:
        k = r.randint(1, len(ss) - 1)
        a, b = q + ss[:k], ss[k:]
        r.shuffle(a); r.shuffle(b)
        return program([file("low", a), file("top", b, [1])], 2)
    ds = q + ss; r.shuffle(ds)
    return program([file("top", ds)])

def nearly(r, p):
    """a lawful file set made unlawful or kept lawful by moving one field"""
    M = glue.Model(p); n = r.choice(list(M.structs))
    fs = M.structs[n]["fields"]
    if len(fs) > 1:
        i, j = r.sample(range(len(fs)), 2); fs[i], fs[j] = fs[j], fs[i]
    return p

def transport(r, us_structs):
    """methods that carry the structs of a program in every way"""
    p = us_structs
    M = glue.Model(p); main = p["files"][p["main"] - 1]
    ms = []
    for k, n in enumerate(sorted(M.structs)):
        if M.size(n) > 20000: continue
        ob = M.nobj(n)
        if ob > 7: continue
        ms.append(method(f"a{k}", [param("in", n, "x"), param("out", n, "y")]))
        ms.append(method(f"b{k}", [param("out", n, "y"), param("in", "uint16", "k"), param("in", n, "x"), param("out", "uint8", "z")]))
        if not ob: ms.append(method(f"c{k}", [param("in", n, "x", 0), param("out", n, "y", 0)]))
    if ms: main["decls"].append(iface("IMain", ms))
    return p

def fn(c):
    exe = build_idlc(); lib = build_lib(); c.stage("idlc built")
    r = random.Random(f"c06-{SEED}")
    K = 12 if THOROUGH else 1
    # lawful by construction, and arbitrary: the specification decides which are lawful
    cases = [dict(kind="prog", p=case_program(r), ub=r.random() < .1, hint="any layout") for _ in range(420 * K)]
    for _ in range(60 * K):
        p = gen.Gen(r, ifaces=(0, 1), structs=(2, 5), consts=False, shuffle=True, fldarr=9, objstruct=r.random() < .5).prog()
        if not glue.Model(p).structs: continue
        cases.append(dict(kind="prog", p=nearly(r, p) if r.random() < .7 else p, hint="fields exchanged"))
    measured = len(cases)
    cases += near.layouts(r)
    for z in cases: z["whos"] = None if THOROUGH else r.sample(LANGS + ["lib"], 3)
    accept.judge_cases(c, cases, exe, lib, True, True)
    ok = [z["p"] for z in (cases if THOROUGH else cases[:measured]) if z["runs"] and any(x["acc"] for x in z["runs"])]
    c.cov["accepted_file_sets_measured"] = len(ok)
    # every accepted one measured: gcc, clang, g++, clang++, rustc
    pick = ok if THOROUGH else ok[:150]
    nat = pmap(lambda p: tables.read_native(exe, p, ("struct",)), pick)
    c.stage(f"{len(pick)} accepted file sets measured")
    big = corpora.random_programs(r, 8 * K, structs=(3, 7), ifaces=(0, 1), maxfiles=4, fldarr=40)
    bn = pmap(lambda p: tables.read_native(exe, p, ("struct",)), big)
    tables.judge_tables(c, "C06", pick + big, nat + bn)
    # what stubs transmit and skeletons accept
    ex = []
    for p in [q for q in ok if glue.Model(q).structs]:
        q = transport(r, p)
        if "IMain" in glue.Model(q).ifaces: ex.append(q)
        if len(ex) == 9 * K: break
    us, plans, out = callcheck.go(c, "C06", exe, ex, r, fail=.1, small=True)
    rawcheck.go(c, "C06", us, r, 50000 if THOROUGH else 6000, keep=lambda q: q["hi"] == 0 and q["op"] < 16384 and q["sbi"] + q["sbo"])
main("C06", fn)
