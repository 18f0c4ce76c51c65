#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import random
from vlib.common import *
from vlib import idl, front, gen, mutate, tokens, near
from vlib.front import *
from vlib.idl import *
from vlib.accept import *

def fn(c):
    n = 4000 if THOROUGH else 420
    exe = build_idlc(); lib = build_lib()
    c.stage("built")
    rng = random.Random(f"c09-{SEED}")
    kinds = sorted(mutate.MUTS)
    cases, texts = [], []
    k = 0
    while len(cases) < n:
        g = gen.Gen(rng, methods=(0, 3), params=(0, 4), structs=(0, 4), ifaces=(0, 3), maxfiles=3, shuffle=rng.random() < .3)
        p = g.prog()
        kind = kinds[k % len(kinds)]; k += 1
        try: q = mutate.mutate(p, rng, kind)
        except mutate.NA: continue
        cases.append(dict(kind="prog", p=q, ub=rng.random() < .1, hint=kind))
    # structs of structs: the accepted and refused shapes lie close together
    for _ in range(800 if THOROUGH else 120):
        p = program([file("nest", [iface("IMain", [method("m", [param("in", "ProbeN0", "s")])])])])
        cases.append(dict(kind="prog", p=mutate.mutate(p, rng, "neststruct"), ub=False, hint="neststruct"))
    # exhaustive two-parameter object signatures (the restrictions that relate parameters)
    cases += pair_cases()
    # either side of every restriction, wherever in the file set it is met
    tab = near.table(rng)
    if not THOROUGH:
        for x in tab: x["whos"] = rng.sample(LANGS + ["lib"], 2)
    cases += tab
    ntext = 1500 if THOROUGH else 250
    while sum(x["kind"] == "text" for x in cases) < ntext:
        g = gen.Gen(rng, methods=(1, 3), params=(0, 3), structs=(0, 2), ifaces=(1, 2), maxfiles=1)
        f = idl.render(g.prog())
        ts = tokens.tokens(list(f.values())[0])
        ts = tokens.mutate(ts, rng)
        cases.append(dict(kind="text", ts=ts, hint="text"))
    c.stage(f"{len(cases)} cases")
    judge_cases(c, cases, exe, lib, sound=True, complete=False)
    c.assumptions += ["a violation anywhere in the reachable file set must be refused, also in an included file no declaration of the main file uses",
                      "token-level grammar: tokens are separated by white space, identifiers do not begin with a keyword or type name"]

def pair_cases():
    P = [("uint8", -1), ("interface", -1), ("IQ", -1), ("interface", 2), ("IQ", 1), ("IQ", 0), ("Ob", -1), ("Ob", 0), ("Sm", -1), ("Sm", 0), ("ObT", -1), ("ObT", 0), ("Sm", 3), ("uint16", 4)]
    pre = [struct("Sm", [field("interface", "o")]), struct("Ob", [field("interface", "o"), field("uint64", "z")]), struct("ObT", [field("Ob", "t")]), iface("IQ", [])]
    for x, (t, a) in enumerate(P):
        for t2, a2 in P[x:]:
            for d, d2 in (("in", "in"), ("out", "out"), ("in", "out"), ("out", "in")):
                ps = [param(d, t, "pa", a), param(d2, t2, "pb", a2)]
                yield dict(kind="prog", ub=False, hint="pairs", p=program([file("pair", pre + [iface("IMain", [method("m", ps)])])]))

if __name__ == "__main__":
    main("C09", fn)
