#!/usr/bin/env python3
"""C20: one generated Rust object shared by threads: bodies exclude each other, references are counted"""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import random, json
from vlib.common import *
from vlib import corpora, gen, hier, idl, shared
from vlib.idl import *

def unique(p):
    """method names become unique in the program (the driver names methods by them)"""
    seen = set()
    for f in p["files"]:
        for d in f["decls"]:
            if d["k"] != "iface": continue
            for m in d["m"]:
                if m["k"] != "method": continue
                n = m["n"]; k = 0
                while n.lower() in seen: k += 1; n = f"{m['n']}u{k}"
                m["n"] = n; seen.add(n.lower())
    return p

def op(r, ms):
    x = r.random()
    if x < .55: return "m" + r.choice(ms)
    return r.choice("ccdpttul") if x < .97 else "d"

def scenarios(r, M, k, big):
    """k scenarios per interface of the program"""
    out = []; ifs = list(M.ifaces)
    if len(ifs) > 4: ifs = r.sample(ifs, 4)
    for I in ifs:
        ms = [m["n"] for _, m in M.methods(I)]
        if not ms: continue
        for j in range(k):
            how = "dfs" if j == 0 else ["pct", "rand"][r.random() < .5]
            nt = 2 if how == "dfs" else r.randint(2, 5)
            th = [(r.random() < .75 or t == 0, [op(r, ms) for _ in range(r.randint(1, 2) if how == "dfs" else r.randint(1, 6))]) for t in range(nt)]
            if not any(o[0] == "m" for _, os_ in th for o in os_): th[0][1][0] = "m" + r.choice(ms)
            iters = {"dfs": 1200, "pct": 60, "rand": 60}[how] * (8 if big else 1)
            first = int(r.random() < .5)
            out.append((I, f"S {{}} {I} {how} {iters} {r.randint(1, 1 << 30)} {first} {nt}", [f"T {int(o)} {' '.join(os_)}" for o, os_ in th]))
    return out

def play(a):
    exe, p, seed, k, cap = a
    r = random.Random(seed)
    x, err, M, d = shared.build(exe, p)
    if not x: return dict(err=err)
    scs = scenarios(r, M, k, THOROUGH)
    if not scs: return dict(logs=[], runs=0, scs=[])
    txt = shared.method_lines(M)
    for i, (I, s, th) in enumerate(scs): txt += [s.format(i)] + th
    with open(os.path.join(d, "script"), "w") as h: h.write("\n".join(txt) + "\n")
    rc, out, er = run([x], input=("\n".join(txt) + "\n").encode(), timeout=240)
    logs, runs, done = [], 0, False
    for l in out.decode("utf-8", "replace").splitlines():
        try: j = json.loads(l)
        except ValueError: continue
        if "ev" in j: logs.append(j)
        elif "runs" in j: runs += j["runs"]
        elif "end" in j: done = True
    if not done and not any(e[0] == "!" for j in logs for e in j["ev"]):
        logs.append(dict(s=logs[-1]["s"] if logs else 0, ev=[["n", 0, 0, 0], ["!", 0, 0, 0]], rc=rc))
    tail = "" if done else er.decode("utf-8", "replace")[-400:]
    by = {}
    for j in logs: by.setdefault(j["s"], []).append(j)
    keep = []
    for s, v in by.items():
        keep += v if len(v) <= cap else r.sample(v, cap) + [j for j in v if any(e[0] == "!" for e in j["ev"])]
    return dict(logs=keep, runs=runs, all=len(logs), scs=scs, dir=d, err=None, tail=tail)

def design(c):
    """the algorithm of the object library refines the specification; without one of its features it does not"""
    base = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS N = {}\n Ops = {}\n Atomic = {}\n Locked = {}\n Held = {}\nINVARIANTS Refines Count Freed\n{}"
    jobs = [("TRUE", "TRUE", "TRUE", True), ("FALSE", "TRUE", "TRUE", False), ("TRUE", "FALSE", "TRUE", False), ("TRUE", "TRUE", "FALSE", False)]
    def one(j):
        a, l, h, ok = j
        size = (2, 3) if ok and THOROUGH else (1, 4)
        return ok, tlc("MinkSharedImpl", base.format(*size, a, l, h, "PROPERTY Eventually\n" if ok else ""), workers=2, heap="4g", want_ok=ok, name=f"impl-{a}{l}{h}"[:30])
    for ok, r in pmap(one, jobs):
        if ok: c.tlc_design(r)
        elif "is violated" not in r.out: raise ToolError("MinkShared accepts an implementation without a feature it needs:\n" + r.out[-2000:])
    c.cov["broken_designs_rejected"] = 3

def fn(c):
    exe = build_idlc()
    shared.shim()
    c.stage("idlc and the scheduler built")
    design(c)
    c.stage("design model checked")
    r = random.Random(f"c20-{SEED}")
    K = 6 if THOROUGH else 1
    progs = corpora.random_programs(r, 22 * K, ifaces=(1, 3), methods=(1, 4), objstruct=True)
    progs += [hier.hierarchy(r, (0, 2), (1, 3), (0, 1), r.randint(2, 4), r.randint(1, 2), params=True) for _ in range(16 * K)]
    progs += [corpora.shaped_program(r, ["objects", "ties", "mixed", "bundle-both"], 6) for _ in range(6 * K)]
    progs = [unique(p) for p in progs]
    res = pmap(play, [(exe, p, f"{SEED}-{i}", 4 if THOROUGH else 3, 400 if THOROUGH else 60) for i, p in enumerate(progs)])
    logs, src, runs, nsc = [], [], 0, 0
    for p, x in zip(progs, res):
        if x["err"]:
            c.violation("c20/build", "a generated program does not build: " + x["err"], dict(sources=idl.render(p), error=x["err"])); continue
        runs += x["runs"]; nsc += len(x["scs"])
        for j in x["logs"]:
            n = max([e[1] for e in j["ev"]] + [e[2] for e in j["ev"] if e[0] == "g"] + [1])
            logs.append(dict(n=n, ev=j["ev"])); src.append((p, x, j))
    c.stage(f"{len(logs)} logs of {runs} schedules")
    NC = 16
    bad, tot = judge(c, "MinkSharedTrace", [{"logs.json": logs[i::NC]} for i in range(NC)])
    c.cov["traces_validated_against_impl"] += len(logs)
    for b in bad:
        p, x, j = src[b["chunk"] + NC * (b["case"] - 1)]
        I, s, th = x["scs"][j["s"]]
        c.violation(f"c20/{','.join(sorted(b['labels']))}", f"{I}: {b['labels']} at event {b['at']} of {j['ev'][:b['at']][-8:]} {x['tail'][:200]}", dict(sources=idl.render(p), scenario=[s.format(j['s'])] + th, log=j["ev"], labels=b["labels"]))
    c.cov.update(schedules=runs, logs=len(logs), scenarios=nsc, programs=len(progs), events=sum(len(l["ev"]) for l in logs))
    kinds = {}
    for l in logs:
        for e in l["ev"]: kinds[e[0]] = kinds.get(e[0], 0) + 1
    c.cov["event_kinds"] = kinds
    for p, x, j in src[:2]: c.sample(dict(scenario=[x["scs"][j["s"]][1].format(j["s"])] + x["scs"][j["s"]][2], log=j["ev"][:40]))
    c.assumptions += ["the scheduler explores sequentially consistent interleavings at the operations of locks and atomics and at the driver's yields",
                      "tests/src/object is the object library of the generated Rust code"]
main("C20", fn)
