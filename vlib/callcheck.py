"""Programs, calls and judging shared by the checks of calls through generated code."""
import random
from .common import *
from . import corpora, execx, idl, glue

STATUS = [1, 2, 9, 10, 11, 15, 99, -1, -2147483648, 2147483647]

def plan(u, r, S_of=None, per=1, fail=.2, opts=None, modes=None, pairs=None, small=False, statuses=None):
    """groups of calls over every pairing of a unit's backends"""
    gs = []
    for S in (S_of or leaves)(u.M):
        ms = u.M.methods(S)
        if not ms: continue
        bare_ok = any(m["opt"] for _, m in ms)
        for srv in u.libs:
            for bare in ((0, 1) if bare_ok else (0,)):
                g = execx.Group(srv, bare, S)
                for own, m in ms:
                    if bare and not m["opt"] and r.random() < .7: continue
                    for cli in u.libs:
                        for _ in range(per):
                            x = execx.Call(u.M, r.choice([own, S, S]), own, m, r, S, small=small, **(opts or {}))
                            x.mode = r.choice(modes or [0, 1, 1, 3, 5, 7, 9, 15, 8, 16, 17, 21])
                            if bare and m["opt"]: x.status = 0
                            elif r.random() < fail: x.status = r.choice(statuses(u.M, S) if statuses else STATUS)
                            g.add(cli, x)
                r.shuffle(g.calls)
                if g.calls: gs.append(g)
    return gs

def leaves(M):
    """the interfaces nothing derives from, and some of the others"""
    base = {d["b"] for d in M.ifaces.values()}
    return [n for n in M.ifaces if n not in base]

def tally(c, plans):
    n = {"calls": 0, "failing": 0, "not_provided": 0, "pairings": {}}
    for gs in plans:
        for g in gs:
            for cli, x in g.calls:
                n["calls"] += 1; n["failing"] += x.status != 0; n["not_provided"] += bool(g.bare and x.m["opt"])
                k = f"{cli}-{g.srv}"; n["pairings"][k] = n["pairings"].get(k, 0) + 1
    c.cov["calls"] = n

def go(c, prop, exe, progs, r, flags=None, **kw):
    """progs: programs; builds them, calls them, judges.  flags: per program"""
    fl = flags or [()] * len(progs)
    ccs = [r.choice(["clang", "clang", "gcc"]) for _ in progs]
    us = pmap(lambda z: execx.build(exe, z[0], flags=z[1], cc=z[2]), list(zip(progs, fl, ccs)))
    c.stage(f"{len(us)} programs built")
    execx.report_builds(c, us)
    plans = [plan(u, r, **kw) for u in us]
    tally(c, plans)
    out = execx.judge_calls(c, prop, us, plans)
    execx.report(c, prop, us, out)
    ms = sum(len(u.M.methods(n)) for u in us for n in leaves(u.M))
    c.cov["programs"] = c.cov.get("programs", 0) + len(us); c.cov["methods"] = c.cov.get("methods", 0) + ms
    for u, gs in list(zip(us, plans))[:3]:
        if gs:
            cli, x = gs[0].calls[0]
            c.sample(dict(cli=cli, srv=gs[0].srv, method=idl.r_member(x.m), values=[dict(b=v["b"].hex(), o=v["o"], n=v["n"], cap=v["cap"]) for v in x.vals], mode=x.mode, status=x.status))
    return us, plans, out

DESIGN = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxParams = %d
          Ids = {0, 1, 2}
INVARIANTS Exact Canonical Neutral NoNegative Bundled
"""
def design(c, n=2):
    r = tlc("MinkCallModel", DESIGN % n, workers=NCPU, heap="6g", timeout=800)
    c.tlc_design(r); c.cov["design_states"] = r.distinct
    c.stage(f"design model: {r.distinct} states")
