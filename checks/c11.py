#!/usr/bin/env python3
"""C11: whatever is generated builds, without a word, in every backend"""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import random, json
from vlib.common import *
from vlib import buildx, corpora, front, gen, idl, names
from vlib.idl import *

# one small file set per circumstance in which builds are known to fail (role -> name, see vlib/names.py)
PROBES = json.load(open(os.path.join(VERIF, "vlib", "probes.json")))

def kinds(i, r):
    """a rotation of tools: every kind is met often, not by every program"""
    c = [("c", "typed", "gcc"), ("c", "untyped", "clang")] if i % 2 else [("c", "untyped", "gcc"), ("c", "typed", "clang")]
    return c + [("cpp", "typed", "g++" if (i // 2) % 2 else "clang++"), ("rust", "typed", "rustc"), ("java", "typed", "javac")]

def run(c, exe, cases, tag, every=False):
    """cases: [(program, targets)] built by the tools and judged -> violations"""
    r = random.Random(tag)
    groups = {}
    for i, (p, ts) in enumerate(cases):
        ks = tuple(k for k in (buildx.KINDS if every else kinds(i, r)) if k[0] in ts)
        groups.setdefault(ks, []).append(i)
    built = [None] * len(cases)
    def go(item):
        ks, idx = item
        for i, x, e in zip(idx, *buildx.build(exe, [cases[i][0] for i in idx], ks, ("-O1", "-O0", "-O2") if THOROUGH else ("-O1", "-O0"))): built[i] = (ks, x, e)
    for g in groups.items(): go(g)
    recs = []
    for (p, ts), (ks, x, e) in zip(cases, built):
        runs = [dict(t=k[0], k="/".join(k), gen=1 if k[0] in e else 0, us=[dict(unit=u["unit"], rc=u["rc"], say=u["say"]) for u in x.get(k, [])]) for k in ks]
        recs.append(dict(p=idl.strip(p), runs=runs))
    n = max(1, min(40, len(recs) // NCPU + 1))
    ch = [recs[i:i + n] for i in range(0, len(recs), n)]
    bad, tot = judge(c, "MinkBuildTrace", [{"builds.json": [dict(p=x["p"], runs=[dict(t=q["t"], gen=q["gen"], us=q["us"]) for q in x["runs"]]) for x in k]} for k in ch])
    for k, v in tot.items(): c.cov[f"{k}_{tag}" if k != "units" else "units"] = c.cov.get(f"{k}_{tag}" if k != "units" else "units", 0) + v
    c.cov["traces_validated_against_impl"] += tot["runs"]
    out = []
    for b in bad:
        i = b["chunk"] * n + b["case"] - 1
        ks, x, e = built[i]; k = ks[b["run"] - 1]
        why = e.get(k[0], "") or next((u["why"] for u in x.get(k, []) if u["unit"] == b["unit"]), "")
        out.append((i, k, b["unit"], b["what"], b["clash"], why))
    c.stage(f"{tag}: {len(cases)} file sets, {tot['units']} units built")
    return out

def probe_key(q): return f"probe:{q['target']}:{q['label']}:" + ",".join(f"{a}={b}" for a, b in sorted(q["names"].items()))

def report(c, cases, out, keys=None):
    seen = {}
    for i, k, unit, what, clash, why in out:
        key = keys[i] if keys else f"build:{k[0]}:" + ("+".join(clash) if clash else f"{unit} {what}")
        q = seen.setdefault((key, k[0]), [i, k, unit, what, why, 0, set()]); q[5] += 1; q[6].add("/".join(k))
    for (key, t), (i, k, unit, what, why, n, ks) in seen.items():
        c.violation(key, f"{'/'.join(k)} {unit} {what}: {why[:300]} ({n} units; {', '.join(sorted(ks))})", dict(files=idl.render(cases[i][0]), target=list(k), unit=unit, what=what, why=why))

def storms(r, ones, n):
    """programs of the template with a fresh name in every role, per target"""
    out = []
    safe = {}
    for t in ("c", "cpp", "rust", "java"):
        for ro in names.ROLES: safe[t, ro] = sorted(nm for nm, x in ones[ro].items() if x is not None and not x[t])
    left = {k: r.sample(v, len(v)) for k, v in safe.items()}
    for i in range(n):
        for t in ("c", "cpp", "rust", "java"):
            f, used = {}, set()
            for ro in names.ROLES:
                l = left[t, ro]
                if len(l) < 8: left[t, ro] = l = r.sample(safe[t, ro], len(safe[t, ro]))
                for _ in range(12):
                    nm = l.pop()
                    if nm.lower() not in used: f[ro] = nm; used.add(nm.lower()); break
                    l.insert(0, nm)
            out.append((f, t))
    ls = names.labels([f for f, _ in out])
    return [(names.nice(f), (t,)) for (f, t), x in zip(out, ls) if x is not None and not x[t]]

def fn(c):
    exe = build_idlc()
    c.stage("idlc built")
    r = random.Random(f"c11-{SEED}")
    K = 12 if THOROUGH else 1
    # names
    pl = names.pool(exe)
    prs = [(a, b) for a in names.PAIRROLES for b in names.PAIRROLES if a != b]
    ones, twos = names.places(pl, prs if THOROUGH else r.sample(prs, 40), pl if THOROUGH else sorted(r.sample(pl, 130)))
    c.cov["names_in_the_pool"] = len(pl)
    c.cov["placements_judged_by_the_model"] = sum(len(v) for k, v in ones.items() if k not in names.LIKE) + len(twos)
    c.stage(f"{c.cov['placements_judged_by_the_model']} placements judged")
    # constructs
    sigs = corpora.signatures()
    cases = [(p, ("c", "cpp", "rust", "java")) for p in corpora.sig_programs(sigs if THOROUGH else r.sample(sigs, 500), 50)]
    shapes = ["bundle-in", "bundle-out", "bundle-both", "ties", "mixed", "objects", "full", "bundle-huge"]
    cases += [(corpora.shaped_program(r, shapes), ("c", "cpp", "rust", "java")) for _ in range(4 * K)]
    cases += [(p, ("c", "cpp", "rust", "java")) for p in corpora.random_programs(r, 24 * K, docs=True, ifaces=(1, 5))]
    cases += [(p, ("c", "cpp", "rust", "java")) for p in corpora.random_programs(r, 10 * K, docs=True, objstruct=False, chain=8, ifaces=(4, 9), methods=(0, 3), maxfiles=5)]
    cases = [(corpora.spread(p, r) if r.random() < .4 else p, ts) for p, ts in cases]
    report(c, cases, run(c, exe, cases, "constructs", every=THOROUGH))
    for p, _ in cases[-3:]: c.sample(idl.render(p))
    # names that have to build
    st = storms(r, ones, 20 * K)
    single = [(names.nice(f), tuple(t for t in ("c", "cpp", "rust", "java") if not x[t])) for f, x in r.sample(twos, min(len(twos), 3000 if THOROUGH else 48)) if x is not None]
    c.cov["programs_with_a_name_in_every_role"] = len(st)
    cases = [x for x in st + single if x[1]]
    report(c, cases, run(c, exe, cases, "names"))
    # circumstances under which builds are known to fail
    cases = [(names.nice(q["names"]), (q["target"],)) for q in PROBES]
    out = run(c, exe, cases, "probes")
    report(c, cases, out, [probe_key(q) for q in PROBES])
    c.cov["probes_that_still_fail"] = len({i for i, *_ in out})
    c.assumptions += ["harness/java/rt stands in for the Mink Java runtime API; object.h, the C++ base classes and the Rust object module are upstream's own",
                      "constructs Java documents as unsupported (objects in structs) are not built for Java"]
main("C11", fn)
