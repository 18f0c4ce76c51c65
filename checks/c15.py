#!/usr/bin/env python3
"""C15: append-only revisions disturb nothing that was there"""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import random, copy, json, shutil
from vlib.common import *
from vlib import corpora, execx, front, gen, glue, hier, idl, javacall, revise, tables
from vlib.idl import *

MODEL = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT Depth = %d\nINVARIANTS %s\n"
EXEC = {"op", "counts", "bi", "bo-size", "oi", "entered", "method", "in", "in-obj", "in-len", "cap", "status", "mem", "bo", "oo", "out", "out-obj", "out-len", "reached", "order", "crash"}

# --------------------------------------------------------------------------- revisions

def base_program(r):
    """the file set of the design model, with methods of every kind"""
    g = gen.Gen(r, objstruct=r.random() < .5)
    S0 = struct("S0", r.choice([[field("uint32", "a", 2)], [field("interface", "o"), field("uint64", "z")], [field("uint8", "b", 3)], [field("float64", "d", 40)]]))
    M = glue.Model(program([file("x", [S0])], 1)); ss = [("S0", M.size("S0"), 8, M.nobj("S0"))]
    def ms(pre, n):
        out = []
        for i in range(n):
            x = r.random()
            if x < .6: out.append(method(f"{pre}m{i}", g.mkparams(ss, ["interface", "A"], r.randint(0, 6)), opt=r.random() < .15))
            elif x < .8: out.append(error(f"{pre.upper()}E{i}"))
            else: t = g.prim(); out.append(const(f"{pre.upper()}K{i}", t, g.constval(t)))
        return out
    return program([file("base", [S0, iface("A", ms("a", r.randint(1, 4)))]),
                    file("top", [iface("B", ms("b", r.randint(0, 4)), "A"), iface("C", ms("c", r.randint(0, 4)), "B"), iface("D", ms("d", r.randint(0, 2)), "A")], [1])], 2)

def follow(r, p, h):
    """the history h of the design model, on p -> programs"""
    out = [p]; g = gen.Gen(r, objstruct=False)
    for i, (k, n) in enumerate(h):
        p = copy.deepcopy(p); big = r.choice(["n", "N", "z", "Aa"])
        if k in ("method", "error", "const"):
            d = next(d for f in p["files"] for d in f["decls"] if d["k"] == "iface" and d["n"] == n)
            t = g.prim()
            d["m"].append(method(f"{big}M{i}", g.mkparams([], ["interface", "A"], r.randint(0, 6)), opt=r.random() < .3) if k == "method" else error(f"{big}E{i}") if k == "error" else const(f"{big}K{i}", t, g.constval(t)))
        else:
            ds = p["files"][int(n) - 1]["decls"]; t = g.prim()
            d = (struct(f"{big}S{i}", [field("uint32", "a", 2)]) if k == "struct" else const(f"{big}F{i}", t, g.constval(t)) if k == "fconst"
                 else iface(f"{big}I{i}", [method(f"{big}n{i}", [])], "A" if k == "derive" else ""))
            ds.insert(r.randint(0, len(ds)), d)
        out.append(p)
    return out

# --------------------------------------------------------------------------- texts

def texts(a):
    """the fragments of everything generated for two revisions"""
    exe, p, q, flags = a
    res, errs = {}, []
    ds = []
    for x in (p, q):
        d = scratch(f"rv{os.getpid()}-{next(front._n)}"); M, err = execx.generate(exe, x, d, flags)
        fs = {}
        if not hier.java_unsupported(x):
            jd = os.path.join(d, "java"); e = tables.java_generate(exe, x, jd, flags)[1]
            if e: err = dict(err, java=e)
        for base, _, fn in os.walk(d):
            for f in fn:
                if not f.endswith(".idl"): fs[os.path.relpath(os.path.join(base, f), d)] = open(os.path.join(base, f)).read()
        errs += [f"{b}: {e}" for b, e in err.items()]
        ds.append(fs); shutil.rmtree(d, ignore_errors=True)
    if errs: return None, errs
    M = glue.Model(p); names = list(M.ifaces); ms = {m["n"] for d in M.ifaces.values() for m in d["m"] if m["k"] == "method"}
    ids = {}
    def i(t): return ids.setdefault(t, len(ids) + 1)
    out = []
    for f in sorted(ds[0]):
        if f not in ds[1]: out.append(dict(f=f, gone=True, old=[], new=[], w=[])); continue
        A = revise.fragments(ds[0][f], ms); B = revise.fragments(ds[1][f], ms)
        own = [] if "/" not in f else [f]       # Rust and Java have a file per interface
        out.append(dict(f=f, gone=False, w=revise.align(A, B),
                        old=[dict(p=i(p0), o=o, t=i(t), m=revise.mentions(" ".join([os.path.basename(x).split(".")[0] for x in own] + [p0, t]), names)) for p0, o, t in A],
                        new=[dict(p=i(p0), t=i(t)) for p0, o, t in B], src=(A, B)))
    return out, []

def judge_texts(c, exe, pairs, flags):
    res = pfork(texts, [(exe, p, q, f) for (p, q), f in zip(pairs, flags)])
    c.stage(f"{len(pairs)} pairs of revisions compiled")
    data, own = [], []
    for k, ((p, q), (t, errs)) in enumerate(zip(pairs, res)):
        if errs: c.violation("c15/generate", "a revision is not compiled: " + "; ".join(errs)[:400], dict(old=idl.render(p), new=idl.render(q), errors=errs)); continue
        own.append((p, q, t))
    NC = NCPU * 2
    jobs = [own[i::NC] for i in range(NC)]
    data = [{"pairs.json": [dict(a=idl.strip(p), b=idl.strip(q), texts=[{k: v for k, v in x.items() if k not in ("src", "f")} for x in t]) for p, q, t in j]} for j in jobs]
    bad, tot = judge(c, "MinkReviseTrace", data)
    c.cov["traces_validated_against_impl"] += len(own); c.cov["texts"] = tot
    for b in bad:
        p, q, t = jobs[b["chunk"]][b["case"] - 1]
        if b["label"] == "history": raise ToolError("the harness made a history that is not append-only")
        x = t[b["text"] - 1]; ext = os.path.splitext(x["f"])[1]
        if b["label"] != "lost":
            c.violation(f"c15/{b['label']}:{ext}", f"{x['f']}: {b['label']}", dict(old=idl.render(p), new=idl.render(q), file=x["f"])); continue
        A = x["src"][0]; at = A[min(b["lost"]) - 1]
        c.violation(f"c15/lost:{ext}", f"{x['f']}: generated for the old revision and not for the new: {at[2][:300]}", dict(old=idl.render(p), new=idl.render(q), file=x["f"], lost=[A[i - 1][2][:2000] for i in b["lost"]][:5]))

# --------------------------------------------------------------------------- stubs and skeletons of different revisions

def cross_plan(A, B, p, q, r, budget):
    """groups on unit A (old methods, over revisions) and on unit B (methods unknown to the old skeleton)"""
    st = revise.stable(p, q); ga, gb = [], []
    per = {}
    for S in st:
        old = A.M.methods(S); new = [(o, m) for o, m in B.M.methods(S) if all(x["n"] != m["n"] for _, x in old)]
        bare_ok = any(m["opt"] for _, m in old)
        for srv in sorted(A.libs):
            plus = srv.endswith("+")
            for bare in ((0, 1) if bare_ok and not plus and r.random() < .5 else (0,)):
                g = execx.Group(srv, bare, S)
                for own, m in old:
                    for cli in sorted(A.libs):
                        if cli.endswith("+") == plus or r.random() > budget: continue
                        x = execx.Call(A.M, r.choice([own, S]), own, m, r, S); x.mode = r.choice([0, 1, 3, 5])
                        if not (bare and m["opt"]) and r.random() < .15: x.status = r.choice([1, 2, 10, 11, 99, -1])
                        g.add(cli, x)
                r.shuffle(g.calls)
                if g.calls: ga.append(g)
            if plus or not new: continue
            g = execx.Group(srv, int(bare_ok and r.random() < .3), S)
            for own, m in (new if len(new) < 30 else new[:6] + new[-6:] + r.sample(new, 18)):
                for cli in sorted(A.libs):
                    if not cli.endswith("+"): continue
                    x = execx.Call(B.M, S, own, m, r, S); x.mode = r.choice([0, 1]); x.unknown = True
                    g.add(cli, x)
            r.shuffle(g.calls)
            if g.calls: gb.append(g)
    return ga, gb

def report(c, units, pairs, out):
    for b, (ui, g, cli, x, ev, gi, end) in out:
        ls = sorted(set(b["labels"]) & EXEC)
        if getattr(x, "unknown", False): ls = [l for l in ls if l in ("reached", "entered", "order", "crash", "mem")]
        if not ls: continue
        p, q = pairs[ui // 2]; u = getattr(x, "unknown", False)
        what = "unknown method" if u else "old method"
        c.violation(f"c15/{what}:{cli}-{g.srv}:{b['ev']}:{'+'.join(ls)}", f"{what} {x.I}.{x.m['n']} from a {cli} stub to a {g.srv} skeleton of another revision (+ is the new one): {b['ev']}: {ls}",
                    dict(old=idl.render(p), new=idl.render(q), iface=x.I, server=g.S, method=x.m["n"], cli=cli, srv=g.srv, vals=[dict(v, b=v["b"].hex()) for v in x.vals], events=ev, end=end, labels=b["labels"]))

def cross(c, exe, pairs, r, budget):
    ps = [x for p, q in pairs for x in (p, q)]
    us = pmap(lambda p: execx.build(exe, p), ps)
    c.stage(f"{len(us)} revisions built")
    for u in us:
        for b, e in u.fail.items(): c.violation(f"c15/build:{b}", e, dict(files=idl.render(u.prog), error=e))
    plans = []
    for i in range(0, len(us), 2):
        A, B = us[i], us[i + 1]
        libs = dict(A.libs); libs.update({b + "+": f for b, f in B.libs.items()})
        A.libs = libs; B.libs = libs
        ga, gb = cross_plan(A, B, *pairs[i // 2], r, budget)
        plans += [ga, gb]
    n = [sum(len(g.calls) for gs in plans[k::2] for g in gs) for k in (0, 1)]
    c.cov["calls_across_revisions"] = n[0]; c.cov["calls_of_unknown_methods"] = n[1]
    def play(z): u, gs = z; return execx.play(u, gs) if gs else ({}, {})
    res = pmap(play, list(zip(us, plans)))
    items = [(ui, g, cli, x, ev, gi, tail.get(gi)) for ui, (idx, tail) in enumerate(res) for g, cli, x, ev, gi in idx.values() if ev]
    c.stage(f"{len(items)} calls played")
    report(c, us, pairs, execx.judge_items(c, "C15", us, items))
    for ui, g, cli, x, ev, gi, end in items[:2]: c.sample(dict(stub=cli, skeleton=g.srv, method=idl.r_member(x.m).strip(), server=g.S))

def cross_java(c, exe, pairs, r):
    tables.java_home()
    def gen1(p): d = scratch(f"jr{next(front._n)}"); return (p,) + tuple(tables.java_generate(exe, p, d, ()))
    gs = pmap(gen1, [x for p, q in pairs for x in (p, q)])
    plans = []
    for k, (p, q) in enumerate(pairs):
        Mp, Mq = glue.Model(p), glue.Model(q); cs = []
        for S in revise.stable(p, q):
            old = Mp.methods(S); new = [(o, m) for o, m in Mq.methods(S) if all(x["n"] != m["n"] for _, x in old)]
            for own, m in old:
                for way in (0, 1): cs.append((way, 2 * k, javacall.JCall(Mp, r.choice([own, S]), S, own, m, r, r.choice([0, 0, 0, 0, 10]))))
            for own, m in new[:40]:
                x = javacall.JCall(Mq, S, S, own, m, r); x.unknown = True; cs.append((1, 2 * k + 1, x))
        plans.append(cs)
    def play(ks):
        script, own, n = [], {}, 0
        for k in ks:
            a, b = gs[2 * k], gs[2 * k + 1]
            if a[-1] or b[-1]: continue
            script += ["D " + a[1], "D " + b[1]]
            for way in (0, 1):
                script.append(f"X {b[1]} {a[1]}" if way else f"X {a[1]} {b[1]}")
                for w, ui, x in plans[k]:
                    if w == way: n += 1; own[n] = (ui, x, [], way); script += x.lines(n)
        if not script: return []
        for e in javacall.jvm(script):
            if "c" in e: own[e["c"]][2].append({k: v for k, v in e.items() if k != "c"})
        return [t for t in own.values() if t[2]]
    parts = chunks(list(range(len(pairs))), NCPU)
    items = [t for x in pmap(play, parts) for t in x]
    random.Random(5).shuffle(items); ch = chunks(items, NCPU); data = []
    progs = [x for p, q in pairs for x in (p, q)]
    for z in ch:
        us = sorted({t[0] for t in z}); pos = {u: k + 1 for k, u in enumerate(us)}
        data.append({"progs.json": [idl.strip(progs[u]) for u in us], "calls.json": [x.record(pos[u], ev) for u, x, ev, _ in z]})
    bad, tot = judge(c, "MinkJavaTrace", data)
    c.cov["traces_validated_against_impl"] += len(items); c.cov["java_calls_across_revisions"] = len(items)
    c.stage(f"java judged {tot}")
    for b in bad:
        ui, x, ev, way = ch[b["chunk"]][b["case"] - 1]; u = getattr(x, "unknown", False)
        ls = sorted(set(b["labels"]) & (javacall.LABELS | {"reached"}))
        if u: ls = [l for l in ls if l in ("reached", "entered", "order", "crash", "mem")]
        if not ls: continue
        p, q = pairs[ui // 2]
        c.violation(f"c15/java:{'unknown' if u else 'old'} method:{b['ev']}:{'+'.join(ls)}", f"Java {x.I}.Proxy of the {'new' if way else 'old'} revision to {x.S}.MinkObject of the other: {idl.r_member(x.m).strip()}: {b['ev']}: {ls}",
                    dict(old=idl.render(p), new=idl.render(q), method=x.m["n"], events=ev, labels=b["labels"]))

# ---------------------------------------------------------------------------

def large(r):
    """an interface that grows far beyond what its op-code had room for in a byte"""
    A = iface("ILarge", [method("one", [param("in", "uint32", "x")]), error("E1"), method("two", [param("out", "buffer", "y")]), method("three", [param("in", "ILarge", "o")], opt=True)])
    p = program([file("large", [A])], 1); q = copy.deepcopy(p)
    n = r.choice([254, 300, 520])
    for i in range(n): q["files"][0]["decls"][0]["m"].append(method(f"more{i}", [param("in", "uint32", "x")] if i % 3 == 0 else [param("out", "buffer", "y")] if i % 3 == 1 else []))
    return p, q

def fn(c):
    exe = build_idlc(); c.stage("idlc built")
    r = random.Random(f"c15-{SEED}")
    K = 8 if THOROUGH else 1
    d = 3
    t = tlc("MinkReviseModel", MODEL % (d, "Keeps IsRevision Emit"), workers=NCPU, heap="6g"); c.tlc_design(t)
    hs = t.json("histories.json")
    t2 = tlc("MinkReviseModel", MODEL % (1, "AllKept"), heap="2g", want_ok=False)
    if "AllKept is violated" not in t2.out: raise ToolError("the design model does not need strict ancestors to be as they were")
    c.cov["histories_of_the_model"] = len(hs); c.stage(f"design model: {t.distinct} states, {len(hs)} histories")
    pairs = []
    short = [h for h in hs if len(h) < 3]; longer = [h for h in hs if len(h) == 3]
    for h in short + (longer if THOROUGH else r.sample(longer, 60)):
        b = base_program(r); ps = follow(r, b, h)
        pairs.append((ps[0], ps[-1]))
        if len(h) > 1 and r.random() < .3: pairs.append((ps[1], ps[-1]))
    nmodel = len(pairs)
    for k in range(100 * K):
        p = corpora.random_programs(r, 1, ifaces=(1, 4), docs=True, objstruct=r.random() < .5)[0] if k % 2 else hier.hierarchy(r, (0, 2), (1, 3), (0, 2), r.randint(1, 4), r.randint(1, 3), params=True)
        rv = revise.Rev(p, r)
        for _ in range(r.randint(1, 6)): rv.step()
        if len(rv.progs) > 1:
            pairs.append((p, rv.progs[-1]))
            if len(rv.progs) > 2 and r.random() < .3: pairs.append((r.choice(rv.progs[1:-1]), rv.progs[-1]))
    flags = [("--no-typed-objects",) if r.random() < .1 else () for _ in pairs]
    judge_texts(c, exe, pairs, flags)
    c.cov["pairs_from_model_histories"] = nmodel; c.cov["pairs"] = len(pairs)
    # executed: members appended to interfaces in every way
    def executable(n):
        out = []
        while len(out) < n:
            x = r.random()
            if x < .45: p = base_program(r); q = follow(r, p, r.choice(hs))[-1]
            else:
                p = corpora.random_programs(r, 1, ifaces=(1, 3), objstruct=r.random() < .4)[0] if x < .7 else hier.hierarchy(r, (0, 2), (1, 3), (0, 1), r.randint(1, 3), 2, params=True)
                rv = revise.Rev(p, r)
                for _ in range(r.randint(1, 4)): rv.step(kinds=["method", "method", "method", "error", "const", "iface", "derive"])
                q = rv.progs[-1]
            if revise.grown(p, q): out.append((p, q))
        return out
    ex = executable(26 * K) + [large(r)]
    cross(c, exe, ex, r, .5)
    jx = [(p, q) for p, q in executable(40 * K) + [large(r)] if not hier.java_unsupported(p) and not hier.java_unsupported(q)]
    cross_java(c, exe, jx, r)
    c.assumptions.append("fragments of generated text are compared token by token; where a class, table or switch may grow is told from its heading")
main("C15", fn)
