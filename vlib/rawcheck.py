"""Invocations around the legal ones, enumerated by MinkRefuseGen, played on skeletons and judged."""
import random, json
from .common import *
from . import execx, idl

class Raw:
    def __init__(s, r, bare, status): s.r, s.bare, s.status = r, bare, status
    def line(s, cid, M, S, rng):
        r = s.r; k = r["k"]
        word = k[0] + 16 * k[1] + 256 * k[2] + 4096 * k[3] + (r["hi"] << 16)
        sz = [str({0: z["n"], 1: z["n"] + 2**32, 2: 2**64 - 1}[z["x"]]) for z in r["sbi"] + r["sbo"]]
        ms = M.methods(S); ps = []
        if r["op"] < len(ms):
            own, m = ms[r["op"]]
            ps = [execx.pline(v, "c") for v in execx.Call(M, S, own, m, rng, S).vals]
        return [" ".join([f"R {cid} {r['op']} {word} {s.status} {len(ps)}"] + sz)] + ps

def go(c, prop, us, r, budget, keep=lambda q: True):
    """keep: which enumerated invocations to play"""
    # every interface served, the specification enumerates the invocations around its methods
    servers = [(ui, S) for ui, u in enumerate(us) for S in u.M.ifaces if u.libs]
    ch = chunks(servers, NCPU)
    def gen1(x):
        uis = sorted({ui for ui, _ in x}); pos = {u: i + 1 for i, u in enumerate(uis)}
        t = tlc("MinkRefuseGen", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Done\n", {"progs.json": [idl.strip(us[u].prog) for u in uis], "servers.json": [dict(p=pos[ui], i=S) for ui, S in x]}, heap="3g", timeout=800)
        return t, t.json("raws.json")
    raws = {}
    for x, (t, rs) in zip(ch, pmap(gen1, ch)):
        c.tlc_design(t)
        for (ui, S), q in zip(x, rs): raws[ui, S] = sorted([x for x in q if keep(x)], key=json.dumps)
    total = sum(len(q) for q in raws.values())
    c.stage(f"{total} invocations enumerated for {len(servers)} servers")
    c.cov["invocations_enumerated"] = total
    share = min(1.0, budget / (3 * total))
    def play(ui):
        u = us[ui]; rng = random.Random(f"{SEED}-{ui}")
        lines, idx, cid, gid = [], {}, 0, 0
        for S in u.M.ifaces:
            ms = u.M.methods(S)
            if (ui, S) not in raws: continue
            bares = (0, 1) if any(m["opt"] for _, m in ms) else (0,)
            for srv in u.libs:
                todo = [q for q in raws[ui, S] if rng.random() < share]
                rng.shuffle(todo)
                while todo:
                    part, todo = todo[:25], todo[25:]; bare = rng.choice(bares); gid += 1
                    lines.append(f"G {gid} {srv} {bare} {S}")
                    for q in part:
                        cid += 1; x = Raw(q, bare, rng.choice([0, 0, 0, 5, 10, 77]))
                        idx[cid] = ("raw", srv, bare, S, x, [], gid); lines += x.line(cid, u.M, S, rng)
                        if ms and rng.random() < .2:
                            own, m = rng.choice(ms); cid += 1
                            y = execx.Call(u.M, S, own, m, rng, S, small=True); y.mode = rng.choice([0, 1])
                            cli = rng.choice(sorted(u.libs))
                            idx[cid] = ("call", srv, bare, S, (cli, y), [], gid); lines += y.line(cid, cli)
                    lines.append("E")
        tail = {}
        for e in execx.run_script(u, lines, timeout=600):
            if e["c"] in idx and e["ev"] != "end": idx[e["c"]][5].append(e)
            elif e["ev"] != "end": tail[e.get("g", -1)] = e
        return idx, tail
    played = pmap(play, [ui for ui, u in enumerate(us) if u.libs])
    order = [ui for ui, u in enumerate(us) if u.libs]
    c.stage("played")
    rr, cc = [], []
    for ui, (idx, tail) in zip(order, played):
        for cid, (kind, srv, bare, S, x, ev, gid) in idx.items():
            if not ev: continue            # after a crash that is reported for the invocation it happened in
            if kind == "raw": rr.append((ui, srv, bare, S, x, ev, tail.get(gid)))
            else:
                g = execx.Group(srv, bare, S); cc.append((ui, g, x[0], x[1], ev, gid, tail.get(gid)))
    random.Random(3).shuffle(rr)
    ch = chunks(list(range(len(rr))), NCPU)
    data = []
    for q in ch:
        uis = sorted({rr[i][0] for i in q}); pos = {u: k + 1 for k, u in enumerate(uis)}
        data.append({"progs.json": [idl.strip(us[u].prog) for u in uis],
                     "raws.json": [dict(p=pos[rr[i][0]], i=rr[i][3], r=rr[i][4].r, bare=bool(rr[i][2]), st=rr[i][4].status, ev=[{k: w for k, w in e.items() if k in ("ev", "st", "served", "mem", "bogus", "oo", "refs")} for e in rr[i][5]]) for i in q]})
    bad, tot = judge(c, "MinkRefuseTrace", data)
    c.cov["traces_validated_against_impl"] += len(rr); c.cov["raw"] = tot
    c.stage(f"judged {tot}")
    for b in bad:
        ui, srv, bare, S, x, ev, end = rr[ch[b["chunk"]][b["case"] - 1]]
        ms = us[ui].M.methods(S); m = ms[x.r["op"]][1] if x.r["op"] < len(ms) else None
        c.violation(f"{srv}:{'+'.join(sorted(b['labels']))}:{'method' if m else 'foreign op'}",
                    f"{srv} skeleton of {S}{' without its optional methods' if bare else ''}, op {x.r['op']} ({idl.r_member(m) if m else 'no method'}), counts {x.r['k']} hi {x.r['hi']} sizes in {x.r['sbi']} out {x.r['sbo']}: {sorted(b['labels'])}: {[{k: w for k, w in e.items() if k != 'v'} for e in ev][-1]} {end or ''}",
                    dict(files=idl.render(us[ui].prog), server=S, srv=srv, bare=bare, raw=x.r, status=x.status, events=ev, end=end, labels=b["labels"]))
    # the well-formed calls in between
    out = execx.judge_items(c, prop, us, cc)
    for b, (ui, g, cli, x, ev, gi, end) in out:
        if not set(b["labels"]) & {"entered", "status", "refusal", "order", "crash", "mem"}: continue
        if prop == "C04": c.violation(f"after:{g.srv}:{'+'.join(sorted(b['labels']))}", f"a well-formed call of {x.I}.{x.m['n']} after refused ones, {g.srv} skeleton: {b['ev']}: {sorted(b['labels'])}",
                    dict(files=idl.render(us[ui].prog), method=x.m["n"], srv=g.srv, events=ev, labels=b["labels"]))
    for ui, srv, bare, S, x, ev, end in rr[:3]: c.sample(dict(srv=srv, server=S, op=x.r["op"], counts=x.r["k"], hi=x.r["hi"], sizes=[x.r["sbi"], x.r["sbo"]], seen={k: w for k, w in ev[-1].items() if k != "v"}))
