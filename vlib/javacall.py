"""Calls through generated Java classes (harness/java/JCall.java), judged by MinkJavaTrace."""
import json, os, random, shutil, subprocess
from .common import *
from . import execx, front, glue, idl, tables
from .idl import PSIZE

CARRIER = {"uint8": "b", "int8": "b", "uint16": "c", "int16": "c", "uint32": "i", "int32": "i", "uint64": "l", "int64": "l", "float32": "f", "float64": "d"}
LABELS = {"op", "counts", "bi", "bo-size", "oi", "method", "in-null", "in", "in-obj", "cap", "status", "mem", "bo", "oo", "entered", "out", "out-obj", "order", "crash"}

def jtype(M, t):
    if t == "buffer": return "b"
    if t in CARRIER: return CARRIER[t]
    return "{" + f"{M.file[t]}${t};" + ";".join(f"{f['n']}*{f['c']}:{jtype(M, f['t'])}" for f in M.structs[t]["fields"]) + "}"

def quiet(M, t, img):
    """signalling NaNs may legitimately change when a JVM moves them: make them quiet"""
    img = bytearray(img)
    def go(t, o):
        if t in M.structs:
            for f in M.structs[t]["fields"]:
                for _ in range(f["c"]): o = go(f["t"], o)
            return o
        if t == "float32" and img[o + 3] & 127 == 127 and img[o + 2] & 128: img[o + 2] |= 64
        if t == "float64" and img[o + 7] & 127 == 127 and img[o + 6] & 240 == 240: img[o + 6] |= 8
        return o + (PSIZE[t] if t in PSIZE else 1)
    o = 0
    while o < len(img): o = go(t, o)
    return bytes(img)

class JCall:
    def __init__(s, M, I, S, own, m, r, status=0):
        s.M, s.I, s.S, s.m, s.status = M, I, S, m, status
        s.mode = r.randrange(16)
        s.vals = []
        x = execx.Call(M, I, own, m, r, S)
        outs = [k for k, q in enumerate(m["p"]) if q["d"] == "out"]
        skip = {r.choice(outs)} if outs and r.random() < .2 else set()
        for k, (q, v) in enumerate(zip(m["p"], x.vals)):
            if v["k"] != "o" and len(v["b"]): v["b"] = quiet(M, q["t"], v["b"])
            v["pre"] = 7 if k in skip else r.choice([0, 1, 2])
            s.vals.append(v)
    def lines(s, cid):
        out = [f"C {cid} {s.I} {s.S} {s.m['n']} {s.mode} {s.status} {len(s.vals)}"]
        for q, v in zip(s.m["p"], s.vals):
            i = v["d"] == "in"; hx = v["b"].hex() or "-"; ol = ",".join(map(str, v["o"])) or "-"
            cnt = (q["a"] if q["a"] > 0 else -1) if v["k"] == "o" else v["cap"]
            ty = "-" if v["k"] == "o" else jtype(s.M, q["t"])
            out.append(f"P {v['d'][0]} {v['k']} {v['z']} {cnt} {v['no']} {v['pre']} {ty} {hx if i else '-'} {ol if i else '-'} {'-' if i else hx} {'-' if i else ol} {v['n']}")
        return out
    def record(s, pi, ev):
        return dict(p=pi, i=s.I, m=s.m["n"], prov=not getattr(s, "unknown", False), st=s.status, v=[dict(b=list(a["b"]), o=a["o"], n=a["n"], cap=a["cap"], pre=a["pre"]) for a in s.vals], ev=ev)

def jvm(script, cls="JCall", timeout=800):
    h = tables.java_home(); f = os.path.join(scratch(f"jc{next(front._n)}"), "script")
    with open(f, "w") as w: w.write("\n".join(script) + "\n")
    p = subprocess.run(["java", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-Xss64m", "-Xmx2g", "-cp", h, cls, f], capture_output=True, timeout=timeout)
    evs = [json.loads(l) for l in p.stdout.decode().splitlines() if l.endswith("}")]
    if p.returncode or not evs or "end" not in evs[-1]: raise ToolError("java call driver: " + p.stderr.decode()[-1500:])
    os.remove(f)
    return evs[:-1]

def plan(M, r, per, fail=.08, statuses=None):
    cs = []
    for S in M.ifaces:
        sts = statuses(M, S) if statuses else (1, 2, 9, 10, 15, 99, -1)
        for own, m in M.methods(S):
            for _ in range(per):
                cs.append(JCall(M, r.choice([own, S, S]), S, own, m, r, r.choice(sts) if r.random() < fail else 0))
    return cs

def go(c, prop, exe, progs, r, per=2, labels=LABELS, flags=None, **kw):
    """generate, compile, call, judge; -> number of calls"""
    fl = flags or [()] * len(progs)
    tables.java_home()
    def gen(z):
        p, f = z; d = scratch(f"jt{next(front._n)}"); return d, *tables.java_generate(exe, p, d, f)
    gs = pmap(gen, list(zip(progs, fl)))
    plans = [plan(glue.Model(p), r, per, **kw) for p in progs]
    def play(idx):
        script, own, n = [], {}, 0
        for i in idx:
            if gs[i][2]: continue
            script.append("D " + gs[i][1])
            for x in plans[i]: n += 1; own[n] = (i, x, []); script += x.lines(n)
        if not script: return [], []
        evs = jvm(script)
        for e in evs:
            if "c" in e: own[e["c"]][2].append({k: v for k, v in e.items() if k != "c"})
        return [t for t in own.values() if t[2]], [e for e in evs if "d" in e and not e["ok"]]
    parts = chunks(list(range(len(progs))), NCPU)
    res = pmap(play, parts)
    c.stage("java calls played")
    for i, (d, o, e) in enumerate(gs):
        if e: c.violation("generate", e, dict(files=idl.render(progs[i]), error=e))
    byd = {g[1]: i for i, g in enumerate(gs)}
    for _, bad in res:
        for e in bad: i = byd[e["d"]]; c.violation("build:java", e["diag"][:500], dict(files=idl.render(progs[i]), error=e["diag"]))
    for d, _, _ in gs: shutil.rmtree(d, ignore_errors=True)
    items = [t for its, _ in res for t in its]
    random.Random(7).shuffle(items)
    ch = chunks(items, NCPU); data = []
    for q in ch:
        us = sorted({t[0] for t in q}); pos = {u: k + 1 for k, u in enumerate(us)}
        data.append({"progs.json": [idl.strip(progs[u]) for u in us], "calls.json": [x.record(pos[u], ev) for u, x, ev in q]})
    bad, tot = judge(c, "MinkJavaTrace", data)
    c.cov["traces_validated_against_impl"] += len(items)
    c.stage(f"judged {tot}")
    for b in bad:
        u, x, ev = ch[b["chunk"]][b["case"] - 1]
        ls = sorted(set(b["labels"]) & labels)
        if not ls: continue
        at = next((e for e in ev if e["ev"] == b["ev"]), {})
        c.violation(f"java:{b['ev']}:{'+'.join(ls)}", f"Java {x.I}.Proxy to {x.S}.MinkObject: {idl.r_member(x.m).strip()}: {b['ev']}: {ls} {at.get('err', '')}",
                    dict(files=idl.render(progs[u]), proxy=x.I, server=x.S, method=x.m["n"], mode=x.mode, status=x.status, vals=[dict(v, b=v["b"].hex()) for v in x.vals], events=ev, labels=b["labels"]))
    return items

def java_only(p):
    """the program without what the Java backend documents as unsupported: objects in structs"""
    M = glue.Model(p)
    bad = {n for n in M.structs if M.nobj(n)}
    if not bad: return p
    q = json.loads(json.dumps(p))
    for f in q["files"]:
        f["decls"] = [d for d in f["decls"] if not (d["k"] == "struct" and d["n"] in bad)]
        for d in f["decls"]:
            if d["k"] == "iface": d["m"] = [m for m in d["m"] if m["k"] != "method" or not any(x["t"] in bad for x in m["p"])]
    return q
