"""Builds the generated code of a program with its glue and runs scripts of calls on it."""
import os, subprocess, shutil, json, random, copy, itertools, re, threading
from .common import *
from . import idl, glue, front
from .idl import PRIMS, PSIZE

HX = os.path.join(VERIF, "harness", "exec")
INC_C = os.path.join(REPO, "tests", "c"); INC_CPP = os.path.join(REPO, "tests", "cpp")
OBJ_RS = os.path.join(REPO, "tests", "src", "object")
BACKENDS = ["c", "cpp", "rust"]

_drv = None
_lock = threading.Lock()
def driver():
    with _lock: return _driver()
def _driver():
    global _drv
    if _drv is None:
        _drv = os.path.join(tmpdir(), "hzdriver")
        p = subprocess.run(["gcc", "-O1", "-w", "-rdynamic", "-I", HX, "-I", INC_C, os.path.join(HX, "driver.c"), "-o", _drv, "-ldl"], capture_output=True, text=True)
        if p.returncode: raise ToolError("driver does not build:\n" + p.stderr[-2000:])
    return _drv

class Unit:
    """the generated code of one program, built"""
    def __init__(s, prog, dir, M): s.prog, s.dir, s.M, s.libs, s.fail = prog, dir, M, {}, {}

def sh(cmd, cwd, timeout=300, env=None):
    rc, so, se = run(cmd, timeout=timeout, cwd=cwd, env=env)
    return rc, (so + se).decode("utf-8", "replace")

def generate(exe, prog, d, flags=(), backends=BACKENDS):
    """idlc output of every file into d; -> error text per backend"""
    os.makedirs(d, exist_ok=True)
    front.put(idl.render(prog), d)
    M = glue.Model(prog); err = {}
    os.makedirs(os.path.join(d, "rs", "interfaces"), exist_ok=True)
    for n in glue.names(M):
        src = os.path.join(d, n + ".idl")
        for b in backends:
            jobs = {"c": [["--c", "-o", f"{n}.h"], ["--c", "--skel", "-o", f"{n}_invoke.h"]],
                    "cpp": [["--cpp", "-o", f"{n}.hpp"], ["--cpp", "--skel", "-o", f"{n}_invoke.hpp"]],
                    "rust": [["--rust", "-o", "rs/interfaces"]]}[b]
            for j in jobs:
                rc, out = sh([exe, src] + j + list(flags), d, 120)
                if rc != 0: err.setdefault(b, f"idlc {' '.join(j)} rc={rc}: {out[-400:]}")
    return M, err

def build(exe, prog, flags=(), backends=BACKENDS, d=None, cc="clang", glue_text=None):
    d = d or scratch(f"unit{next(front._n)}")
    M, err = generate(exe, prog, d, flags, backends)
    u = Unit(prog, d, M); u.fail.update(err)
    for b in backends:
        if b in u.fail: continue
        compile_unit(u, b, cc)
    return u

def compile_unit(u, b, cc="clang"):
    d = u.dir
    so = os.path.join(d, f"{b}.so")
    for attempt in (0, 1):
        if b == "rust":
            mods = sorted(f[:-3] for f in os.listdir(os.path.join(d, "rs", "interfaces")) if f.endswith(".rs"))
            with open(os.path.join(d, "rs", "lib.rs"), "w") as f: f.write(glue.rust_file(u.M, mods, OBJ_RS))
            rc, out = sh(["rustc", "--edition", "2021", "--crate-type", "cdylib", "--cfg", 'feature="std"', "-C", "debuginfo=0", "-C", "opt-level=0", "-A", "warnings",
                          "rs/lib.rs", "-o", so], d, env=cargo_env())
        else:
            cpp = b == "cpp"; f = os.path.join(d, "glue." + ("cpp" if cpp else "c"))
            with open(f, "w") as h: h.write(glue.c_file(u.M, cpp))
            cmd = [("clang++" if cpp else "clang") if cc == "clang" else ("g++" if cpp else "gcc")]
            cmd += (["-std=gnu++17", "-include", "cstdint", "-include", "atomic", "-I", INC_CPP] if cpp else []) + ["-w", "-O1", "-fPIC", "-shared", "-fvisibility=hidden", "-I", ".", "-I", HX, "-I", INC_C, f, "-o", so]
            rc, out = sh(cmd, d)
        if rc == 0: u.libs[b] = so; return
        if attempt == 0 and (rc == "timeout" or rc < 0): continue
        errs = [l for l in out.splitlines() if "error" in l]
        u.fail[b] = f"{b} does not build: " + " | ".join(errs[:3])[:700] + (out[-300:] if not errs else "")
        return

# ------------------------------------------------------------------------------------ values

CORNER = [b"\x00", b"\xff", b"\x7f", b"\x80", b"\x01"]
def rbytes(r, n):
    x = r.random()
    if x < .12: return bytes(n)
    if x < .22: return b"\xff" * n
    return bytes(r.randrange(256) for _ in range(n))

def blank(M, t, img):
    """zero the object slots of an image of type t"""
    img = bytearray(img)
    def go(t, off):
        if t in M.structs:
            for f in M.structs[t]["fields"]:
                for _ in range(f["c"]): off = go(f["t"], off)
            return off
        if t not in PSIZE: img[off:off + 16] = bytes(16)
        return off + M.size(t)
    go(t, 0)
    return bytes(img)

class Call:
    """one call: values for every parameter"""
    def __init__(s, M, I, own, m, r, srv_if=None, status=None, small=False, objpat=None):
        s.M, s.I, s.own, s.m = M, I, own, m
        s.S = srv_if or I
        s.mode = 0; s.status = 0 if status is None else status
        s.vals = []
        for q in m["p"]:
            k, z, no = M.kind(q); out = q["d"] == "out"
            pick = lambda: r.choice([0, 1, 2, 3, 4, 1, 2]) if objpat is None else objpat(r)
            v = dict(k=k, d=q["d"], z=z, no=no, b=b"", o=[pick() for _ in range(no)] if no else [], n=0, cap=0, pre=0)
            if k == "f":
                v["b"] = blank(M, q["t"], rbytes(r, z)); v["n"] = 1
            if k == "b":
                v["n"] = r.choice([0, 1, 2, 3, 3, 5, 8, 17]) if not small else r.choice([0, 1, 2])
                if r.random() < .04 and z <= 8: v["n"] = r.randint(40, 300)
                v["b"] = rbytes(r, v["n"] * z)
                v["cap"] = v["n"] + r.choice([0, 0, 0, 1, 2, 7]) if out else v["n"]
            if no and out and k == "o" and r.random() < .4: v["pre"] = r.choice([0, 1, 2, 3])
            s.vals.append(v)
    def line(s, cid, cli):
        out = [f"C {cid} {cli} {s.I} {s.m['n']} {s.mode} {s.status} {len(s.vals)}"]
        return out + [pline(v, cli) for v in s.vals]

def preid(v, cli):
    """what the caller's output variable holds before: C++ an object, C anything"""
    return 0 if not v["pre"] or cli.startswith("rust") else v["pre"] if cli.startswith("cpp") else 9

def pline(v, cli):
    hx = v["b"].hex() or "-"; ol = ",".join(map(str, v["o"])) or "-"
    cnt = v["cap"] if v["d"] == "out" else v["n"]
    pre = preid(v, cli)
    i = v["d"] == "in"
    return f"P {v['k']} {v['d'][0]} {v['z']} {cnt} {v['no']} {pre} {hx if i else '-'} {ol if i else '-'} {'-' if i else hx} {'-' if i else ol} {v['n']}"

def run_script(u, lines, timeout=240):
    cmd = [driver()] + [f"{b}={p}" for b, p in u.libs.items()]
    p = subprocess.run(cmd, input=("\n".join(lines) + "\n").encode(), capture_output=True, timeout=timeout, env=cargo_env())
    if p.returncode: raise ToolError(f"driver rc={p.returncode}: {p.stderr[-800:]!r}")
    return [json.loads(l) for l in p.stdout.decode("utf-8", "replace").splitlines() if l.endswith("}")]

# ------------------------------------------------------------------------------------ judging

PROP = {   # which property a failing condition belongs to
    "op": {"C02", "C07"}, "counts": {"C02"}, "bi": {"C03", "C06"}, "bo-size": {"C03", "C06"}, "oi": {"C02", "C03"},
    "entered": {"C01", "C06", "C02", "C04"}, "method": {"C01", "C07"}, "in": {"C01", "C06"}, "in-obj": {"C01"}, "in-len": {"C01"}, "cap": {"C01"},
    "status": {"C01", "C02", "C08"}, "refusal": {"C04"}, "reached": {"C04", "C15"}, "mem": {"C01", "C03", "C04"}, "bo": {"C03"}, "oo": {"C03", "C05"},
    "proxy-refs": {"C05"}, "in-taken": {"C05"}, "refs": {"C05"}, "out": {"C01", "C06"}, "out-obj": {"C01"}, "out-len": {"C01"},
    "adopted": {"C05"}, "leak": {"C05"}, "order": {"C01", "C02"}, "crash": {"C01", "C06", "C02", "C03", "C04", "C05", "C07", "C08"},
}

class Group:
    """calls served by one server object, in one process"""
    def __init__(s, srv, bare, S): s.srv, s.bare, s.S, s.calls = srv, bare, S, []
    def add(s, cli, call): s.calls.append((cli, call))

def play(u, groups):
    """-> records of the calls of one unit: (record, info)"""
    lines, idx, cid = [], {}, 0
    for gi, g in enumerate(groups):
        lines.append(f"G {gi} {g.srv} {int(g.bare)} {g.S}")
        for cli, x in g.calls:
            cid += 1; idx[cid] = (g, cli, x, [], gi); lines += x.line(cid, cli)
        lines.append("E")
    evs = run_script(u, lines)
    tail = {}
    for e in evs:
        if e["c"] in idx and e["ev"] != "end": idx[e["c"]][3].append(e)
        elif e["ev"] == "end": tail[idx[e["c"]][4]] = e
        else: tail[e.get("g", -1)] = e
    return idx, tail

def record(pi, g, cli, x, ev, end):
    v = []
    for a in x.vals:
        pre = preid(a, cli)
        v.append(dict(b=list(a["b"]), o=a["o"], n=a["n"], cap=a["cap"], pre=pre))
    prov = not (g.bare and x.m["opt"]) and not getattr(x, "unknown", False)
    ev = [{k: w for k, w in e.items() if k != "c"} for e in ev]
    return dict(p=pi, i=x.I, m=x.m["n"], prov=prov, st=x.status, v=v, ev=ev)

def judge_calls(c, prop, units, plans, also=()):
    """units: built programs; plans: groups per unit.  Plays, judges, reports."""
    def one(z): return play(*z)
    res = pmap(one, [(u, gs) for u, gs in zip(units, plans)])
    c.stage("played")
    items = []
    for ui, (idx, tail) in enumerate(res):
        for cid, (g, cli, x, ev, gi) in idx.items():
            items.append((ui, g, cli, x, ev, gi, tail.get(gi)))
    items = [t for t in items if t[4] or t[6] is None or t[6]["ev"] != "end"]
    # a crashed process takes the calls after it along: judge only those that began
    items = [t for t in items if t[4]]
    return judge_items(c, prop, units, items, res)

def judge_items(c, prop, units, items, res=None):
    random.Random(7).shuffle(items)
    ch = chunks(list(range(len(items))), NCPU * 1)
    data = []
    for q in ch:
        us = sorted({items[i][0] for i in q}); pos = {u: k + 1 for k, u in enumerate(us)}
        data.append({"progs.json": [idl.strip(units[u].prog) for u in us],
                     "calls.json": [record(pos[items[i][0]], *items[i][1:5], items[i][6]) for i in q]})
    bad, tot = judge(c, "MinkCallTrace", data)
    c.cov["traces_validated_against_impl"] += len(items)
    c.stage(f"judged {tot}")
    out = []
    for b in bad:
        it = items[ch[b["chunk"]][b["case"] - 1]]
        out.append((b, it))
    return out

def report(c, prop, units, out):
    for b, (ui, g, cli, x, ev, gi, end) in out:
        ls = [l for l in b["labels"] if prop in PROP[l]]
        if not ls: continue
        key = f"{cli}-{g.srv}:{b['ev']}:{'+'.join(sorted(ls))}"
        what = f"{cli} stub, {g.srv} skeleton, {x.I}.{x.m['n']}({', '.join(idl.r_param(q) for q in x.m['p'])}): {b['ev']}: {sorted(ls)}"
        c.violation(key, what, dict(files=idl.render(units[ui].prog), iface=x.I, server=g.S, method=x.m["n"], cli=cli, srv=g.srv, bare=g.bare, mode=x.mode, status=x.status,
                                    vals=[dict(v, b=v["b"].hex()) for v in x.vals], events=ev, end=end, labels=b["labels"], at=b["ev"]))

def report_builds(c, units):
    for u in units:
        for b, e in u.fail.items():
            c.violation(f"build:{b}", e, dict(files=idl.render(u.prog), error=e))
