"""Compiling file sets in many ways and having MinkAccept judge the decisions."""
import json, random
from .common import *
from . import idl, tokens
from .front import *

def observe(cs, exe, lib, whos=None):
    """fill in c['runs']"""
    def one(cse):
        if cse["kind"] == "prog":
            fs = cse.get("files") or idl.render(cse["p"]); main = cse["p"]["files"][cse["p"]["main"] - 1]["name"] + ".idl"
        else:
            fs = {"t.idl": tokens.text(cse["ts"])}; main = "t.idl"
        d = put(fs)
        runs = []
        for w in (cse.get("whos") or whos or LANGS + ["lib"]):
            ex = ["--allow-undefined-behavior"] if cse.get("ub") else []
            ex += cse.get("flags", [])
            incs = [os.path.join(d, x) for x in cse.get("incdirs", [])]
            if w == "lib":
                if cse.get("ub"): continue
                st, o, err = lib1(lib, d, main, [d] + incs)
            else:
                st, o, err = compile1(exe, d, main, w, incs=incs, extra=ex, timeout=cse.get("timeout", 60))
            runs.append(dict(who=w, acc=st == OK and (len(o) == 1 or w in ("rust", "java", "lib")), st=st, err=err[-800:], nout=len(o)))
        shutil.rmtree(d, ignore_errors=True)
        cse["runs"] = runs; cse["files"] = fs
        return cse
    return pmap(one, cs)

def spec_case(cse):
    r = [dict(who=x["who"], acc=x["acc"]) for x in cse["runs"]]
    if cse["kind"] == "prog": return dict(kind="prog", p=idl.strip(cse["p"]), ub=bool(cse.get("ub")), runs=r)
    return dict(kind="text", ts=cse["ts"], runs=r)

def judge_cases(c, cases, exe, lib, sound, complete):
    cases = observe(cases, exe, lib)
    c.stage("compiled")
    for cse in cases:
        for r in cse["runs"]:
            if r["st"] == BAD:
                c.violation(f"crash:{cse['hint']}:{r['who']}", f"compiler crashed or hung: {r['err'][-300:]}", dict(files=cse["files"], who=r["who"]))
    idx = list(range(len(cases)))
    rs = random.Random(5); rs.shuffle(idx)
    ch = chunks(idx, NCPU)
    bad, tot = judge(c, "MinkAccept", [{"cases.json": [spec_case(cases[i]) for i in x], "want.json": dict(sound=sound, complete=complete)} for x in ch])
    c.stage("judged " + json.dumps(tot))
    c.cov["traces_validated_against_impl"] += sum(len(x["runs"]) for x in cases)
    c.cov["file_sets_lawful"] = c.cov.get("file_sets_lawful", 0) + tot["accepted"]
    c.cov["file_sets_unlawful"] = c.cov.get("file_sets_unlawful", 0) + tot["refused"]
    hints = dict(c.cov.get("by_kind") or {})
    for x in cases: hints[x["hint"]] = hints.get(x["hint"], 0) + 1
    c.cov["by_kind"] = hints
    for x in cases[:2]: c.sample(dict(files=x["files"], runs=[(r["who"], r["acc"]) for r in x["runs"]]))
    for b in bad:
        cse = cases[ch[b["chunk"]][b["case"] - 1]]; r = cse["runs"][b["run"] - 1]
        lab = ",".join(sorted(b["viol"])) or "lawful"
        c.violation(f"{r['who']}:{lab}", f"{r['who']} {'accepted' if r['acc'] else 'refused'} a file set that violates {{{lab}}} (injected: {cse['hint']}): {r['err'][-250:]}",
                    dict(files=cse["files"], who=r["who"], ub=cse.get("ub"), violates=b["viol"], accepted=r["acc"], stderr=r["err"]))

