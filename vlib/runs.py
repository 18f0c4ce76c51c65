"""Logs of compiler executions for MinkRuns."""
import hashlib, random
from .common import *
from .front import *

def run_record(key, st, outs, err, mayempty=False, src=b""):
    return dict(key=key, st={OK: "ok", REJ: "rej", BAD: "bad"}[st], diag=bool(err.strip()),
                out=[dict(n=n, d=hashlib.sha256(b).hexdigest()[:24]) for n, b in sorted(outs.items())], mayempty=mayempty, src=list(src))

def judge_runs(c, recs, infos, label):
    """recs: run records; infos: parallel replay information.  Records with one key stay in one chunk."""
    order = sorted(range(len(recs)), key=lambda i: (hash_key(recs[i]["key"]), i))
    groups = {}
    for i in range(len(recs)): groups.setdefault(recs[i]["key"], []).append(i)
    buckets = [[] for _ in range(NCPU)]
    for n, g in enumerate(sorted(groups.values(), key=len, reverse=True)): min(buckets, key=len).extend(g)
    buckets = [b for b in buckets if b]
    ids = {k: n for n, k in enumerate(groups)}
    def enc(i): return dict(recs[i], key=f"k{ids[recs[i]['key']]}")
    bad, tot = judge(c, "MinkRuns", [{"runs.json": [enc(i) for i in b]} for b in buckets])
    c.cov["traces_validated_against_impl"] += len(recs)
    c.cov["distinct_inputs"] = c.cov.get("distinct_inputs", 0) + tot["keys"]
    for b in bad:
        i = buckets[b["chunk"]][b["case"] - 1]
        inf = infos[i]
        first = recs[groups[recs[i]["key"]][0]]
        c.violation(f"{b['why']}:{inf.get('hint','')}", f"{b['why']} ({label}; {inf.get('how','')}): {inf.get('err','')[-300:]}",
                    dict(inf, record=recs[i], first=first, first_how=infos[groups[recs[i]["key"]][0]].get("how")))

def hash_key(k): return hashlib.sha256(repr(k).encode()).hexdigest()
