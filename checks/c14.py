#!/usr/bin/env python3
"""C14: edits and flags without interface meaning."""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import random, copy, hashlib, itertools
from vlib.common import *
from vlib import idl, gen, tokens, lex, words
from vlib.idl import *
from vlib.front import *

DOCS = ["   * plain\n   ", " * @param[in] x  text\n * @param[out] y\n\n *  more\n ", "text without stars\n", "\t* tab\n\t", " * quotes \" and 'x' and \\ backslash\n",
        " * looks like code: method m(in uint32 x); #include <a.h>\n", " * // slashes and \\u12 and \\users\n", " * interface I { }; */".replace("*/", "* /") + "\n", "", "\n\n\n", " * a /* b\n", " * \u00fcml\u00e4ut \u4e16\n",
        " * CR\r\n * LF\n", "      * deep\n      ", "* long " + "x" * 300 + "\n", " * {@code x} <b>&amp;\n", " *\n *\n *\n", " * ends in backslash \\\n", "no newline at all"]
PLACES_OTHER = ["struct", "interface", "const", "error"]
MARKS = ["Copyright (c) Someone\n", "one\n\n\ntwo\n", "no newline at end", "tricky */ end\n", "// nested /* start\n", "ends in backslash \\\n", "\\u002a/ unicode\n", "crlf\r\nlines\r\n", "  \n", "#include \"x\"\n", "\u00fcml\u00e4ut\n", "*/\n*/\n", "a\\\\\n", "\\users\n"]

def with_docs(p, r):
    """a copy of p with other documentation on some methods; -> (q, methods that changed)"""
    q = copy.deepcopy(p); ch = []
    for f in q["files"]:
        for d in f["decls"]:
            if d["k"] != "iface": continue
            for m in d["m"]:
                if m["k"] == "method" and r.random() < .5:
                    m["doc"] = r.choice([x for x in DOCS if x] + [""]) if r.random() < .5 else words.doc(r, [m["n"], d["n"]] + [q["n"] for q in m["p"]]); ch.append(dict(i=d["n"], m=m["n"]))
    return q, ch

def inherited(p, ch):
    """derived interfaces repeat the inherited methods"""
    by = {d["n"]: d for f in p["files"] for d in f["decls"] if d["k"] == "iface"}
    out = list(ch)
    for n, d in by.items():
        b = d["b"]
        while b in by:
            out += [dict(i=n, m=x["m"]) for x in ch if x["i"] == b]
            b = by[b]["b"]
    return out

def noise_keep_docs(t, r):
    """white space and ordinary comments between tokens; documentation blocks stay"""
    parts = re.split(r"(/\*\*\r?\n.*?\*/)", t, flags=re.S)
    out = []
    for s in parts:
        if s.startswith("/**"): out.append(s + r.choice(["\n", " ", "\n\n\t"]))
        else:
            x = tokens.noise(tokens.tokens(s), r)
            if r.random() < .3: x = r.choice(tokens.COMMENTS) + x
            out.append(x)
    return "".join(out)

def comp(exe, fs, main, who, fl):
    d = put(fs)
    st, o, err = compile1(exe, d, main, who, extra=fl)
    shutil.rmtree(d, ignore_errors=True)
    return st, o, err

def dig(o): return [dict(n=n, d=hashlib.sha256(b).hexdigest()[:24]) for n, b in sorted(o.items())]
def toks(b, who): return lex.lex(b.decode("utf-8", "replace"), who.split("-")[0])
def enc(ts): return [dict(k=k, s=s) for k, s in ts]

def fn(c):
    exe = build_idlc(); c.stage("built")
    rng = random.Random(f"c14-{SEED}")
    n = 900 if THOROUGH else 150
    marks = []
    for _ in range(200 if THOROUGH else 40):
        MARKS.append(rng.choice(["\n", "\r\n", "\n\n"]).join(words.line(rng, ["Copyright (c)", "SPDX-License-Identifier: BSD-3-Clause", "2024", "#pragma once", "#ifndef X", "use std;", "import java;"]) for _ in range(rng.randint(1, 5))) + rng.choice(["\n", ""]))
    for k, m in enumerate(MARKS):
        f = os.path.join(scratch("marks"), f"m{k}.txt")
        with open(f, "w", newline="") as h: h.write(m)
        marks.append(f)
    jobs = []
    for k in range(n):
        g = gen.Gen(rng, methods=(1, 4), params=(0, 5), structs=(0, 3), ifaces=(1, 2), maxfiles=2, docs=False, shuffle=rng.random() < .3, objstruct=rng.random() < .3)
        p = g.prog()
        if k % 2: p, _ = with_docs(p, rng)
        jobs.append((k, p, rng.random()))
    def one(j):
        k, p, sd = j
        r = random.Random(sd); recs = []
        fs = idl.render(p); main = p["files"][p["main"] - 1]["name"] + ".idl"
        objs = [d["n"] for f in p["files"] for d in f["decls"] if d["k"] == "iface"]
        whos = LANGS if THOROUGH or k % 3 == 0 else r.sample(LANGS, 3)
        ws = [{f: noise_keep_docs(t, r) for f, t in fs.items()} for _ in range(2)]
        dq, ch = with_docs(p, r); ch = inherited(p, ch); dfs = idl.render(dq)
        # documentation in front of something that is not a method
        def strays(t):
            parts = re.split(r"(/\*\*\r?\n.*?\*/)", t, flags=re.S)
            return "".join(x if x.startswith("/**") else re.sub(r"^(\s*)(struct|interface|const|error) ", lambda m: (m.group(1) + "/**\n" + r.choice([" * stray\n ", words.doc(r)]) + "*/\n" if r.random() < .5 else m.group(1)) + m.group(2) + " ", x, flags=re.M) for x in parts)
        ofs = {f: strays(t) for f, t in fs.items()}
        mk = r.sample(range(len(marks)), 3)
        for who in whos:
            st, a, err = comp(exe, fs, main, who, [])
            if st != OK: continue
            def rec(st2, b, err2, how, fs2, mkrec):
                info = dict(who=who, how=how, files=fs, edited=fs2, a={n: x.decode("utf-8", "replace")[:20000] for n, x in a.items()},
                            b={n: x.decode("utf-8", "replace")[:20000] for n, x in b.items()}, err=err2[-300:])
                if st2 != OK: recs.append((None, dict(info, st=st2))); return
                if sorted(a) != sorted(b): recs.append((dict(rel="same", fa=dig(a), fb=dig(b)), info)); return
                for x in mkrec(b): recs.append((x, info))
            for w in ws:
                rec(*comp(exe, w, main, who, []), "whitespace", w, lambda b: [dict(rel="same", fa=dig(a), fb=dig(b))])
            def docrec(b):
                out = []
                for f in a:
                    if a[f] == b[f]: continue
                    x, y = lex.trim(toks(a[f], who), toks(b[f], who))
                    out.append(dict(rel="doc", a=enc(x), b=enc(y), ms=ch))
                return out or [dict(rel="same", fa=dig(a), fb=dig(b))]
            rec(*comp(exe, dfs, main, who, []), "documentation", dfs, docrec)
            def stray(b):
                # every method may follow a stray documentation block
                al = [dict(i=d["n"], m=m["n"]) for f in p["files"] for d in f["decls"] if d["k"] == "iface" for m in d["m"] if m["k"] == "method"]
                al = inherited(p, al); out = []
                for f in a:
                    if a[f] == b[f]: continue
                    x, y = lex.trim(toks(a[f], who), toks(b[f], who)); out.append(dict(rel="doc", a=enc(x), b=enc(y), ms=al))
                return out or [dict(rel="same", fa=dig(a), fb=dig(b))]
            rec(*comp(exe, ofs, main, who, []), "stray documentation", ofs, stray)
            for m in mk:
                rec(*comp(exe, fs, main, who, ["--marking", marks[m]]), f"marking {MARKS[m]!r}", fs,
                    lambda b: [dict(rel="marking", suffix=b[f].endswith(a[f]), prefix=enc(toks(b[f][:len(b[f]) - len(a[f])], who)) if b[f].endswith(a[f]) else []) for f in a])
            if who.startswith("c") and not who.startswith("cpp"):
                def unt(b):
                    out = []
                    for f in a:
                        x, y = toks(a[f], who), toks(b[f], who)
                        if len(x) == len(y): z = [(s, t) for s, t in zip(x, y) if s != t]; x, y = [s for s, _ in z], [t for _, t in z]
                        else: x, y = lex.trim(x, y, 4, 6)
                        out.append(dict(rel="untyped", a=enc(x), b=enc(y), objs=objs))
                    return out
            else:
                unt = lambda b: [dict(rel="same", fa=dig(a), fb=dig(b))]
            rec(*comp(exe, fs, main, who, ["--no-typed-objects"]), "untyped objects", fs, unt)
        return recs
    res = [x for y in pmap(one, jobs) for x in y]
    c.stage(f"{len(res)} pairs of compilations")
    for r, info in res:
        if r is None:
            key = f"refused:{info['who']}:{info['how'].split()[0]}"
            c.violation(key, f"an edit without meaning ({info['how']}) is refused by {info['who']}: {info['err']}", info)
    pr = [x for x in res if x[0]]
    idx = list(range(len(pr))); random.Random(4).shuffle(idx)
    ch = chunks(idx, NCPU)
    bad, tot = judge(c, "MinkSource", [{"pairs.json": [pr[i][0] for i in x]} for x in ch])
    c.cov["traces_validated_against_impl"] += len(pr)
    by = {}
    for r, info in pr: by[r["rel"]] = by.get(r["rel"], 0) + 1
    c.cov["pairs_by_relation"] = by
    for b in bad:
        r, info = pr[ch[b["chunk"]][b["case"] - 1]]
        c.violation(f"{info['who']}:{info['how'].split()[0]}:{r['rel']}", f"{info['who']}, {info['how']}: output changed in more than it may ({r['rel']})", dict(info, rec=r))
    c.sample(dict(who=pr[0][1]["who"], how=pr[0][1]["how"], edited=pr[0][1]["edited"]))
    d = [x for x in pr if x[0]["rel"] == "doc"]
    if d: c.sample(dict(who=d[0][1]["who"], ms=d[0][0]["ms"], a=d[0][0]["a"][:10], b=d[0][0]["b"][:10]))

if __name__ == "__main__":
    main("C14", fn)
