"""Token-level texts: lexing rendered IDL, mutating token sequences, printing them back."""
import re
from . import words
from .idl import PRIMS

SYMS = ["{", "};", "(", ");", "[", "]", ";", ",", "=", ":", "#[optional]", "}", ")", "#[other]", "#", "@", "->"]
KWS = ["include", "interface", "struct", "const", "error", "method", "in", "out", "buffer"] + PRIMS
JUNK = ["1.", ".5", "0x", "--1", "+1", "1e5", "0X1F", "1_000", "'a'", "_x", "\"s\"", "é", "\\"]
RE = re.compile(r'//[^\n]*|/\*.*?\*/|"[^"]*"|#\[optional\]|\};|\);|-?0x[0-9a-fA-F]+|-?\d+(?:\.\d+)?|[A-Za-z][A-Za-z0-9_]*|\S', re.S)

def tok(s):
    if s.startswith('"'): return dict(k="path" if s.endswith('.idl"') and len(s) > 6 else "junk", s=s)
    if re.fullmatch(r"\d+", s): return dict(k="dec", s=s)
    if re.fullmatch(r"-?0x[0-9a-fA-F]+|-?\d+(\.\d+)?", s): return dict(k="num", s=s)
    if re.fullmatch(r"[A-Za-z][A-Za-z0-9_]*", s): return dict(k="id", s=s)
    return dict(k="sym" if s in SYMS else "junk", s=s)
def tokens(t): return [tok(x) for x in RE.findall(t) if not x.startswith(("//", "/*"))]
def text(ts, sep=lambda: " "): return "".join(t["s"] + sep() for t in ts) + "\n"

def mutate(ts, r):
    ts = list(ts)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        x = r.random(); i = r.randrange(len(ts))
        if x < .3: del ts[i]
        elif x < .5: ts.insert(i, ts[r.randrange(len(ts))])
        elif x < .65:
            j = r.randrange(len(ts)); ts[i], ts[j] = ts[j], ts[i]
        elif x < .8: ts[i] = tok(r.choice(SYMS))
        elif x < .9: ts[i] = tok(r.choice(KWS))
        else: ts[i] = tok(r.choice(JUNK + ["12", "0x1F", "-3", "1.5", "name"]))
        if not ts: break
    return ts

COMMENTS = ["// c\n", "/* c */", "/* a\n b */", "// interface X {\n", "/* method; \" */", "\n", "\t", "\r\n", "  ", "\n\n//\n", "/***/", "// /* x\n"]
BLANKS = [" ", "\n", "\t", "\r\n", "  ", "\r"]
def noise(ts, r, p=.35):
    """the same tokens with arbitrary white space and ordinary comments between them.  The grammar
    asks for a white-space character after a keyword, and for nothing but white space between
    `include` and its path and between an attribute and what follows it."""
    out = []
    for t in ts:
        out.append(t["s"])
        if t["s"] in ("include", "#[optional]"):
            out.append(r.choice(BLANKS))
            while r.random() < p: out.append(r.choice(BLANKS))
            continue
        out.append(r.choice(BLANKS) if t["k"] != "sym" or r.random() < .6 else "")
        while r.random() < p: out.append(r.choice(COMMENTS) if r.random() < .6 else words.comment(r))
        if t["k"] in ("id", "dec", "num"): out.append(" ")
    return "".join(out) + "\n"
