"""Append-only revisions of a program: members appended to interfaces, declarations added to files."""
import copy, random
from .common import *
from . import gen, glue, idl
from .idl import *

class Rev:
    """a history of revisions; grown: the interfaces that got members"""
    def __init__(s, prog, r, objstruct=True):
        s.r, s.progs, s.steps, s.n = r, [prog], [], 0
        s.g = gen.Gen(r, objstruct=objstruct); s.objstruct = objstruct
    def name(s, pre):
        s.n += 1
        return f"{pre}{s.r.choice(['zz', 'aa', 'Aa', 'mm', '_'])}Rev{len(s.progs)}{s.n}"
    def step(s, leaf=False, kinds=None):
        r = s.r; p = copy.deepcopy(s.progs[-1]); M = glue.Model(p); fs = p["files"]
        ifs = [(d, f) for f in fs for d in f["decls"] if d["k"] == "iface"]
        base = {d["b"] for d, _ in ifs}
        k = r.choice(kinds or ["method", "method", "method", "error", "const", "struct", "iface", "fconst", "derive"])
        if k in ("method", "error", "const"):
            c = [z for z in ifs if z[0]["n"] not in base] if leaf else ifs
            if not c: return
            d, f = r.choice(c); n = d["n"]
            # what the file of the interface sees
            vis = visible(p, fs.index(f))
            for _ in range(r.choice([1, 1, 2, 4])):
                if k == "error": m = error(s.name("E"))
                elif k == "const": t = s.g.prim(); m = const(s.name("K"), t, s.g.constval(t))
                else:
                    ss = [(q, M.size(q), 8, M.nobj(q)) for q in vis if q in M.structs]
                    oo = ["interface"] + [q for q in vis if q in M.ifaces]
                    m = method(s.name("m"), s.g.mkparams(ss, oo, r.randint(0, 5)), opt=r.random() < .25)
                d["m"].append(m)
            s.steps.append((k, n))
        else:
            f = r.choice(fs); vis = visible(p, fs.index(f))
            if k == "struct": d = struct(s.name("S"), [field("uint64", "a"), field(r.choice(["uint32", "int32"]), "b", 2)] if r.random() < .5 else [field("uint8", "q", r.randint(1, 9))])
            elif k == "fconst": t = s.g.prim(); d = const(s.name("K"), t, s.g.constval(t))
            elif k == "iface": d = iface(s.name("I"), [method(s.name("m"), [param("in", "uint32", "x"), param("out", "buffer", "y")])])
            else:
                c = [q for q in vis if q in M.ifaces]
                if not c: return
                d = iface(s.name("I"), [error(s.name("E")), method(s.name("m"), [param("in", "buffer", "x")])], r.choice(c))
            f["decls"].insert(r.randint(0, len(f["decls"])), d)
            s.steps.append((k, d["n"]))
        s.progs.append(p)

def visible(p, fi):
    seen, todo = set(), [fi]
    while todo:
        i = todo.pop()
        if i in seen: continue
        seen.add(i); todo += [x - 1 for x in p["files"][i]["incs"]]
    return [d["n"] for i in sorted(seen) for d in p["files"][i]["decls"]]

def grown(a, b):
    """interfaces of a with more members in b"""
    la = {d["n"]: len(d["m"]) for f in a["files"] for d in f["decls"] if d["k"] == "iface"}
    lb = {d["n"]: len(d["m"]) for f in b["files"] for d in f["decls"] if d["k"] == "iface"}
    return {n for n in la if lb[n] > la[n]}

def stable(a, b):
    """interfaces of a no strict ancestor of which has grown: their old members keep their numbers"""
    M = glue.Model(a); g = grown(a, b)
    return [n for n in M.ifaces if not (set(M.chain(n)) - {n}) & g]

# ------------------------------------------------------------------------- fragments of generated text
import hashlib, re
TOK = re.compile(r'//[^\n]*|/\*.*?\*/|"(?:[^"\\\n]|\\.)*"|\'(?:[^\'\\\n]|\\.)\'|[A-Za-z_0-9.]+|\s+|.', re.S)
WORD = re.compile(r'//[^\n]*|/\*.*?\*/|"(?:[^"\\\n]|\\.)*"|\'(?:[^\'\\\n]|\\.)\'', re.S)
GROW = {"macro", "class", "interface", "enum", "impl", "trait", "mod", "switch", "match", "extern", "namespace"}

def tokens(text):
    """one token per word or sign; a preprocessor line is one token, and a continued one the tokens of its lines"""
    # a comment is one word, whatever it looks like inside
    text = WORD.sub(lambda m: "/*" + hashlib.md5(m.group(0).encode()).hexdigest() + "*/" if m.group(0)[:2] in ("//", "/*") else m.group(0), text)
    out = []; lines = text.split("\n"); i = 0; buf = []
    def flush():
        if buf: out.extend(t for t in TOK.findall("\n".join(buf)) if not t.isspace()); buf.clear()
    cont = False
    for l in lines:
        more = l.endswith("\\")
        body = l[:-1].rstrip() if more else l
        if body.lstrip().startswith("#") and not cont and not body.lstrip().startswith("#["):
            flush(); out.append(("#{" if more else "#", " ".join(body.split())))
        else: buf.append(body)
        if cont and not more: flush(); out.append(("#}", ""))
        cont = more
    flush()
    return out

class Node:
    def __init__(s, head): s.head, s.kids = head, []

def tree(ts):
    root = Node([]); st = [root]; cur = []; par = 0
    def end():
        if cur: st[-1].kids.append(list(cur)); cur.clear()
    for t in ts:
        if isinstance(t, tuple):
            end()
            if t[0] == "#": st[-1].kids.append([t[1]])
            elif t[0] == "#{": n = Node(["macro", t[1]]); n.par = 0; par = 0; st[-1].kids.append(n); st.append(n)
            else:
                while len(st) > 1 and st[-1].head[:1] != ["macro"]: st.pop()
                if len(st) > 1: st.pop()
                par = 0
            continue
        if t.startswith("__compiler_pragma"): end(); st[-1].kids.append([t]); continue
        if t[:2] in ("//", "/*"):
            if cur: cur.append(t)
            else: st[-1].kids.append([t])
            continue
        if t in "([": par += 1
        if t in ")]": par -= 1
        if t == "{":
            n = Node(list(cur)); cur.clear(); st[-1].kids.append(n); n.par = par; par = 0; st.append(n)
        elif t == "}":
            end()
            if len(st) > 1: par = st.pop().par
        elif t == ";" and par == 0: end()
        elif t == ":" and len(cur) == 1 and cur[0] in ("public", "protected", "private"): end()
        elif t == "," and par == 0 and (not cur or {"enum", "match"} & set(st[-1].head)): end()
        else: cur.append(t)
    end()
    return root

def flat(n):
    o = list(n.head) + ["{"]
    for k in n.kids: o += flat(k) if isinstance(k, Node) else k + [";"]
    return o + ["}"]

def fragments(text, methods):
    """-> [(path, ordered, text)]"""
    out = []
    def named(h): return any(t in methods or any(t.endswith("_" + m) or t == "r#" + m for m in methods) for t in h)
    def branches(n): return any(isinstance(k, Node) and (set(k.head[:1]) & {"switch", "match"} or "match" in k.head or branches(k)) for k in n.kids)
    def arm(n): return n.head[:1] in (["case"], ["default"]) or n.head[-2:] == ["=", ">"]
    def opened(n):
        if arm(n): return False
        if GROW & set(n.head) and "fn" not in n.head: return True
        return branches(n) and not named(n.head)
    def go(n, path):
        o = bool({"switch", "match", "enum"} & set(n.head)) or path.endswith("!")
        for k in n.kids:
            if not isinstance(k, Node): out.append((path, o, " ".join(k)))
            elif opened(k):
                h = " ".join(k.head); out.append((path, o, h + " {"))
                go(k, path + "/" + h + ("" if GROW & set(k.head) else "!"))
            else: out.append((path, o, " ".join(flat(k))))
    go(tree(tokens(text)), "")
    return out

def align(old, new):
    """for every fragment of old the position of the one of new that stands for it (0: none)"""
    where, last, used = {}, {}, {}
    for j, (p, o, t) in enumerate(new): where.setdefault((p, t), []).append(j + 1)
    w = []
    for p, o, t in old:
        c = where.get((p, t), [])
        lo = last.get(p, 0) if o else 0
        k = next((j for j in c if j > lo and j not in used), 0)
        if k: used[k] = 1
        if o and k: last[p] = k
        w.append(k)
    return w

IDENT = re.compile(r"[A-Za-z_][A-Za-z_0-9]*")
def mentions(text, names):
    """interfaces whose names the identifiers of a text are made with"""
    out = set()
    for t in set(IDENT.findall(text)):
        l = t.lower()
        for n in names:
            k = n.lower()
            if l == k or l.startswith(k + "_") or l.startswith(k) or l.startswith("i" + k): out.add(n)
    return sorted(out)
