"""Interface hierarchies: chains and trees over several files, members interleaved."""
import random
from . import gen, glue
from .idl import *

def hierarchy(r, errs, meths, consts, depth, width, params=False, opt=True):
    """depth: levels of the deepest chain; width: interfaces per level, some of them roots of their own"""
    g = gen.Gen(r, objstruct=False)
    fs = [file("f0_" + r.choice("aB"), [struct("SP", [field("uint32", "a"), field("uint16", "b", 2)])])]; prev = []
    style = r.choice(["plain", "plain", "case", "num"])
    nm = [0]
    def name(pre):
        nm[0] += 1
        return {"plain": f"{pre}{g.name('')}", "case": f"{pre}{r.choice(['Ab', 'aB', 'x_', 'Z'])}{nm[0]}", "num": f"{pre}{nm[0]}"}[style]
    for lv in range(depth):
        cur = []
        for w in range(width if lv else max(1, width - 1)):
            base = r.choice(prev) if prev and (w == 0 or r.random() < .7) else ""
            ms = [error(name("E")) for _ in range(r.randint(*errs))] + [const(name("K"), *(lambda t: (t, g.constval(t)))(g.prim())) for _ in range(r.randint(*consts))]
            for _ in range(r.randint(*meths)):
                ps = g.mkparams([("SP", 8, 4, 0)], ["interface"], r.randint(0, 4)) if params and r.random() < .6 else []
                ms.append(method(name("m"), ps, opt=opt and r.random() < .12))
            if r.random() < .15: ms = []
            r.shuffle(ms)
            cur.append(iface(name("I"), ms, base))
        # a level goes into the last file or opens another one
        if lv and r.random() < .5: fs.append(file(f"f{len(fs)}_{r.choice('xY')}", [], [len(fs)]))
        ds = fs[-1]["decls"] + cur
        if r.random() < .4: r.shuffle(ds)     # declarations need no order
        fs[-1]["decls"] = ds
        prev = [d["n"] for d in cur] + (prev if r.random() < .3 else [])
    return program(fs, len(fs))

def java_unsupported(p):
    M = glue.Model(p)
    return any(M.nobj(n) for n in M.structs)

def statuses(M, I):
    """the values of the errors of I, as declared"""
    n = sum(1 for o in M.chain(I) for m in M.ifaces[o]["m"] if m["k"] == "error")
    return [10 + i for i in range(n)] or [1, 11]
