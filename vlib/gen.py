"""Seeded random generator of well-formed IDL file sets."""
import random
from . import words
from .idl import *

WORDS = ["alpha", "beta", "gamma", "delta", "omega", "kappa", "sigma", "theta", "zeta", "iota", "rho", "tau",
         "phi", "chi", "psi", "mu", "nu", "xi", "eta", "lambda_", "upsilon", "node", "item", "slot", "blk", "seq_no",
         "cfgv", "hdr", "payload", "tag", "key_id", "cnt", "total", "offs", "lim", "span0", "Upper", "mixedCase", "X1", "v_2_a"]

class Gen:
    def __init__(s, rng, **o):
        s.r = rng
        s.o = dict(objs=True, objstruct=True, typed=True, maxfiles=3, structs=(1, 5), ifaces=(1, 4), methods=(1, 5), params=(0, 6),
                   consts=True, errors=True, opt=True, bigarr=8, docs=False, floats=True, chain=4, shuffle=False, deps=True, smallobj=True,
                   fldarr=5, structarr=True, objarr=True, nestobj=True, maxargs=15)
        s.o.update(o)
        s.n = 0; s.used = set()
    def name(s, pre=""):
        s.n += 1
        w = s.r.choice(WORDS)
        st = s.r.randrange(4)
        b = [w, w.capitalize(), w + "_" + str(s.n), w + str(s.n)][st]
        x = f"{pre}{b}{s.n}"
        if x in s.used: return s.name(pre)
        s.used.add(x)
        return x
    def prim(s):
        return s.r.choice(PRIMS if s.o["floats"] else PRIMS[:8])
    # ------------------------------------------------------------------ structs
    def mkstruct(s, n, avail, objt):
        """avail: list of (name, size, align, nobj); objt: object type names usable"""
        r = s.r
        off, al, nobj, fs = 0, 1, 0, []
        k = r.choice([1, 1, 2, 2, 3, 3, 4, 5])
        tgt16 = r.random() < .35
        for _ in range(k):
            x = r.random()
            opts = []
            if x < .25 and avail:
                t, sz, a, no = r.choice(avail)
            elif x < .40 and objt and s.o["objstruct"]:
                t, sz, a, no = r.choice(objt), 16, 8, 1
            else:
                t = s.prim(); sz = a = PSIZE[t]; no = 0
            if off % a:
                pad = a - off % a
                fs.append(field("uint8", s.fname(fs), pad, arr=(pad != 1 or r.random() < .3))); off += pad
            c = 1
            if r.random() < .3: c = r.randint(1, s.o["fldarr"])
            if no and not s.o["nestobj"] and c > 1: c = 1
            if nobj + no * c > 6: c = 1
            if nobj + no > 6: continue
            if off + sz * c > 4000: continue
            if tgt16 and fs and off + sz * c > 16: break
            fs.append(field(t, s.fname(fs), c, arr=(c != 1 or r.random() < .15)))
            off += sz * c; al = max(al, a); nobj += no * c
        if off % al:
            pad = al - off % al
            fs.append(field("int8", s.fname(fs), pad, arr=(pad != 1))); off += pad
        return struct(n, fs), (n, off, al, nobj)
    def fname(s, fs):
        while True:
            n = s.r.choice(WORDS) + s.r.choice(["", "", "1", "_b", "9z"])
            if n in RESERVED: continue
            if all(f["n"] != n for f in fs): return n
    # ------------------------------------------------------------------ methods
    def mkparams(s, st, objt, n=None):
        r = s.r
        lo, hi = s.o["params"]
        k = r.randint(lo, hi) if n is None else n
        ps = []
        cnt = {"in": [0, 0], "out": [0, 0]}; fam = {"in": None, "out": None}
        for _ in range(k):
            d = r.choice(["in", "out"])
            x = r.random()
            t, a, ob, no = None, -1, 0, 0
            if x < .38: t = s.prim()
            elif x < .55 and st:
                t, sz, al, no = r.choice(st)
                if no and not s.o["objs"]: continue
            elif x < .62: t = "buffer"
            elif x < .72: t, a = s.prim(), 0
            elif x < .79 and s.o["structarr"]:
                c = [q for q in st if q[3] == 0]
                if not c: continue
                t, a = r.choice(c)[0], 0
            elif x < .92 and s.o["objs"] and objt: t, no = r.choice(objt), 1
            elif s.o["objs"] and s.o["objarr"] and objt: t, a = r.choice(objt), r.randint(1, 4)
            else: t = s.prim()
            if a > 0: no = a
            isarr = a > 0
            if no:
                if fam[d] == "arr" or (fam[d] == "sing" and isarr): continue
            if cnt[d][1] + no > s.o["maxargs"]: continue
            if not (no and t in objt) and cnt[d][0] + 1 > s.o["maxargs"]: continue
            if no: fam[d] = "arr" if isarr else "sing"
            cnt[d][1] += no
            if t not in objt: cnt[d][0] += 1
            ps.append(param(d, t, s.pname(ps), a))
        return ps
    def pname(s, ps):
        while True:
            n = s.r.choice(WORDS) + s.r.choice(["", "", "2", "_x", "Q"])
            if n in RESERVED: continue
            if all(p["n"] != n for p in ps): return n
    def constval(s, t):
        r = s.r
        if t.startswith("float"):
            return r.choice(["0", "1.5", "-2.25", "0.1", "3", "-7", "100.125", "0.0", "12345.678"])
        bits = int(t.lstrip("uint"))
        uns = t[0] == "u"
        lo, hi = (0, 2**bits - 1) if uns else (-2**(bits-1), 2**(bits-1) - 1)
        v = r.choice([lo, hi, 0, 1, r.randint(lo, hi), r.randint(0, min(hi, 300))])
        if r.random() < .4:
            h = ("%x" if r.random() < .5 else "%X") % abs(v)
            return ("-" if v < 0 else "") + "0x" + h
        return str(v)
    def mkiface(s, n, base, st, objt, nm=None):
        r = s.r
        ms = []
        k = r.randint(*s.o["methods"]) if nm is None else nm
        for _ in range(k):
            if s.o["errors"] and r.random() < .25: ms.append(error(s.name("E_")))
            if s.o["consts"] and r.random() < .2:
                t = s.prim(); ms.append(const(s.name("K_"), t, s.constval(t)))
            ms.append(method(s.name("m"), s.mkparams(st, objt), opt=s.o["opt"] and r.random() < .12,
                             doc=("   * some text %d\n   " % s.n if r.random() < .3 else words.doc(r)) if s.o["docs"] and r.random() < .3 else None))
        if s.o["errors"] and r.random() < .2: ms.append(error(s.name("E_")))
        return iface(n, ms, base)
    # ------------------------------------------------------------------ file sets
    def prog(s):
        r = s.r
        nf = r.randint(1, s.o["maxfiles"])
        files, fst, fif = [], [], []      # cumulative visible structs/ifaces per file
        for i in range(nf):
            incs = sorted(r.sample(range(1, i + 1), r.randint(1, i))) if i else []
            if i == nf - 1 and i: incs = sorted(set(incs) | {r.randint(1, i)})
            vis = set()
            def reach(j):
                for k in files[j-1]["incs"]:
                    reach(k)
                vis.add(j)
            for j in incs: reach(j)
            vst = [x for j in sorted(vis) for x in fst[j-1]]
            vif = [x for j in sorted(vis) for x in fif[j-1]]
            decls, st, ifs = [], [], []
            ni = r.randint(*s.o["ifaces"])
            inames = [s.name("I") for _ in range(ni)]
            objn = lambda upto: (["interface"] + ([x[0] for x in vif] + inames[:upto] if s.o["typed"] else [])) if s.o["objs"] else []
            ns = r.randint(*s.o["structs"])
            for q in range(ns):
                av = [x for x in vst + st if s.o["objstruct"] or x[3] == 0]
                av = [x for x in av if x[1] <= 200]
                if not s.o["nestobj"]: av = [x for x in av if x[3] == 0]
                d, info = s.mkstruct(s.name("S"), av, (["interface"] + [x[0] for x in vif] if s.o["typed"] else ["interface"]) if s.o["objs"] else [])
                if info[3] and info[1] <= 16 and not s.o["smallobj"]: continue
                decls.append(d); st.append(info)
            for q, n in enumerate(inames):
                cand = [x for x in vif + ifs if x[1] < s.o["chain"]]
                b, depth = "", 0
                if cand and r.random() < .6:
                    b, depth = r.choice(cand[-3:]); depth += 1
                f = s.mkiface(n, b, vst + st, objn(q))
                decls.append(f); ifs.append((n, depth))
            if s.o["consts"]:
                for _ in range(r.randint(0, 3)):
                    t = s.prim(); decls.insert(r.randint(0, len(decls)), const(s.name("C_"), t, s.constval(t)))
            if s.o["shuffle"]: r.shuffle(decls)
            files.append(file(r.choice(["f", "Mod", "if_", "U"]) + s.r.choice("abcXYZ") + str(i), decls, incs)); fst.append(st); fif.append(ifs)
        return program(files, nf)

RESERVED = set("""alignas alignof and and_eq asm auto bitand bitor bool break case catch char class compl concept const const_cast constexpr
continue decltype default delete do double dynamic_cast else enum explicit export extern false float for friend goto if inline int long mutable
namespace new noexcept not not_eq nullptr operator or or_eq private protected public register reinterpret_cast requires return short signed sizeof
static static_assert static_cast struct switch template this thread_local throw true try typedef typeid typename union unsigned using virtual void
volatile wchar_t while xor xor_eq restrict as async await box crate dyn enum fn impl in let loop match mod move mut pub ref self Self super trait
type unsafe use where abstract become final macro override priv typeof unsized virtual yield boolean byte extends finally implements import
instanceof interface native package strictfp super synchronized throws transient null assert lambda method error buffer include optional out""".split())
