------------------------------ MODULE MinkIdl ------------------------------
(* Abstract syntax and static semantics of Mink IDL file sets.              *)
(*                                                                          *)
(* program p == [main : index, files : Seq([name, incs : Seq(index),        *)
(*                                          decls : Seq(decl)])]            *)
(* decl == [k:"const",  n, t, v]                                            *)
(*       | [k:"struct", n, fields : Seq([t, n, c, arr])]                    *)
(*       | [k:"iface",  n, b, m : Seq(member)]          b = "" : no base    *)
(* member == [k:"method", n, opt, p : Seq([d, t, a, n]), attrs]             *)
(*         | [k:"error", n] | [k:"const", n, t, v]                          *)
(* param array marker a: -1 none, 0 unbounded "[]", n > 0 bounded "[n]"     *)
EXTENDS MinkBytes, TLC, FiniteSetsExt

Prims == {"uint8","uint16","uint32","uint64","int8","int16","int32","int64","float32","float64"}
MaxOp == 16383          \* 0x3FFF
ErrBase == 10
MaxCount == 15
SmallMax == 16
ObjSize == 16
ObjAlign == 8

RECURSIVE Closure(_,_)
\* least set containing S and closed under relation step (a function to sets)
Closure(S, step) ==
  LET T == S \cup UNION {step[x] : x \in S} IN IF T = S THEN S ELSE Closure(T, step)

Rng(s) == {s[i] : i \in DOMAIN s}
HasDup(s) == Cardinality(Rng(s)) # Len(s)
MapSeq(s, F(_)) == [i \in DOMAIN s |-> F(s[i])]
Filter(s, P(_)) == SelectSeq(s, P)
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

-----------------------------------------------------------------------------
(* Visibility: exactly the declarations of the files reachable from main.    *)

IncRel(p) == [i \in DOMAIN p.files |-> Rng(p.files[i].incs)]
Reach(p) == Closure({p.main}, IncRel(p))
IncludeCycle(p) ==
  \E i \in Reach(p) : i \in Closure(IncRel(p)[i], IncRel(p))

VisDecls(p) == FlattenSeq([i \in DOMAIN p.files |-> IF i \in Reach(p) THEN p.files[i].decls ELSE <<>>])

First(ds, n) == ds[CHOOSE i \in DOMAIN ds : ds[i].n = n /\ \A j \in DOMAIN ds : ds[j].n = n => i <= j]

\* environment: name -> declaration, per kind
Env(p) ==
  LET ds == VisDecls(p)
      st == Filter(ds, LAMBDA d : d.k = "struct")
      fc == Filter(ds, LAMBDA d : d.k = "iface")
  IN TLCEval([decls |-> ds,
      structs |-> TLCEval([n \in {st[i].n : i \in DOMAIN st} |-> First(st, n)]),
      ifaces  |-> TLCEval([n \in {fc[i].n : i \in DOMAIN fc} |-> First(fc, n)])])

IsStruct(env, t) == t \in DOMAIN env.structs
IsIface(env, t)  == t \in DOMAIN env.ifaces
IsObj(env, t)    == t = "interface" \/ (t \notin Prims /\ t # "buffer" /\ IsIface(env, t) /\ ~IsStruct(env, t))

-----------------------------------------------------------------------------
(* Struct layout: no implicit padding, ever.                                 *)

RECURSIVE SizeOf(_,_)
SizeOf(env, t) ==
  IF t \in Prims THEN PSize(t)
  ELSE IF IsStruct(env, t)
       THEN LET fs == env.structs[t].fields IN SumSeq([i \in DOMAIN fs |-> SizeOf(env, fs[i].t) * fs[i].c])
       ELSE ObjSize

RECURSIVE AlignOf(_,_)
AlignOf(env, t) ==
  IF t \in Prims THEN PSize(t)
  ELSE IF IsStruct(env, t)
       THEN LET fs == env.structs[t].fields IN Max({AlignOf(env, fs[i].t) : i \in DOMAIN fs})
       ELSE ObjAlign

\* offset of field i of struct t: sum of the sizes before it
OffsetOf(env, t, i) ==
  LET fs == env.structs[t].fields IN SumSeq([j \in 1..(i-1) |-> SizeOf(env, fs[j].t) * fs[j].c])

StructRel(env) ==
  TLCEval([n \in DOMAIN env.structs |->
     {env.structs[n].fields[i].t : i \in DOMAIN env.structs[n].fields} \cap DOMAIN env.structs])
StructCyclic(env, n) == n \in Closure(StructRel(env)[n], StructRel(env))
\* containment from n reaches no cycle and no undefined type: sizes are defined
SaneStructs(env) ==
  LET rel == StructRel(env)
      undef == {n \in DOMAIN env.structs : \E i \in DOMAIN env.structs[n].fields :
                  LET t == env.structs[n].fields[i].t IN
                  t \notin Prims /\ t # "interface" /\ ~IsStruct(env, t) /\ ~IsIface(env, t)}
      cyc == {n \in DOMAIN env.structs : n \in Closure(rel[n], rel)}
  IN TLCEval({n \in DOMAIN env.structs : Closure({n}, rel) \cap (undef \cup cyc) = {}})

\* number of object handles inside a value of type t
RECURSIVE NObj(_,_)
NObj(env, t) ==
  IF t \in Prims \cup {"buffer"} THEN 0
  ELSE IF IsStruct(env, t)
       THEN LET fs == env.structs[t].fields IN SumSeq([i \in DOMAIN fs |-> NObj(env, fs[i].t) * fs[i].c])
       ELSE 1

MisalignedField(env, n) ==
  LET fs == env.structs[n].fields IN
  \E i \in DOMAIN fs : OffsetOf(env, n, i) % AlignOf(env, fs[i].t) # 0
MisalignedSize(env, n) == SizeOf(env, n) % AlignOf(env, n) # 0

-----------------------------------------------------------------------------
(* Inheritance, op-codes, error values                                       *)

BaseRel(env) == [n \in DOMAIN env.ifaces |->
                   IF env.ifaces[n].b # "" /\ env.ifaces[n].b \in DOMAIN env.ifaces THEN {env.ifaces[n].b} ELSE {}]
InheritCyclic(env, n) == n \in Closure(BaseRel(env)[n], BaseRel(env))

\* root ancestor first, n last
RECURSIVE Chain(_,_)
Chain(env, n) ==
  LET b == env.ifaces[n].b IN (IF b = "" \/ b \notin DOMAIN env.ifaces THEN <<>> ELSE Chain(env, b)) \o <<n>>

MembersOf(env, n, kind) ==
  LET ms == Filter(env.ifaces[n].m, LAMBDA x : x.k = kind)
  IN [i \in DOMAIN ms |-> [o |-> n, m |-> ms[i]]]

Flat(env, n, kind) == LET c == Chain(env, n) IN FlattenSeq([i \in DOMAIN c |-> MembersOf(env, c[i], kind)])

\* methods of the flattened interface; the one at position i has op-code i-1
Methods(env, n) == Flat(env, n, "method")
\* errors of the flattened interface; the one at position i has value 9+i
Errors(env, n)  == Flat(env, n, "error")
Consts(env, n)  == Flat(env, n, "const")

OpOf(i) == i - 1
ErrVal(i) == ErrBase + i - 1

-----------------------------------------------------------------------------
(* Parameters                                                                *)

\* kind of a well-typed parameter
PKind(env, q) ==
  IF q.t = "buffer" THEN "buf"
  ELSE IF IsObj(env, q.t) THEN (IF q.a > 0 THEN "objarr" ELSE "obj")
  ELSE IF q.a = 0 THEN "buf"
  ELSE IF q.t \in Prims THEN "prim" ELSE "struct"

ElemSize(env, q) == IF q.t = "buffer" THEN 1 ELSE SizeOf(env, q.t)

NObjParam(env, q) ==
  LET k == PKind(env, q) IN
  CASE k = "obj" -> 1
    [] k = "objarr" -> q.a
    [] k = "struct" -> NObj(env, q.t)
    [] OTHER -> 0

-----------------------------------------------------------------------------
(* Restrictions.  Each violated one contributes its label.                   *)

MethodViol(env, sane, m) ==
  LET ps == m.p
      known(q) == q.t \in Prims \cup {"interface", "buffer"} \/ IsStruct(env, q.t) \/ IsIface(env, q.t)
      dir(d) == {i \in DOMAIN ps : ps[i].d = d /\ known(ps[i])}
      arrs(d) == {i \in dir(d) : IsObj(env, ps[i].t) /\ ps[i].a >= 0}
      sing(d) == {i \in dir(d) : IsObj(env, ps[i].t) /\ ps[i].a = -1}
      emb(d) == {i \in dir(d) : ps[i].t \notin Prims /\ ps[i].t \in sane
                                /\ NObj(env, ps[i].t) > 0}
  IN UNION {
     IF HasDup([i \in DOMAIN ps |-> ps[i].n]) THEN {"dup-param"} ELSE {},
     IF \E i \in DOMAIN ps : ~known(ps[i]) THEN {"undef-type"} ELSE {},
     IF \E d \in {"in","out"} : \E i \in arrs(d) : ps[i].a = 0 THEN {"objarr-unbounded"} ELSE {},
     IF \E d \in {"in","out"} : arrs(d) # {} /\ (sing(d) # {} \/ Cardinality(arrs(d)) > 1 \/ emb(d) # {})
        THEN {"objarr-mix"} ELSE {},
     IF \E d \in {"in","out"} : \E i \in emb(d) : ps[i].a >= 0 THEN {"arr-objstruct"} ELSE {},
     IF \E i \in DOMAIN ps : known(ps[i]) /\ ~IsObj(env, ps[i].t) /\ ps[i].a > 0 THEN {"arr-bounded-data"} ELSE {},
     IF HasDup(m.attrs) THEN {"dup-attr"} ELSE {}
   }

StaticViol(p, env, allowUB) ==
  LET ds == env.decls
      cs == {d \in Rng(ds) : d.k = "const"}
              \cup UNION {{x \in Rng(d.m) : x.k = "const"} : d \in {y \in Rng(ds) : y.k = "iface"}}
      sts == DOMAIN env.structs
      fcs == DOMAIN env.ifaces
      badT(t) == t \notin Prims /\ t # "interface" /\ t \notin sts /\ t \notin fcs
      cyc == {n \in sts : StructCyclic(env, n)}
      icyc == {n \in fcs : InheritCyclic(env, n)}
      undefField == {n \in sts : \E f \in Rng(env.structs[n].fields) : badT(f.t)}
      sane == SaneStructs(env)
      base == UNION {
        IF HasDup([i \in DOMAIN ds |-> ds[i].n]) THEN {"dup-top"} ELSE {},
        IF cyc # {} THEN {"struct-cycle"} ELSE {},
        IF icyc # {} THEN {"inherit-cycle"} ELSE {},
        IF undefField # {} THEN {"undef-type"} ELSE {},
        IF \E n \in fcs : env.ifaces[n].b # "" /\ env.ifaces[n].b \notin fcs THEN {"undef-base"} ELSE {},
        IF \E n \in sts : LET fs == env.structs[n].fields IN HasDup([i \in DOMAIN fs |-> fs[i].n])
           THEN {"dup-field"} ELSE {},
        IF \E n \in sts : \E f \in Rng(env.structs[n].fields) : f.c < 1 \/ f.c > 65535 THEN {"array-size"} ELSE {},
        IF \E n \in sane : MisalignedField(env, n) THEN {"misaligned-field"} ELSE {},
        IF \E n \in sane : MisalignedSize(env, n) THEN {"misaligned-size"} ELSE {},
        IF ~allowUB /\ \E c \in cs : ~ConstInRange(c.t, c.v) THEN {"const-range"} ELSE {}
      }
      meth == UNION {UNION {MethodViol(env, sane, x) : x \in {y \in Rng(env.ifaces[n].m) : y.k = "method"}} : n \in fcs}
      flat == UNION {
        LET ms == Methods(env, n) es == Errors(env, n) ks == Consts(env, n) IN UNION {
        IF HasDup([i \in DOMAIN ms |-> ms[i].m.n]) THEN {"dup-method"} ELSE {},
        IF HasDup([i \in DOMAIN es |-> es[i].m.n] \o [i \in DOMAIN ks |-> ks[i].m.n]) THEN {"dup-const-error"} ELSE {},
        IF Len(ms) > MaxOp + 1 THEN {"too-many-methods"} ELSE {}
        } : n \in fcs \ icyc}
  IN base \cup meth \cup (IF icyc = {} THEN flat ELSE {})

=============================================================================
