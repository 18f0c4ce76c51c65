------------------------------ MODULE MinkWire ------------------------------
(* The invocation envelope of a method and the bytes that travel in it.      *)
(*                                                                           *)
(* A value is [b : bytes, o : object ids]: b is the little-endian image of   *)
(* the declared layout with every object slot blank (zero), o lists the      *)
(* object handles of the value in field/element order (0 = null).            *)
EXTENDS MinkIdl

Idx(ps, P(_)) == Filter([i \in DOMAIN ps |-> i], LAMBDA i : P(ps[i]))

Fixed(env, q) == PKind(env, q) \in {"prim", "struct"}
DataP(env, q) == PKind(env, q) \in {"prim", "struct", "buf"}

\* parameters of direction d that are candidates for the bundle, declaration order
Smalls(env, ps, d) == Idx(ps, LAMBDA q : q.d = d /\ Fixed(env, q) /\ SizeOf(env, q.t) <= SmallMax)

\* stable sort by descending size
RECURSIVE InsertDesc(_,_,_)
InsertDesc(sz, s, x) ==
  IF s = <<>> THEN <<x>>
  ELSE IF sz[s[Len(s)]] >= sz[x] THEN Append(s, x)
  ELSE Append(InsertDesc(sz, SubSeq(s, 1, Len(s)-1), x), s[Len(s)])
RECURSIVE SortDesc(_,_,_)
SortDesc(sz, s, acc) == IF s = <<>> THEN acc ELSE SortDesc(sz, Tail(s), InsertDesc(sz, acc, Head(s)))

Bundle(env, ps, d) ==
  LET sm == Smalls(env, ps, d) IN
  IF Len(sm) < 2 THEN <<>>
  ELSE SortDesc([i \in DOMAIN ps |-> IF Fixed(env, ps[i]) THEN SizeOf(env, ps[i].t) ELSE 0], sm, <<>>)

\* slots of one direction: [ps : member parameters, size : fixed size or -1, elem]
Slots(env, ps, d) ==
  LET bu == Bundle(env, ps, d)
      rest == Idx(ps, LAMBDA q : q.d = d /\ DataP(env, q))
      disc == Filter(rest, LAMBDA i : i \notin Rng(bu))
      one(i) == [ps |-> <<i>>, size |-> IF Fixed(env, ps[i]) THEN SizeOf(env, ps[i].t) ELSE -1,
                 elem |-> ElemSize(env, ps[i])]
  IN (IF bu = <<>> THEN <<>>
      ELSE <<[ps |-> bu, size |-> SumSeq([k \in DOMAIN bu |-> SizeOf(env, ps[bu[k]].t)]), elem |-> 1]>>)
     \o [k \in DOMAIN disc |-> one(disc[k])]

ObjCount(env, ps, d) == SumSeq([i \in DOMAIN ps |-> IF ps[i].d = d THEN NObjParam(env, ps[i]) ELSE 0])

Envelope(env, m) ==
  [bi |-> Slots(env, m.p, "in"), bo |-> Slots(env, m.p, "out"),
   oi |-> ObjCount(env, m.p, "in"), oo |-> ObjCount(env, m.p, "out")]

Counts(e) == <<Len(e.bi), Len(e.bo), e.oi, e.oo>>
PackCounts(c) == c[1] + 16*c[2] + 256*c[3] + 4096*c[4]
UnpackCounts(k) == <<k % 16, (k \div 16) % 16, (k \div 256) % 16, (k \div 4096) % 16>>
Fits(e) == \A i \in 1..4 : Counts(e)[i] <= MaxCount

AllFit(env) ==
  \A n \in DOMAIN env.ifaces : \A x \in Rng(env.ifaces[n].m) :
     x.k = "method" => Fits(Envelope(env, x))

\* every violated restriction of a program, by label
Violations(p, allowUB) ==
  IF IncludeCycle(p) THEN {"include-cycle"}
  ELSE LET env == Env(p) sv == StaticViol(p, env, allowUB) IN
       IF sv \cap {"undef-type","struct-cycle","inherit-cycle","undef-base","dup-top","array-size",
                   "objarr-unbounded","arr-bounded-data"} # {} THEN sv
       ELSE sv \cup (IF AllFit(env) THEN {} ELSE {"too-many-args"})

-----------------------------------------------------------------------------
(* Images                                                                    *)

RECURSIVE ConcatB(_,_)
ConcatB(vals, is) == IF is = <<>> THEN <<>> ELSE vals[Head(is)].b \o ConcatB(vals, Tail(is))

\* input buffers for argument values vals (one value per parameter)
BufIn(e, vals) == [k \in DOMAIN e.bi |-> ConcatB(vals, e.bi[k].ps)]
\* output buffers when the implementation produced vals
BufOut(e, vals) == [k \in DOMAIN e.bo |-> ConcatB(vals, e.bo[k].ps)]
\* output capacities the caller offers (caps : capacity in elements per parameter)
CapOut(e, caps) == [k \in DOMAIN e.bo |-> IF e.bo[k].size >= 0 THEN e.bo[k].size
                                           ELSE caps[e.bo[k].ps[1]] * e.bo[k].elem]

ObjsOf(ps, vals, d) == FlattenSeq([i \in DOMAIN ps |-> IF ps[i].d = d THEN vals[i].o ELSE <<>>])

SameBag(s, t) == Len(s) = Len(t) /\ \A x \in Rng(s) \cup Rng(t) :
                   Cardinality({i \in DOMAIN s : s[i] = x}) = Cardinality({i \in DOMAIN t : t[i] = x})

-----------------------------------------------------------------------------
(* Refusal guard of a skeleton.  op is given as <<method id, modifiers # 0>>. *)

RetainOp == 65534
ReleaseOp == 65535

MustRefuse(env, iface, op, counts, sizesBI, sizesBO, provided) ==
  LET ms == Methods(env, iface) IN
  IF op \in {RetainOp, ReleaseOp} THEN FALSE
  ELSE IF op >= Len(ms) THEN TRUE
  ELSE LET m == ms[op+1].m e == Envelope(env, m) IN
       \/ counts # Counts(e)
       \/ \E k \in DOMAIN e.bi : e.bi[k].size >= 0 /\ sizesBI[k] # e.bi[k].size
       \/ \E k \in DOMAIN e.bo : e.bo[k].size >= 0 /\ sizesBO[k] # e.bo[k].size
       \/ (m.opt /\ ~provided)
=============================================================================
