----------------------------- MODULE MinkRefuse -----------------------------
(* Invocations a skeleton must not serve.  A raw invocation is               *)
(*   [op, k : <<bi, bo, oi, oo>>, hi, sbi, sbo]                              *)
(* : the op-code, the counts word as its four fields and the bits above them *)
(* (hi), and the size of every buffer it declares.  A size is [n, x]: n when *)
(* x = 0, n + 2^32 when x = 1, the largest there is when x = 2.              *)
(*                                                                           *)
(* Perturbed(env, i, op) is the set of invocations around the lawful one of  *)
(* method op of interface i; MustRefuseRaw says which must be refused.       *)
EXTENDS MinkWire

Sz(n) == [n |-> n, x |-> 0]

\* the lawful invocation, variable buffers of v elements
Lawful(env, m, op, v) ==
  LET e == Envelope(env, m)
      s(sl, k) == Sz(IF sl.size >= 0 THEN sl.size ELSE sl.elem * ((v + k) % 4))
  IN [op |-> op, k |-> Counts(e), hi |-> 0,
      sbi |-> [k \in DOMAIN e.bi |-> s(e.bi[k], k)], sbo |-> [k \in DOMAIN e.bo |-> s(e.bo[k], k + 1)]]

Resize(s, n) == [j \in 1..n |-> IF j <= Len(s) THEN s[j] ELSE Sz(j % 5)]
WithCounts(r, k) == [r EXCEPT !.k = k, !.sbi = Resize(r.sbi, k[1]), !.sbo = Resize(r.sbo, k[2])]

InRange(k) == \A j \in 1..4 : k[j] \in 0..15
CountsAround(k) ==
  {c \in UNION {
     {[k EXCEPT ![j] = @ + d] : j \in 1..4, d \in {-1, 1}},
     {[k EXCEPT ![j] = d] : j \in 1..4, d \in {0, 15}},
     {[k EXCEPT ![a] = @ + 1, ![b] = @ - 1] : a \in 1..4, b \in 1..4},
     {[k EXCEPT ![a] = k[b], ![b] = k[a]] : a \in 1..4, b \in 1..4},
     {<<0, 0, 0, 0>>, <<15, 15, 15, 15>>, <<k[3], k[4], k[1], k[2]>>}} : InRange(c)}

SizesAround(n) == {s \in {[n |-> n - 1, x |-> 0], [n |-> n + 1, x |-> 0], [n |-> 0, x |-> 0], [n |-> 2 * n, x |-> 0],
                          [n |-> n + 8, x |-> 0], [n |-> n, x |-> 1], [n |-> n, x |-> 2]} : s.n >= 0}

Perturbed(env, i, op) ==
  LET m == Methods(env, i)[op + 1].m
      r == Lawful(env, m, op, op) e == Envelope(env, m)
  IN {r, [r EXCEPT !.hi = 1], [r EXCEPT !.hi = 32768]}
     \cup {WithCounts(r, k) : k \in CountsAround(r.k)}
     \cup UNION {{[r EXCEPT !.sbi[k] = s] : s \in IF e.bi[k].size >= 0 THEN SizesAround(e.bi[k].size) ELSE {Sz(r.sbi[k].n + 1), Sz(0)}} : k \in DOMAIN e.bi}
     \cup UNION {{[r EXCEPT !.sbo[k] = s] : s \in IF e.bo[k].size >= 0 THEN SizesAround(e.bo[k].size) ELSE {Sz(r.sbo[k].n + 1), Sz(0)}} : k \in DOMAIN e.bo}
     \* a wrong size among right ones, in two places
     \cup {[r EXCEPT !.sbi[1].n = @ + 1, !.sbo[1].n = @ + 1] : z \in IF e.bi # <<>> /\ e.bo # <<>> THEN {0} ELSE {}}
     \* this envelope under an op-code that is no method's
     \cup {[r EXCEPT !.op = o] : o \in {Len(Methods(env, i)), 32768 + op, 16384 + op}}

Foreign(env, i) ==
  LET n == Len(Methods(env, i))
      bare(o, k) == [op |-> o, k |-> k, hi |-> 0, sbi |-> [j \in 1..k[1] |-> Sz(8)], sbo |-> [j \in 1..k[2] |-> Sz(4)]]
  IN {bare(o, k) : o \in {n, n + 1, n + 7, 255 + n, 256 + n, 16382, 16383, 16384, 32767, 32768, 65533} \ (0..(n - 1)),
                   k \in {<<0, 0, 0, 0>>, <<1, 0, 0, 0>>, <<0, 1, 1, 1>>, <<2, 2, 2, 2>>}}

-----------------------------------------------------------------------------
SizeIs(s, n) == s.x = 0 /\ s.n = n

MustRefuseRaw(env, i, r, prov) ==
  LET ms == Methods(env, i) IN
  IF r.op >= Len(ms) THEN TRUE
  ELSE LET m == ms[r.op + 1].m e == Envelope(env, m) IN
       \/ r.hi # 0
       \/ r.k # Counts(e)
       \/ \E k \in DOMAIN e.bi : e.bi[k].size >= 0 /\ ~SizeIs(r.sbi[k], e.bi[k].size)
       \/ \E k \in DOMAIN e.bo : e.bo[k].size >= 0 /\ ~SizeIs(r.sbo[k], e.bo[k].size)
       \/ ~prov

\* a refusal for nothing but that the implementor does not provide the method
OnlyUnprovided(env, i, r, prov) == ~prov /\ ~MustRefuseRaw(env, i, r, TRUE)

\* neither refused nor misshapen: whole elements in every variable buffer
WellFormed(env, i, r, prov) ==
  /\ ~MustRefuseRaw(env, i, r, prov)
  /\ LET e == Envelope(env, Methods(env, i)[r.op + 1].m) IN
     /\ \A k \in DOMAIN e.bi : e.bi[k].size < 0 => r.sbi[k].n % e.bi[k].elem = 0
     /\ \A k \in DOMAIN e.bo : e.bo[k].size < 0 => r.sbo[k].n % e.bo[k].elem = 0

Generic == 1..9
Occ(s, id) == Cardinality({k \in DOMAIN s : s[k] = id})

(* What the transport saw: o = [st, served, mem, bogus, oo, refs]; want: the  *)
(* status the implementation gives when entered.                             *)
RawLabels(env, i, r, prov, want, o) ==
  LET L(ok, s) == IF ok THEN {} ELSE {s} IN
  UNION {
    L(o.mem = 1 /\ o.bogus = 0, "mem"),
    IF OnlyUnprovided(env, i, r, prov) THEN L(o.st = 2, "not-provided")
    ELSE IF MustRefuseRaw(env, i, r, prov) THEN L(o.st \in Generic \/ o.st < 0, "refuse")
    ELSE IF WellFormed(env, i, r, prov) THEN L(o.served = 1 /\ o.st = want, "serve") ELSE {},
    IF MustRefuseRaw(env, i, r, prov) THEN L(o.served = 0, "entered") ELSE L(o.served <= 1, "entered"),
    L(\A id \in DOMAIN o.refs : o.refs[id] = (IF o.st = 0 THEN Occ(o.oo, id) ELSE 0), "refs")
  }
=============================================================================
