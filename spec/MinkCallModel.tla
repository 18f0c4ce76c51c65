--------------------------- MODULE MinkCallModel ---------------------------
(* Design model of an invocation, explored exhaustively: every lawful        *)
(* signature of at most MaxParams parameters over a small alphabet, every    *)
(* pattern of null, distinct and repeated objects, success and failure, an   *)
(* implementation that keeps references or not.  The stub sees the caller's  *)
(* values only, the transport only what the counts declare, the skeleton only*)
(* what the transport copied.  Checked: the values arrive, the references    *)
(* balance, nothing is adopted from a call that failed, no object handle     *)
(* travels inside a buffer.                                                  *)
EXTENDS MinkCall, Json

CONSTANTS MaxParams, Ids

Fld(t, n, c) == [t |-> t, n |-> n, c |-> c, arr |-> c # 1]
P0 == [main |-> 1, files |-> <<[name |-> "m", incs |-> <<>>, decls |-> <<
   [k |-> "iface", n |-> "IQ", b |-> "", m |-> <<>>],
   [k |-> "struct", n |-> "S3", fields |-> <<Fld("uint8", "a", 3)>>],
   [k |-> "struct", n |-> "SO", fields |-> <<Fld("IQ", "o", 1)>>],
   [k |-> "struct", n |-> "SX", fields |-> <<Fld("interface", "o", 1), Fld("uint64", "z", 1)>>] >>]>>]
E0 == TLCEval(Env(P0))

Shapes == {<<"uint8", -1>>, <<"uint16", -1>>, <<"S3", -1>>, <<"SO", -1>>, <<"SX", -1>>, <<"buffer", -1>>, <<"uint16", 0>>,
           <<"IQ", -1>>, <<"IQ", 2>>}
Param(s, d, k) == [d |-> d, t |-> s[1], a |-> s[2], n |-> <<"pa","pb","pc">>[k]]
Sigs == TLCEval(UNION {{[i \in 1..n |-> Param(f[i], g[i], i)] : f \in [1..n -> Shapes], g \in [1..n -> {"in","out"}]} : n \in 0..MaxParams})
Sane0 == TLCEval(SaneStructs(E0))
Lawful(ps) == LET m == [k |-> "method", n |-> "m", p |-> ps, opt |-> FALSE, attrs |-> <<>>] IN
  MethodViol(E0, Sane0, m) = {} /\ Fits(Envelope(E0, m))

\* data of parameter k, distinct for each; its object slots blank
RECURSIVE Image(_,_)
Image(t, v) == IF t \in Prims THEN [i \in 1..PSize(t) |-> v]
               ELSE IF IsStruct(E0, t)
               THEN LET fs == E0.structs[t].fields IN FlattenSeq([i \in DOMAIN fs |-> FlattenSeq([j \in 1..fs[i].c |-> Image(fs[i].t, v + 10*i)])])
               ELSE [i \in 1..ObjSize |-> 0]
Data(q, k) == CASE PKind(E0, q) \in {"prim", "struct"} -> Image(q.t, k)
                [] PKind(E0, q) = "buf" -> FlattenSeq([j \in 1..k |-> [i \in 1..ElemSize(E0, q) |-> 100 + k]])
                [] OTHER -> <<>>

\* the skeleton's view: cut buffer b of slot s back into the values of its parameters
RECURSIVE Cut(_,_,_)
Cut(ps, is, b) == IF is = <<>> THEN <<>>
  ELSE LET n == IF Fixed(E0, ps[Head(is)]) THEN SizeOf(E0, ps[Head(is)].t) ELSE Len(b)
       IN <<SubSeq(b, 1, n)>> \o Cut(ps, Tail(is), SubSeq(b, n+1, Len(b)))
DecodeData(ps, slots, bufs) ==
  [k \in UNION {Rng(slots[j].ps) : j \in DOMAIN slots} |->
     LET j == CHOOSE j \in DOMAIN slots : k \in Rng(slots[j].ps)
         c == Cut(ps, slots[j].ps, bufs[j])
         h == CHOOSE h \in DOMAIN slots[j].ps : slots[j].ps[h] = k
     IN c[h]]
\* objects of one direction go, in declaration order, structs first
ObjOrder(ps, d) == Filter([k \in DOMAIN ps |-> k], LAMBDA k : ps[k].d = d /\ PKind(E0, ps[k]) = "struct" /\ NObjParam(E0, ps[k]) > 0)
                   \o Filter([k \in DOMAIN ps |-> k], LAMBDA k : ps[k].d = d /\ PKind(E0, ps[k]) \in {"obj", "objarr"})
ObjsSent(ps, v, d) == LET o == ObjOrder(ps, d) IN FlattenSeq([j \in DOMAIN o |-> v[o[j]].o])
RECURSIVE Before(_,_,_)
Before(ps, o, k) == IF Head(o) = k THEN 0 ELSE NObjParam(E0, ps[Head(o)]) + Before(ps, Tail(o), k)
DecodeObjs(ps, d, os) ==
  LET o == ObjOrder(ps, d) IN
  [k \in Rng(o) |-> LET b == Before(ps, o, k) IN SubSeq(os, b+1, b + NObjParam(E0, ps[k]))]

VARIABLES sig, E, v, st, ph, wire, got, res, refs, keep, hold
vars == <<sig, E, v, st, ph, wire, got, res, refs, keep, hold>>

M0 == [k |-> "method", n |-> "m", p |-> sig, opt |-> FALSE, attrs |-> <<>>]
NO(k) == NObjParam(E0, sig[k])
Start(k) == SumSeq([j \in 1..(k-1) |-> NO(j)])
None == <<>>
RefsAdd(r, s, n) == [id \in DOMAIN r |-> r[id] + n * Occ(s, id)]
InO == ObjsOf(sig, v, "in")
OutO == ObjsOf(sig, v, "out")

Init ==
  /\ sig \in {s \in Sigs : Lawful(s)}
  /\ E = TLCEval(Envelope(E0, M0))
  /\ v \in [1..Start(Len(sig) + 1) -> Ids]
  /\ st \in {0, 10} /\ keep \in BOOLEAN
  /\ ph = "start" /\ wire = None /\ got = None /\ res = None /\ hold = <<>>
  /\ refs = [id \in Ids \ {0} |-> 0]

\* the objects were the choice; now every parameter has its value
Call == /\ ph = "start"
        /\ v' = [k \in DOMAIN sig |-> [b |-> Data(sig[k], k), o |-> SubSeq(v, Start(k) + 1, Start(k + 1)), cap |-> k]]
        /\ refs' = RefsAdd(refs, ObjsOf(sig, v', "in"), 1)       \* the caller owns its inputs
        /\ ph' = "call" /\ UNCHANGED <<sig, E, st, wire, got, res, keep, hold>>
Send == /\ ph = "call"
        /\ wire' = [cnt |-> PackCounts(Counts(E)), bi |-> BufIn(E, v), bo |-> CapOut(E, [k \in DOMAIN v |-> v[k].cap]), oi |-> ObjsSent(sig, v, "in"), oo |-> <<>>]
        /\ ph' = "send" /\ UNCHANGED <<sig, E, v, st, got, res, refs, keep, hold>>
\* the skeleton: decodes the copied envelope; the implementation borrows the objects
Serve == /\ ph = "send" /\ UnpackCounts(wire.cnt) = Counts(E)
         /\ got' = [d |-> DecodeData(sig, E.bi, wire.bi), o |-> DecodeObjs(sig, "in", wire.oi)]
         /\ hold' = (IF keep THEN wire.oi ELSE <<>>)
         /\ refs' = RefsAdd(RefsAdd(refs, hold', 1), IF st = 0 THEN OutO ELSE <<>>, 1)
         /\ ph' = "serve" /\ UNCHANGED <<sig, E, v, st, wire, res, keep>>
Reply == /\ ph = "serve"
         /\ wire' = IF st = 0 THEN [wire EXCEPT !.bo = BufOut(E, v), !.oo = ObjsSent(sig, v, "out")] ELSE [wire EXCEPT !.bo = <<>>]
         /\ ph' = "reply" /\ UNCHANGED <<sig, E, v, st, got, res, refs, keep, hold>>
Return == /\ ph = "reply"
          /\ res' = IF st = 0 THEN [d |-> DecodeData(sig, E.bo, wire.bo), o |-> DecodeObjs(sig, "out", wire.oo)] ELSE None
          /\ ph' = "ret" /\ UNCHANGED <<sig, E, v, st, wire, got, refs, keep, hold>>
Drop == /\ ph = "ret"
        /\ refs' = RefsAdd(RefsAdd(RefsAdd(refs, InO, -1), hold, -1), IF st = 0 THEN FlattenSeq([j \in DOMAIN ObjOrder(sig, "out") |-> res.o[ObjOrder(sig, "out")[j]]]) ELSE <<>>, -1)
        /\ ph' = "drop" /\ UNCHANGED <<sig, E, v, st, wire, got, res, keep, hold>>
Next == Call \/ Send \/ Serve \/ Reply \/ Return \/ Drop
Spec == Init /\ [][Next]_vars

Exact ==
  /\ ph \in {"serve", "reply", "ret", "drop"} =>
       \A k \in DOMAIN sig : sig[k].d = "in" =>
         /\ (DataP(E0, sig[k]) => got.d[k] = v[k].b)
         /\ (NObjParam(E0, sig[k]) > 0 => got.o[k] = v[k].o)
  /\ (ph \in {"ret", "drop"} /\ st = 0) =>
       \A k \in DOMAIN sig : sig[k].d = "out" =>
         /\ (DataP(E0, sig[k]) => res.d[k] = v[k].b)
         /\ (NObjParam(E0, sig[k]) > 0 => res.o[k] = v[k].o)
Canonical == wire # None => LET c == UnpackCounts(wire.cnt) IN Len(wire.bi) = c[1] /\ Len(wire.oi) = c[3] /\ \A i \in 1..4 : c[i] <= MaxCount
Neutral == ph = "drop" => \A id \in DOMAIN refs : refs[id] = 0
NoNegative == \A id \in DOMAIN refs : refs[id] >= 0
\* bundled first, sizes sum up, nothing padded
Bundled == ph = "send" => \A j \in DOMAIN E.bi : E.bi[j].size >= 0 =>
   Len(wire.bi[j]) = SumSeq([h \in DOMAIN E.bi[j].ps |-> SizeOf(E0, sig[E.bi[j].ps[h]].t)])
=============================================================================
