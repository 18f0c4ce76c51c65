------------------------------ MODULE MinkJava ------------------------------
(* One invocation through the Java classes: the caller's Proxy packs the     *)
(* arguments into the arrays of IMinkObject.invoke, a transport hands copies *)
(* to the MinkObject, which calls the implementation and packs its outputs,  *)
(* and the Proxy unpacks them:                                               *)
(*                                                                           *)
(*   call -> send -> serve -> reply -> ret                                   *)
(*                                                                           *)
(* The arrays are those of the wire envelope of MinkWire: one element of bi  *)
(* per input buffer, of boSizes and bo per output buffer, of oi and oo per   *)
(* object.  Java has no null bytes to drop and no reference counts to keep:  *)
(* the conditions are those of MinkCall on the arrays alone.  A call x is as *)
(* in MinkCall; x.v[k].pre = 7 says that the caller passes no place for the  *)
(* output k, which then is skipped without disturbing the others.            *)
EXTENDS MinkCall

JSend(x, e, o) ==
  UNION {
    L(o.op = x.op, "op"),
    L(Len(o.bi) = Len(e.bi) /\ Len(o.bo) = Len(e.bo) /\ o.nbo = Len(e.bo) /\ Len(o.oi) = e.oi /\ o.noo = e.oo, "counts"),
    L(o.bi = BufIn(e, x.v), "bi"),
    L(o.bo = CapOut(e, Caps(x)), "bo-size"),
    L(SameBag(o.oi, ObjsOf(x.m.p, x.v, "in")), "oi")
  }

\* an array of objects is passed with its length
NOut(x, k) == IF Kind(x, k) = "buf" THEN x.v[k].cap ELSE IF Kind(x, k) = "objarr" THEN x.m.p[k].a ELSE 0
JServe(x, o) ==
  IF ~x.prov THEN {"entered"} ELSE UNION {
    L(o.m = x.m.n, "method"),
    L(\A k \in DOMAIN o.v : o.v[k].nul = 0, "in-null"),
    L(\A k \in Rng(Ins(x)) : o.v[k].b = x.v[k].b /\ (Kind(x, k) = "buf" => o.v[k].n = x.v[k].n), "in"),
    L(\A k \in Rng(Ins(x)) : o.v[k].o = x.v[k].o, "in-obj"),
    L(\A k \in Rng(Outs(x)) : o.v[k].n = NOut(x, k), "cap")
  }

JReply(x, e, o) ==
  UNION {
    IF x.prov THEN L(o.st = x.st, "status") ELSE L(o.st # 0, "reached"),
    L(o.mem = 1, "mem"),
    IF x.st # 0 \/ o.st # 0 THEN {} ELSE UNION {
      L(o.bo = BufOut(e, x.v), "bo"),
      L(SameBag(o.oo, ObjsOf(x.m.p, x.v, "out")), "oo") }
  }

JRet(x, o) ==
  UNION {
    IF x.prov THEN L(o.st = x.st, "status") ELSE L(o.st # 0, "reached"),
    L(o.served = (IF x.prov THEN 1 ELSE 0), "entered"),
    IF x.st # 0 \/ o.st # 0 THEN {} ELSE UNION {
      L(\A k \in Rng(Outs(x)) : x.v[k].pre # 7 => o.v[k].nul = 0 /\ o.v[k].b = x.v[k].b /\ (Kind(x, k) = "buf" => o.v[k].n = x.v[k].n), "out"),
      L(\A k \in Rng(Outs(x)) : x.v[k].pre # 7 => o.v[k].o = x.v[k].o, "out-obj") }
  }

JLabels(x, e, o) ==
  CASE o.ev = "call" -> {}
    [] o.ev = "send" -> JSend(x, e, o)
    [] o.ev = "serve" -> JServe(x, o)
    [] o.ev = "reply" -> JReply(x, e, o)
    [] o.ev = "ret" -> JRet(x, o)
    [] OTHER -> {"crash"}

\* a method the server does not know is never served
JAfter(ph, x) ==
  CASE ph = "idle" -> "call"
    [] ph = "call" -> "send"
    [] ph = "send" -> (IF x.prov THEN "serve" ELSE "reply")
    [] ph = "serve" -> "reply"
    [] ph = "reply" -> "ret"
    [] OTHER -> "none"
=============================================================================
