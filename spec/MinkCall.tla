------------------------------ MODULE MinkCall ------------------------------
(* One invocation of a method, from the caller's stub through a transport to *)
(* the implementation behind a skeleton and back, as a sequence of steps:    *)
(*                                                                           *)
(*   Call -> Send -> Serve -> Reply -> Return -> Drop                        *)
(*                                                                           *)
(* A call x is [env, ifc, m (method), op, v (values), st, prov, held]:       *)
(* v[k] = [b, o, n, cap, pre] for parameter k.  For an input b, o, n are what*)
(* the caller supplies; for an output what the implementation produces, cap  *)
(* the capacity offered and pre the object the caller's variable held before.*)
(* st is the status of the implementation, prov whether it provides the      *)
(* method.                                                                   *)
(*                                                                           *)
(* Every step is a conjunction of conditions on what the step shows; each    *)
(* condition has a label, and StepLabels gives those that fail.              *)
EXTENDS MinkWire

Invalid == 2      \* Object_ERROR_INVALID

Ins(x)  == Filter([k \in DOMAIN x.m.p |-> k], LAMBDA k : x.m.p[k].d = "in")
Outs(x) == Filter([k \in DOMAIN x.m.p |-> k], LAMBDA k : x.m.p[k].d = "out")
Kind(x, k) == PKind(x.env, x.m.p[k])
Caps(x) == [k \in DOMAIN x.v |-> x.v[k].cap]
Occ(s, id) == Cardinality({k \in DOMAIN s : s[k] = id})

\* op-code of the method named n in the flattened interface i
OpNamed(env, i, n) ==
  LET ms == Methods(env, i) IN OpOf(CHOOSE k \in DOMAIN ms : ms[k].m.n = n)

\* what may be seen: a set of failing labels
L(ok, s) == IF ok THEN {} ELSE {s}

(* Send: the envelope the stub hands to the transport. *)
SendLabels(x, e, o) ==
  UNION {
    L(o.op = x.op /\ o.mod = 0, "op"),
    L(o.cnt = PackCounts(Counts(e)) /\ o.cnthi = 0, "counts"),
    L(o.bi = BufIn(e, x.v), "bi"),
    L(o.bo = CapOut(e, Caps(x)), "bo-size"),
    L(SameBag(o.oi, ObjsOf(x.m.p, x.v, "in")), "oi")
  }

(* Serve: the implementation is entered. *)
ServeLabels(x, e, o) ==
  UNION {
    L(x.prov, "entered"),
    L(o.m = x.m.n /\ o.np = Len(x.m.p), "method"),
    L(Len(o.v) = Len(x.v), "in"),
    IF Len(o.v) # Len(x.v) THEN {} ELSE UNION {
      L(\A k \in Rng(Ins(x)) : o.v[k].b = x.v[k].b, "in"),
      L(\A k \in Rng(Ins(x)) : o.v[k].o = x.v[k].o, "in-obj"),
      L(\A k \in Rng(Ins(x)) : Kind(x, k) = "buf" => o.v[k].n = x.v[k].n, "in-len"),
      L(\A k \in Rng(Outs(x)) : Kind(x, k) = "buf" => o.v[k].n = x.v[k].cap, "cap")
    }
  }

Status(x) == IF x.prov THEN x.st ELSE Invalid

(* Reply: what the skeleton returns to the transport. *)
ReplyLabels(x, e, o) ==
  UNION {
    L(o.st = Status(x), IF x.prov THEN "status" ELSE "refusal"),
    L(x.prov \/ o.st # 0, "reached"),
    L(o.mem = 1, "mem"),
    IF Status(x) # 0 \/ o.st # 0 THEN {} ELSE UNION {
      L(o.bo = BufOut(e, x.v), "bo"),
      L(SameBag(o.oo, ObjsOf(x.m.p, x.v, "out")), "oo")
    }
  }

(* Return: what the caller has.  refs: references beyond the harness's own. *)
RetLabels(x, e, o) ==
  LET inO == ObjsOf(x.m.p, x.v, "in")
      seen == FlattenSeq([k \in DOMAIN x.v |-> IF x.m.p[k].d = "out" THEN o.v[k].o ELSE <<>>])
      held == inO \o o.kept \o seen
  IN UNION {
    L(o.st = Status(x), IF x.prov THEN "status" ELSE "refusal"),
    L(x.prov \/ o.st # 0, "reached"),
    L(o.mem = 1 /\ o.bogus = 0, "mem"),
    L(o.served = (IF x.prov THEN 1 ELSE 0), "entered"),
    L(o.t = 1, "proxy-refs"),
    L(\A k \in Rng(Ins(x)) : o.v[k].o = x.v[k].o, "in-taken"),
    L(\A id \in DOMAIN o.refs : o.refs[id] = Occ(held, id), "refs"),
    IF Status(x) = 0
    THEN (IF o.st # 0 THEN {} ELSE UNION {
           L(\A k \in Rng(Outs(x)) : o.v[k].b = x.v[k].b, "out"),
           L(\A k \in Rng(Outs(x)) : o.v[k].o = x.v[k].o, "out-obj"),
           L(\A k \in Rng(Outs(x)) : Kind(x, k) = "buf" => o.v[k].n = x.v[k].n, "out-len") })
    ELSE L(\A k \in Rng(Outs(x)) : \A j \in DOMAIN o.v[k].o : o.v[k].o[j] \in {0, 9, x.v[k].pre}, "adopted")
  }

(* Drop: both sides have dropped what they hold. *)
DropLabels(x, e, o) == L(\A id \in DOMAIN o.refs : o.refs[id] = 0, "leak")

StepLabels(x, e, o) ==
  CASE o.ev = "call" -> {}
    [] o.ev = "send" -> SendLabels(x, e, o)
    [] o.ev = "serve" -> ServeLabels(x, e, o)
    [] o.ev = "reply" -> ReplyLabels(x, e, o)
    [] o.ev = "ret" -> RetLabels(x, e, o)
    [] o.ev = "drop" -> DropLabels(x, e, o)
    [] OTHER -> {"crash"}

\* the order of steps: which step may come after which
After(ph, x) ==
  CASE ph = "idle" -> "call"
    [] ph = "call" -> "send"
    [] ph = "send" -> (IF x.prov THEN "serve" ELSE "reply")
    [] ph = "serve" -> "reply"
    [] ph = "reply" -> "ret"
    [] ph = "ret" -> "drop"
    [] OTHER -> "none"
=============================================================================
