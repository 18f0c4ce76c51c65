----------------------------- MODULE MinkAccept -----------------------------
(* The accept/reject decision of the compiler, judged on records of real     *)
(* compilations.  Two kinds of record in cases.json:                         *)
(*  [kind:"prog", p, ub, runs : Seq([who, acc, n, b, w])]  a file set and, per way of  *)
(*      running the compiler on it, whether it was accepted                  *)
(*  [kind:"text", ts, runs]   a token sequence                               *)
(* A record is consumed by one Compile step.  The step is legal iff every    *)
(* run's decision is the one the specification allows; otherwise Reject      *)
(* consumes it and logs the offending run.                                   *)
EXTENDS MinkWire, MinkGrammar, Json

Cases == JsonDeserialize("cases.json")
Want == JsonDeserialize("want.json")    \* [sound : BOOLEAN, complete : BOOLEAN]

\* the construct the Java backend documents as unsupported
JavaUnsupported(p) ==
  LET env == Env(p) IN \E n \in SaneStructs(env) : NObj(env, n) > 0

\* per case: labels of violated restrictions
ViolOf(c) == IF c.kind = "prog" THEN Violations(c.p, c.ub)
             ELSE IF Grammatical(c.ts) THEN {} ELSE {"grammar"}

\* what the specification says about run r of case c, v = ViolOf(c)
MayAccept(c, v) == v = {}
MayReject(c, v, r) ==
  \/ v # {}
  \/ c.kind = "text"                               \* grammatical text may still break a rule
  \/ (r.who = "java" /\ JavaUnsupported(c.p))

Wrong(c, v) ==
  {k \in DOMAIN c.runs :
     \/ Want.sound /\ c.runs[k].acc /\ ~MayAccept(c, v)
     \/ Want.complete /\ ~c.runs[k].acc /\ ~MayReject(c, v, c.runs[k])}

VARIABLES i, bad, npos, nneg
vars == <<i, bad, npos, nneg>>

Init == i = 1 /\ bad = <<>> /\ npos = 0 /\ nneg = 0

Step ==
  /\ i <= Len(Cases)
  /\ LET c == Cases[i]
         v == TLCEval(ViolOf(c))
         w == TLCEval(Wrong(c, v))
     IN /\ bad' = bad \o [k \in 1..Cardinality(w) |->
                    [case |-> i, run |-> SetToSeq(w)[k], viol |-> v]]
        /\ npos' = npos + (IF v = {} THEN 1 ELSE 0)
        /\ nneg' = nneg + (IF v = {} THEN 0 ELSE 1)
  /\ i' = i + 1

Done == i > Len(Cases) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars

Verdict == i = Len(Cases) + 1 =>
  JsonSerialize("verdict.json", [accepted |-> npos, refused |-> nneg, bad |-> bad])
=============================================================================
