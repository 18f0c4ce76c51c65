--------------------------- MODULE MinkJavaTrace ---------------------------
(* Recorded invocations through generated Java classes, judged step by step *)
(* against MinkJava.  calls.json: Seq([p : program, i : interface of the     *)
(* stub, m : name, prov, st, v, ev : Seq(event)]); progs.json: the programs. *)
EXTENDS MinkJava, Json

Progs == JsonDeserialize("progs.json")
Calls == JsonDeserialize("calls.json")
Envs == TLCEval([k \in DOMAIN Progs |-> Env(Progs[k])])

\* the call the record c is about, as the specification sees it
Resolve(c) ==
  LET env == Envs[c.p] op == OpNamed(env, c.i, c.m) IN
  [env |-> env, ifc |-> c.i, op |-> op, m |-> Methods(env, c.i)[op + 1].m, v |-> c.v, st |-> c.st, prov |-> c.prov]

VARIABLES n, k, ph, x, e, bad, steps
vars == <<n, k, ph, x, e, bad, steps>>

Load(j) == IF j > Len(Calls) THEN <<0, 0>>
           ELSE LET c == TLCEval(Resolve(Calls[j])) IN <<c, TLCEval(Envelope(c.env, c.m))>>
Init == /\ n = 1 /\ k = 1 /\ ph = "idle" /\ bad = <<>> /\ steps = 0
        /\ LET l == Load(1) IN x = l[1] /\ e = l[2]

Log(ls, ev) == IF ls = {} THEN bad ELSE Append(bad, [case |-> n, ev |-> ev, labels |-> ls])

\* one recorded step
Step ==
  /\ n <= Len(Calls) /\ k <= Len(Calls[n].ev)
  /\ LET o == Calls[n].ev[k]
         ls == TLCEval((IF o.ev = JAfter(ph, x) THEN {} ELSE {"order"}) \cup JLabels(x, e, o))
     IN bad' = Log(ls, o.ev) /\ ph' = o.ev
  /\ k' = k + 1 /\ steps' = steps + 1
  /\ UNCHANGED <<n, x, e>>
\* the record ends: an invocation that began has returned
End ==
  /\ n <= Len(Calls) /\ k > Len(Calls[n].ev)
  /\ bad' = Log(IF ph = "ret" THEN {} ELSE {"crash"}, "end")
  /\ n' = n + 1 /\ k' = 1 /\ ph' = "idle"
  /\ LET l == Load(n + 1) IN x' = l[1] /\ e' = l[2]
  /\ UNCHANGED steps
Next == Step \/ End \/ (n > Len(Calls) /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Verdict == n = Len(Calls) + 1 => JsonSerialize("verdict.json", [steps |-> steps, calls |-> Len(Calls), bad |-> bad])
=============================================================================
