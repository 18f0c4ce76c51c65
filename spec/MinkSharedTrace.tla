-------------------------- MODULE MinkSharedTrace ---------------------------
(* Logs of real executions, judged step by step against MinkShared.          *)
(* logs.json: Seq([n : number of threads, ev : Seq(event)]).                 *)
EXTENDS MinkShared, Json

Logs == JsonDeserialize("logs.json")
VARIABLES n, k, s, bad, steps
vars == <<n, k, s, bad, steps>>

S0(j) == IF j > Len(Logs) THEN 0 ELSE Start(0..Logs[j].n)
Init == n = 1 /\ k = 1 /\ s = S0(1) /\ bad = <<>> /\ steps = 0
Step ==
  /\ n <= Len(Logs) /\ k <= Len(Logs[n].ev)
  /\ LET e == Logs[n].ev[k] ls == Labels(s, e) IN
     /\ s' = Apply(s, e)
     /\ bad' = IF ls = {} THEN bad ELSE Append(bad, [case |-> n, at |-> k, labels |-> ls])
  /\ k' = k + 1 /\ steps' = steps + 1 /\ UNCHANGED n
End == /\ n <= Len(Logs) /\ k > Len(Logs[n].ev)
       /\ bad' = IF Logs[n].ev[k - 1][1] = "z" THEN bad ELSE Append(bad, [case |-> n, at |-> k, labels |-> {"crash"}])
       /\ n' = n + 1 /\ k' = 1 /\ s' = S0(n + 1) /\ UNCHANGED steps
Next == Step \/ End \/ (n > Len(Logs) /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Verdict == n = Len(Logs) + 1 => JsonSerialize("verdict.json", [steps |-> steps, logs |-> Len(Logs), bad |-> bad])
=============================================================================
