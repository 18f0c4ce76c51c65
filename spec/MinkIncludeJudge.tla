-------------------------- MODULE MinkIncludeJudge --------------------------
(* Observed loads: each record of obs.json is a configuration together with   *)
(* what the real compiler did with it: ok, and the files whose declarations   *)
(* it could see.                                                              *)
EXTENDS MinkInclude, Json
Obs == JsonDeserialize("obs.json")
VARIABLES i, bad, nacc, nrej
Init == i = 1 /\ bad = <<>> /\ nacc = 0 /\ nrej = 0
Step == /\ i <= Len(Obs)
        /\ LET x == Obs[i] o == TLCEval(Outcome(x.c)) v == {x.vis[k] : k \in DOMAIN x.vis}
               good == x.ok = o.ok /\ (x.ok => v = o.vis)
           IN /\ bad' = IF good THEN bad ELSE Append(bad, [case |-> i, ok |-> o.ok, vis |-> SetToSeq(o.vis)])
              /\ nacc' = nacc + (IF o.ok THEN 1 ELSE 0) /\ nrej' = nrej + (IF o.ok THEN 0 ELSE 1)
        /\ i' = i + 1
Next == Step \/ (i > Len(Obs) /\ UNCHANGED <<i, bad, nacc, nrej>>)
Spec == Init /\ [][Next]_<<i, bad, nacc, nrej>>
Verdict == i = Len(Obs) + 1 =>
  JsonSerialize("verdict.json", [accepted |-> nacc, refused |-> nrej, bad |-> bad])
=============================================================================
