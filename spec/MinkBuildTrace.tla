--------------------------- MODULE MinkBuildTrace ----------------------------
(* Recorded builds.  builds.json: Seq([p : program, runs : Seq([t : target,  *)
(* gen : 0 if every file was written, us : Seq([unit, rc, say])])]).         *)
(* A run is replayed step by step: files written, units translated, link.    *)
EXTENDS MinkBuild, Json

Builds == JsonDeserialize("builds.json")
VARIABLES n, bad, tot
vars == <<n, bad, tot>>

Steps(p, r) ==
  LET seen == {r.us[i].unit : i \in DOMAIN r.us} IN
  (IF r.gen # 0 THEN {[unit |-> "*", what |-> "files are not written"]} ELSE
     {[unit |-> r.us[i].unit, what |-> IF r.us[i].rc # 0 THEN "is rejected" ELSE "draws a warning"] : i \in {k \in DOMAIN r.us : r.us[k].rc # 0 \/ r.us[k].say # 0}}
     \cup {[unit |-> u, what |-> "was not built"] : u \in {w \in Wanted(p, r.t) \ seen :
             ~(w = "link" /\ \E i \in DOMAIN r.us : r.us[i].rc # 0)}})
Judge(b) ==
  LET env == Env(b.p) IN
  FlattenSeq([j \in DOMAIN b.runs |->
    LET r == b.runs[j] IN
    IF Unsupported(env, r.t) THEN <<>> ELSE
    LET s == TLCEval(SetToSeq(Steps(b.p, r))) c == IF s = <<>> THEN {} ELSE Clash(r.t, b.p, env) IN
    [i \in DOMAIN s |-> [run |-> j, unit |-> s[i].unit, what |-> s[i].what, clash |-> SetToSeq(c)]]])

Init == n = 1 /\ bad = <<>> /\ tot = [units |-> 0, runs |-> 0, lawful |-> 0]
Step == /\ n <= Len(Builds)
        /\ LET r == TLCEval(Judge(Builds[n])) IN bad' = bad \o [k \in DOMAIN r |-> [case |-> n] @@ r[k]]
        /\ tot' = [units |-> tot.units + SumSeq([j \in DOMAIN Builds[n].runs |-> Len(Builds[n].runs[j].us)]),
                   runs |-> tot.runs + Len(Builds[n].runs),
                   lawful |-> tot.lawful + (IF Violations(Builds[n].p, FALSE) = {} THEN 1 ELSE 0)]
        /\ n' = n + 1
Next == Step \/ (n > Len(Builds) /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Verdict == n = Len(Builds) + 1 => JsonSerialize("verdict.json", [units |-> tot.units, runs |-> tot.runs, lawful |-> tot.lawful, programs |-> Len(Builds), bad |-> bad])
=============================================================================
