-------------------------- MODULE MinkRefuseTrace --------------------------
(* Recorded raw invocations judged against MinkRefuse.                       *)
(* raws.json: Seq([p, i, r, bare, st, ev])                                   *)
EXTENDS MinkRefuse, Json

Progs == JsonDeserialize("progs.json")
Raws == JsonDeserialize("raws.json")
Envs == TLCEval([k \in DOMAIN Progs |-> Env(Progs[k])])

Prov(c) == LET ms == Methods(Envs[c.p], c.i) IN ~(c.bare /\ c.r.op < Len(ms) /\ ms[c.r.op + 1].m.opt)
Labels(c) ==
  LET n == Len(c.ev) IN
  IF n < 2 \/ c.ev[n].ev # "raw" THEN {"crash"}
  ELSE RawLabels(Envs[c.p], c.i, c.r, Prov(c), c.st, c.ev[n])

VARIABLES n, bad, refused
vars == <<n, bad, refused>>
Init == n = 1 /\ bad = <<>> /\ refused = 0
Next == \/ /\ n <= Len(Raws) /\ n' = n + 1
           /\ LET ls == TLCEval(Labels(Raws[n])) IN
              bad' = IF ls = {} THEN bad ELSE Append(bad, [case |-> n, labels |-> ls])
           /\ refused' = refused + (IF MustRefuseRaw(Envs[Raws[n].p], Raws[n].i, Raws[n].r, Prov(Raws[n])) THEN 1 ELSE 0)
        \/ n > Len(Raws) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Verdict == n = Len(Raws) + 1 => JsonSerialize("verdict.json", [raws |-> Len(Raws), refused |-> refused, bad |-> bad])
=============================================================================
