--------------------------- MODULE MinkRefuseGen ---------------------------
(* Writes the invocations around every method of the given servers.          *)
(* servers.json: Seq([p, i]); progs.json                                     *)
EXTENDS MinkRefuse, Json

Progs == JsonDeserialize("progs.json")
Servers == JsonDeserialize("servers.json")
Raws(z) == LET env == Env(Progs[z.p]) IN
  UNION {Perturbed(env, z.i, o) : o \in 0..(Len(Methods(env, z.i)) - 1)} \cup Foreign(env, z.i)

VARIABLES n, out
Init == n = 1 /\ out = <<>>
Next == \/ n <= Len(Servers) /\ out' = Append(out, SetToSeq(TLCEval(Raws(Servers[n])))) /\ n' = n + 1
        \/ n > Len(Servers) /\ UNCHANGED <<n, out>>
Spec == Init /\ [][Next]_<<n, out>>
Done == n = Len(Servers) + 1 => JsonSerialize("raws.json", out)
=============================================================================
