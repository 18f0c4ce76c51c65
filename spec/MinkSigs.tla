----------------------------- MODULE MinkSigs ------------------------------
(* Every lawful signature of at most two parameters over an alphabet of      *)
(* parameter shapes: written to sigs.json, to be called in the real code,    *)
(* together with the envelope the specification gives it.                    *)
EXTENDS MinkWire, Json

P0 == JsonDeserialize("alphabet.json")
E0 == TLCEval(Env(P0))
Sane0 == TLCEval(SaneStructs(E0))
Shapes == JsonDeserialize("shapes.json")       \* Seq([t, a])

Param(s, d, k) == [d |-> d, t |-> s.t, a |-> s.a, n |-> <<"pa","pb">>[k]]
Dirs == {"in", "out"}
Sigs == {<<Param(Shapes[i], d, 1)>> : i \in DOMAIN Shapes, d \in Dirs}
        \cup {<<Param(Shapes[i], d, 1), Param(Shapes[j], c, 2)>> : i \in DOMAIN Shapes, j \in DOMAIN Shapes, d \in Dirs, c \in Dirs}
Meth(ps) == [k |-> "method", n |-> "m", p |-> ps, opt |-> FALSE, attrs |-> <<>>]
Lawful(ps) == MethodViol(E0, Sane0, Meth(ps)) = {} /\ Fits(Envelope(E0, Meth(ps)))

VARIABLE done
Init == done = FALSE
Next == done = FALSE /\ done' = JsonSerialize("sigs.json", SetToSeq({s \in Sigs : Lawful(s)}))
Spec == Init /\ [][Next]_done
=============================================================================
