-------------------------- MODULE MinkReviseTrace ---------------------------
(* Two revisions and the text generated for them, judged against MinkRevise. *)
(* pairs.json: Seq([a, b : programs, texts : Seq([f, gone, old, new, w])])   *)
(* old, new: the fragments of a generated file, Seq([p : place, o : is the   *)
(* order at that place significant, t : text, m : interfaces it mentions]),  *)
(* w[i] the fragment of new that stands for old[i] (0: none was found).      *)
EXTENDS MinkRevise, Json

Pairs == JsonDeserialize("pairs.json")
VARIABLES n, bad, frs
vars == <<n, bad, frs>>

\* fragments of old which are about stable interfaces only
Must(st, t) == {i \in DOMAIN t.old : Rng(t.old[i].m) \subseteq st}
Lost(st, t) == {i \in Must(st, t) : t.w[i] = 0 \/ t.new[t.w[i]].p # t.old[i].p \/ t.new[t.w[i]].t # t.old[i].t}
\* the witness is one to one, and monotone where order is significant
Mixed(st, t) ==
  LET ws == Must(st, t) \ Lost(st, t)
      used == {t.w[i] : i \in ws}
      ord == SetToSortSeq({i \in ws : t.old[i].o}, <)
      places == {t.old[ord[k]].p : k \in DOMAIN ord}
      at(pl) == SelectSeq(ord, LAMBDA i : t.old[i].p = pl)
  IN \/ Cardinality(used) # Cardinality(ws)
     \/ \E pl \in places : LET q == at(pl) IN \E k \in 1..(Len(q) - 1) : t.w[q[k]] >= t.w[q[k + 1]]

Judge(x) ==
  LET ea == Env(x.a) eb == Env(x.b) st == Stable(ea, eb) IN
  (IF Revises(x.a, x.b) THEN <<>> ELSE <<[text |-> 0, lost |-> {}, label |-> "history"]>>)
  \o FlattenSeq([j \in DOMAIN x.texts |->
       LET t == x.texts[j] l == IF t.gone THEN {} ELSE Lost(st, t) IN
       IF t.gone THEN <<[text |-> j, lost |-> {}, label |-> "gone"]>>
       ELSE IF l # {} THEN <<[text |-> j, lost |-> l, label |-> "lost"]>>
       ELSE IF Mixed(st, t) THEN <<[text |-> j, lost |-> {}, label |-> "mixed"]>> ELSE <<>>])

Init == n = 1 /\ bad = <<>> /\ frs = 0
Step == /\ n <= Len(Pairs)
        /\ LET r == TLCEval(Judge(Pairs[n])) IN bad' = bad \o [k \in DOMAIN r |-> [case |-> n] @@ r[k]]
        /\ frs' = frs + SumSeq([j \in DOMAIN Pairs[n].texts |-> Len(Pairs[n].texts[j].old)])
        /\ n' = n + 1
Next == Step \/ (n > Len(Pairs) /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Verdict == n = Len(Pairs) + 1 => JsonSerialize("verdict.json", [fragments |-> frs, pairs |-> Len(Pairs), bad |-> bad])
=============================================================================
