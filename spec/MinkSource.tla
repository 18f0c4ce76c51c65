----------------------------- MODULE MinkSource -----------------------------
(* What an edit without interface meaning may change in the output.           *)
(* pairs.json: records relating the output a of one compilation to the output *)
(* b of another.  A lexed output is a sequence of tokens [k, s], k = "c" for   *)
(* a comment and "t" for a token of code.                                      *)
(*  rel "same"    the outputs are the same files, byte for byte: fa, fb :      *)
(*                Seq([n, d])                                                  *)
(*  rel "doc"     only comments attached to the methods ms : Seq([i, m]) may   *)
(*                differ                                                       *)
(*  rel "marking" b is a prefix consisting of comments only, followed by a     *)
(*  rel "untyped" C: tokens differ only where a names an interface (objs) and  *)
(*                b says Object                                                *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

Pairs == JsonDeserialize("pairs.json")
Rng(s) == {s[i] : i \in DOMAIN s}

Code(s) == SelectSeq(s, LAMBDA t : t.k = "t")

\* comments of s grouped by the number of code tokens before them
Before(s) == [i \in 1..(Len(s)+1) |-> 0]
RECURSIVE Group(_,_,_,_)
Group(s, i, n, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF s[i].k = "t" THEN Group(s, i+1, n+1, acc)
  ELSE Group(s, i+1, n, [acc EXCEPT ![n] = Append(@, s[i].s)])
Comments(s, n) == Group(s, 1, 1, [k \in 1..(n+1) |-> <<>>])

\* spellings of a method's name in generated code
Names(i, m) == {m, i \o "_" \o m, "r#" \o m}

\* the declaration that starts at code position n: its tokens up to the first parenthesis
RECURSIVE Head2(_,_,_)
Head2(cd, n, lim) ==
  IF n > Len(cd) \/ lim = 0 \/ cd[n].s = "(" THEN {} ELSE {cd[n].s} \cup Head2(cd, n+1, lim-1)

DocOk(x) ==
  LET ca == TLCEval(Code(x.a)) cb == TLCEval(Code(x.b)) IN
  /\ ca = cb
  /\ LET ga == TLCEval(Comments(x.a, Len(ca))) gb == TLCEval(Comments(x.b, Len(cb)))
         nm == UNION {Names(x.ms[k].i, x.ms[k].m) : k \in DOMAIN x.ms}
     IN \A n \in DOMAIN ga : ga[n] # gb[n] => Head2(ca, n, 12) \cap nm # {}

\* An interface's name as a type: an alias of Object, declared by the line
\* `typedef Object I;' which has no purpose once no signature says I.  Whether
\* the elements of an array of objects are const belongs to the spelling.
TD(s, j, O) == /\ j >= 1 /\ j + 3 <= Len(s)
               /\ s[j].s = "typedef" /\ s[j+1].s = "Object"
               /\ s[j+2].s \in O /\ s[j+3].s = ";"
Spelling(s, O) ==
  LET keep == [n \in DOMAIN s |->
        /\ ~ \E j \in (n-3)..n : TD(s, j, O)
        /\ ~ (s[n].s = "const" /\ n < Len(s) /\ s[n+1].s \in O \cup {"Object"})]
      say(t) == IF t.k = "t" /\ t.s \in O THEN [t EXCEPT !.s = "Object"] ELSE t
  IN FoldLeft(LAMBDA acc, n : IF keep[n] THEN Append(acc, say(s[n])) ELSE acc, <<>>, [n \in DOMAIN s |-> n])

UntypedOk(x) == LET O == Rng(x.objs) IN
  Spelling(x.a, O) = Spelling(x.b, O)


Legal(x) ==
  CASE x.rel = "same" -> x.fa = x.fb
    [] x.rel = "doc" -> DocOk(x)
    [] x.rel = "marking" -> x.suffix /\ x.prefix # <<>> /\ \A n \in DOMAIN x.prefix : x.prefix[n].k = "c"
    [] x.rel = "untyped" -> UntypedOk(x)

VARIABLES i, bad
Init == i = 1 /\ bad = <<>>
Step == /\ i <= Len(Pairs)
        /\ bad' = IF Legal(Pairs[i]) THEN bad ELSE Append(bad, [case |-> i])
        /\ i' = i + 1
Next == Step \/ (i > Len(Pairs) /\ UNCHANGED <<i, bad>>)
Spec == Init /\ [][Next]_<<i, bad>>
Verdict == i = Len(Pairs) + 1 => JsonSerialize("verdict.json", [pairs |-> Len(Pairs), bad |-> bad])
=============================================================================
