----------------------------- MODULE MinkLoader -----------------------------
(* The loader as a machine: a stack of (file, next include), the set of files  *)
(* loaded so far.  TLC checks on every small configuration that it stops, that *)
(* it loads no file twice, and that it ends in the declarative outcome of      *)
(* MinkInclude; it also writes the configurations for replay into the real     *)
(* compiler.                                                                   *)
EXTENDS MinkInclude, Json

CONSTANT Sample      \* write every Sample-th configuration

D0 == <<"d0">>
D1 == <<"d1">>
D2 == <<"d0", "s">>
DirList == <<(<<>>), D0, D1, D2>>
B(n) == [bare |-> TRUE, up |-> <<>>, name |-> n]
P(u, n) == [bare |-> FALSE, up |-> u, name |-> n]
Incs == {B("a"), B("b"), B("main"), P(<<".">>, "a"), P(<<"..", "d1">>, "a"), P(<<"s">>, "b"), P(<<"..", "d0", "s", "..">>, "b")}
Seqs1 == {<<>>} \cup {<<x>> : x \in Incs}
MainIncs == {<<x>> : x \in Incs} \cup {<<x, y>> : x, y \in Incs}
Absent == <<B("-")>>
Opt == Seqs1 \cup {Absent}
Searches == {<<>>, <<D1>>, <<D1, D0>>, <<D2, D1>>}

F(d, n, i) == [dir |-> d, name |-> n, incs |-> i]
Keep(i, f) == IF i = Absent THEN <<>> ELSE <<f>>
Cfg(m, a0, a1, b1, b2, s) ==
  [files |-> <<F(D0, "main", m)>> \o Keep(a0, F(D0, "a", a0)) \o Keep(a1, F(D1, "a", a1))
             \o Keep(b1, F(D1, "b", b1)) \o Keep(b2, F(D2, "b", b2)),
   main |-> 1, search |-> s, dirs |-> DirList]

VARIABLES c, stack, loaded, loads, res, seen
vars == <<c, stack, loaded, loads, res, seen>>

\* the loader is a deterministic machine, so each configuration is one initial state; a fixed
\* part of the product is explored per run, chosen by Sample and the seed in seed.json
Seed == JsonDeserialize("seed.json")
Pick(S, salt) == LET q == SetToSeq(S) IN {q[k] : k \in {k \in DOMAIN q : (k * 7 + salt) % Sample = 0}}

Configs == {Cfg(m, a0, a1, b1, b2, s) : m \in MainIncs, a0 \in Opt, s \in Searches,
             a1 \in Pick(Opt, Seed.v), b1 \in Pick(Opt, Seed.v + 1), b2 \in Pick(Opt, Seed.v + 2)}
ASSUME JsonSerialize("configs.json", SetToSeq(Configs))
Init ==
  /\ c \in Configs
  /\ stack = <<(<<1, 1>>)>> /\ loaded = {1} /\ loads = 1 /\ res = "run" /\ seen = {}

Top == stack[Len(stack)]
Fl == Top[1]
OnStack == {stack[k][1] : k \in DOMAIN stack}

Fail == res' = "reject" /\ UNCHANGED <<c, stack, loaded, loads, seen>>

Include ==
  /\ res = "run" /\ stack # <<>> /\ Top[2] <= Len(c.files[Fl].incs)
  /\ LET t == Resolve(c, Fl, c.files[Fl].incs[Top[2]])
         adv == [stack EXCEPT ![Len(stack)] = <<Fl, Top[2] + 1>>]
     IN IF t = 0 THEN Fail
        ELSE IF t \in OnStack THEN Fail
        ELSE IF t \in loaded THEN stack' = adv /\ UNCHANGED <<c, loaded, loads, res, seen>>
        ELSE stack' = Append(adv, <<t, 1>>) /\ loaded' = loaded \cup {t} /\ loads' = loads + 1
             /\ UNCHANGED <<c, res, seen>>
Leave ==
  /\ res = "run" /\ stack # <<>> /\ Top[2] > Len(c.files[Fl].incs)
  /\ seen' = seen \cup {Fl}
  /\ stack' = SubSeq(stack, 1, Len(stack)-1) /\ UNCHANGED <<c, loaded, loads, res>>
Finish == res = "run" /\ stack = <<>> /\ res' = "accept" /\ UNCHANGED <<c, stack, loaded, loads, seen>>
Next == Include \/ Leave \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

OnceInv == loads = Cardinality(loaded)
OutcomeInv ==
  /\ (res = "accept" => Outcome(c) = [ok |-> TRUE, vis |-> seen])
  /\ (res = "reject" => ~Outcome(c).ok)
Terminates == <>(res # "run")
=============================================================================
