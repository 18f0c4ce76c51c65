-------------------------- MODULE MinkReviseModel ---------------------------
(* Every append-only history of at most Depth steps of a small file set with *)
(* a hierarchy of three levels, a second branch, and a struct.  Checked:     *)
(* every step is a revision, and of every revision in the past what is       *)
(* stable is kept (Keeps).  AllKept - that everything is kept, stable or not *)
(* - is not an invariant: the clause about strict ancestors is needed.       *)
(* The histories themselves are written out, to be replayed on the compiler. *)
EXTENDS MinkRevise, Json
CONSTANT Depth

Par(d, t, a, n) == [d |-> d, t |-> t, a |-> a, n |-> n]
M(n, p) == [k |-> "method", n |-> n, opt |-> FALSE, p |-> p, attrs |-> <<>>]
E(n) == [k |-> "error", n |-> n]
K(n) == [k |-> "const", n |-> n, t |-> "uint8", v |-> [neg |-> FALSE, hex |-> FALSE, i |-> <<7>>, f |-> <<>>, dot |-> FALSE]]
I(n, b, m) == [k |-> "iface", n |-> n, b |-> b, m |-> m]
S(n) == [k |-> "struct", n |-> n, fields |-> <<[t |-> "uint32", n |-> "a", c |-> 2, arr |-> TRUE]>>]

P0 == [main |-> 2, files |-> <<
  [name |-> "base", incs |-> <<>>, decls |-> <<
     S("S0"), I("A", "", <<M("a1", <<Par("in", "S0", -1, "s"), Par("out", "uint8", -1, "x")>>), E("EA")>>)>>],
  [name |-> "top", incs |-> <<1>>, decls |-> <<
     I("B", "A", <<E("EB"), M("b1", <<Par("in", "A", -1, "o"), Par("in", "buffer", -1, "y")>>), K("KB")>>),
     I("C", "B", <<M("c1", <<Par("out", "uint64", 0, "z"), Par("in", "uint16", -1, "k")>>)>>),
     I("D", "A", <<>>)>>]>>]

VARIABLES p, past, h
vars == <<p, past, h>>
N(k) == ToString(k)
Tag == N(Len(h))

Acts == {<<k, n>> : k \in {"method", "error", "const"}, n \in {"A", "B", "C", "D"}}
        \cup {<<k, f>> : k \in {"struct", "fconst", "iface", "derive"}, f \in {"1", "2"}}

Member(k) == CASE k = "method" -> M("nm" \o Tag, <<Par("in", "uint64", -1, "q"), Par("in", "uint8", -1, "r"), Par("out", "interface", -1, "w")>>)
               [] k = "error" -> E("NE" \o Tag)
               [] OTHER -> K("NK" \o Tag)
Decl(k) == CASE k = "struct" -> S("NS" \o Tag)
             [] k = "fconst" -> K("NF" \o Tag)
             [] k = "iface" -> I("NI" \o Tag, "", <<M("nn" \o Tag, <<>>)>>)
             [] OTHER -> I("ND" \o Tag, "A", <<E("NDE" \o Tag), M("nd" \o Tag, <<>>)>>)
Grow(q, n, m) == [q EXCEPT !.files = [i \in DOMAIN q.files |-> [q.files[i] EXCEPT !.decls =
   [j \in DOMAIN q.files[i].decls |-> LET d == q.files[i].decls[j] IN IF d.k = "iface" /\ d.n = n THEN [d EXCEPT !.m = Append(@, m)] ELSE d]]]]
\* a declaration is added before all others (order among declarations has no meaning)
AddDecl(q, f, d) == [q EXCEPT !.files[f].decls = <<d>> \o @]

Do(a) == IF a[1] \in {"method", "error", "const"} THEN Grow(p, a[2], Member(a[1])) ELSE AddDecl(p, IF a[2] = "1" THEN 1 ELSE 2, Decl(a[1]))
Init == p = P0 /\ past = <<>> /\ h = <<>>
Next == /\ Len(h) < Depth
        /\ \E a \in Acts : p' = Do(a) /\ past' = Append(past, p) /\ h' = Append(h, a)
Spec == Init /\ [][Next]_vars

IsRevision == \A i \in DOMAIN past : Revises(past[i], p)
Keeps == LET eb == Env(p) IN \A i \in DOMAIN past : LET ea == Env(past[i]) IN
  /\ LayoutKept(ea, eb)
  /\ \A n \in Stable(ea, eb) : Kept(ea, eb, n) /\ Beyond(ea, eb, n)
AllKept == LET eb == Env(p) IN \A i \in DOMAIN past : LET ea == Env(past[i]) IN \A n \in DOMAIN ea.ifaces : Kept(ea, eb, n)

Histories == UNION {[1..d -> Acts] : d \in 1..Depth}
Emit == h = <<>> => JsonSerialize("histories.json", SetToSeq(Histories))
=============================================================================
