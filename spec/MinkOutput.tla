----------------------------- MODULE MinkOutput -----------------------------
(* What one execution of the compiler may do to the file system.              *)
(* runs.json: executions                                                      *)
(*  [who    backend, st "ok" | "rej" | "bad",                                 *)
(*   main   : [n, nl, decls : Seq([k, n, nl])]  the main file's stem and      *)
(*            declarations; nl is the name in lower case,                     *)
(*   out    the place given (or defaulted): a file for C and C++, a directory *)
(*          (with a final slash, or "" for the root of the snapshot),         *)
(*   before, after : Seq([n, d, t]) every file and directory in reach: name,  *)
(*          digest of the contents, identity and time of modification,        *)
(*   fresh  : Seq([n, d]) what the same execution leaves when out is empty,   *)
(*   text   : Seq([n, pre, open]) of each file written: the comments before   *)
(*          the first token of code, and its brackets in order,               *)
(*   marked : a marking was given, banner : the generator's banner]           *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

Runs == JsonDeserialize("runs.json")
Rng(s) == {s[i] : i \in DOMAIN s}
Names(s) == {s[i].n : i \in DOMAIN s}

CFamily == {"c", "c-skel", "cpp", "cpp-skel"}
Of(x, kinds) == SelectSeq(x.main.decls, LAMBDA d : d.k \in kinds)
HasGlobals(x) == Of(x, {"const", "struct"}) # <<>>

\* the files an accepted input has
Expected(x) ==
  CASE x.who \in CFamily -> {x.out}
    [] x.who = "rust" -> {x.out \o d.nl \o ".rs" : d \in Rng(Of(x, {"iface"}))}
                         \cup (IF HasGlobals(x) THEN {x.out \o x.main.nl \o ".rs"} ELSE {})
    [] x.who = "java" -> {x.out \o d.n \o ".java" : d \in Rng(Of(x, {"iface"}))}
                         \cup (IF HasGlobals(x) THEN {x.out \o x.main.n \o ".java"} ELSE {})
\* a file-level module without constants and structs may be written or not
Optional(x) == IF x.who = "java" THEN {x.out \o x.main.n \o ".java"} ELSE {}

RECURSIVE Balanced(_,_,_)
Balanced(b, i, stack) ==
  IF i > Len(b) THEN stack = <<>>
  ELSE IF b[i] \in {"{", "(", "["} THEN Balanced(b, i+1, Append(stack, b[i]))
  ELSE /\ stack # <<>>
       /\ <<stack[Len(stack)], b[i]>> \in {<<"{","}">>, <<"(",")">>, <<"[","]">>}
       /\ Balanced(b, i+1, SubSeq(stack, 1, Len(stack)-1))

Touched(x) ==   \* appeared, disappeared or changed
  LET B == Rng(x.before) A == Rng(x.after) IN {r.n : r \in (A \ B) \cup (B \ A)}

Why(x) ==
  CASE x.st = "bad" -> "crash"
    [] x.st = "rej" -> IF Touched(x) = {} THEN "" ELSE "rejected, yet changed files"
    [] OTHER ->
       LET E == Expected(x) A == Rng(x.after) F == Rng(x.fresh)
           W == {r.n : r \in F} IN
       IF ~(E \subseteq Names(x.after)) THEN "expected file missing"
       ELSE IF ~(E \subseteq W /\ W \subseteq E \cup Optional(x)) THEN "not the expected files"
       ELSE IF ~(Touched(x) \subseteq W) THEN "touched another file"
       ELSE IF \E f \in F : ~ \E r \in A : r.n = f.n /\ r.d = f.d THEN "contents depend on what was there"
       ELSE IF \E i \in DOMAIN x.text :
                 LET p == x.text[i].pre IN
                 ~ \E k \in DOMAIN p : p[k] = x.banner /\ (x.marked \/ k = 1) THEN "no banner"
       ELSE IF \E i \in DOMAIN x.text : ~Balanced(x.text[i].open, 1, <<>>) THEN "incomplete"
       ELSE IF {x.text[i].n : i \in DOMAIN x.text} # W THEN "no text" ELSE ""

VARIABLES i, bad
Init == i = 1 /\ bad = <<>>
Step == /\ i <= Len(Runs)
        /\ LET w == Why(Runs[i]) IN bad' = IF w = "" THEN bad ELSE Append(bad, [case |-> i, why |-> w])
        /\ i' = i + 1
Next == Step \/ (i > Len(Runs) /\ UNCHANGED <<i, bad>>)
Spec == Init /\ [][Next]_<<i, bad>>
Verdict == i = Len(Runs) + 1 => JsonSerialize("verdict.json", [runs |-> Len(Runs), bad |-> bad])
=============================================================================
