------------------------------ MODULE MinkRuns ------------------------------
(* The compiler as a function.  runs.json is a log of executions               *)
(*   [key, st, diag, out : Seq([n, d])]                                        *)
(* key : everything the result may depend on, i.e. the contents of the file    *)
(*       set, the flags, the backend -- and not the build of the compiler, the *)
(*       working directory, the place of the files or the spelling of paths;   *)
(* st  : "ok" (exit 0), "rej" (non-zero exit), "bad" (signal, timeout);        *)
(* diag: something was printed on standard error;                              *)
(* out : names and digests of the files written, sorted by name;               *)
(* src : the bytes of the main file where no IDL is meant by them (or <<>>).   *)
(* The state is what has been learnt about the function so far.                *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, MinkText

Runs == JsonDeserialize("runs.json")
Keys == {Runs[i].key : i \in DOMAIN Runs}

VARIABLES i, known, bad
vars == <<i, known, bad>>
NoOut == [st |-> "?", out |-> <<>>]
Init == i = 1 /\ known = [k \in Keys |-> NoOut] /\ bad = <<>>

Result(r) == [st |-> r.st, out |-> r.out]
Total(r) == CASE r.st = "ok" -> r.out # <<>> \/ r.mayempty
              [] r.st = "rej" -> r.diag /\ r.out = <<>>
              [] OTHER -> FALSE
Why(r) ==
  IF r.st = "bad" THEN "crash"
  ELSE IF ~Total(r) THEN (IF r.st = "rej" THEN (IF r.diag THEN "rejected-with-output" ELSE "no-diagnostic") ELSE "no-output")
  ELSE IF r.st = "ok" /\ r.src # <<>> /\ Hopeless(r.src) THEN "accepted-no-text"
  ELSE IF known[r.key] # NoOut /\ known[r.key].st # r.st THEN "decision-differs"
  ELSE IF known[r.key] # NoOut /\ known[r.key] # Result(r) THEN "output-differs"
  ELSE ""

Run ==
  /\ i <= Len(Runs)
  /\ LET r == Runs[i] w == Why(r) IN
     /\ bad' = IF w = "" THEN bad ELSE Append(bad, [case |-> i, why |-> w])
     /\ known' = IF known[r.key] = NoOut /\ r.st # "bad" THEN [known EXCEPT ![r.key] = Result(r)] ELSE known
  /\ i' = i + 1
Next == Run \/ (i > Len(Runs) /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

\* what is known never changes
Stable == [][\A k \in Keys : known[k] # NoOut => known'[k] = known[k]]_vars
Verdict == i = Len(Runs) + 1 =>
  JsonSerialize("verdict.json", [runs |-> Len(Runs), keys |-> Cardinality(Keys), bad |-> bad])
=============================================================================
