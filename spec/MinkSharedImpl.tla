--------------------------- MODULE MinkSharedImpl ---------------------------
(* How the object library and the generated skeleton do it, one atomic step  *)
(* at a time: an atomic reference count (fetch_add to clone, fetch_sub to    *)
(* release, the release that finds one frees the box) and a mutex held while *)
(* a body runs, which reads the implementation's state and writes it back.   *)
(* TLC checks that every behaviour is one of MinkShared (Refines) and that   *)
(* dropping every handle frees the implementation (Eventually).  Atomic,     *)
(* Locked, Held switch those three features off, for which TLC finds         *)
(* counterexamples: the specification does reject such implementations.      *)
EXTENDS MinkShared
CONSTANTS N, Ops, Atomic, Locked, Held
T == 0..N
VARIABLES
  refs, mutex, cell, boxed,   \* reference count, mutex, the implementation's state, whether the box exists
  pc, tmp,                    \* per thread: what it does next, its register
  n,                          \* operations left per thread
  s, errs                     \* the specification's view: state and what was wrong

vars == <<refs, mutex, cell, boxed, pc, tmp, n, s, errs>>

Init == /\ refs = 1 /\ mutex = None /\ cell = 0 /\ boxed = TRUE
        /\ pc = [t \in T |-> "idle"] /\ tmp = [t \in T |-> 0] /\ n = [t \in T |-> Ops]
        /\ s = Apply(Start(T), <<"n", 0, 0, 0>>) /\ errs = {}

See(e) == s' = Apply(s, e) /\ errs' = errs \cup Labels(s, e)
Quiet == UNCHANGED <<s, errs>>
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Touch == errs' = (IF boxed THEN errs ELSE errs \cup {"use-after-free"})

\* clone: fetch_add; without atomicity, a read and a write
Clone(t) ==
  /\ pc[t] = "idle" /\ n[t] > 0 /\ s.own[t] > 0 /\ n' = [n EXCEPT ![t] = @ - 1]
  /\ IF Atomic
     THEN refs' = refs + 1 /\ See(<<"c", t, 0, 0>>) /\ UNCHANGED <<pc, tmp>>
     ELSE tmp' = [tmp EXCEPT ![t] = refs] /\ Go(t, "clone2") /\ UNCHANGED refs /\ Quiet
  /\ UNCHANGED <<mutex, cell, boxed>>
Clone2(t) == /\ pc[t] = "clone2" /\ refs' = tmp[t] + 1 /\ Go(t, "idle") /\ See(<<"c", t, 0, 0>>)
             /\ UNCHANGED <<mutex, cell, boxed, tmp, n>>
Give(t, u) == /\ pc[t] = "idle" /\ t # u /\ s.own[t] > 0 /\ n[t] > 0 /\ n' = [n EXCEPT ![t] = @ - 1] /\ See(<<"g", t, u, 0>>)
              /\ UNCHANGED <<refs, mutex, cell, boxed, pc, tmp>>
\* drop: the handle is gone, then fetch_sub, then free if it found one
DropB(t) == /\ pc[t] = "idle" /\ s.own[t] > 0 /\ See(<<"d", t, 0, 0>>) /\ Go(t, "sub") /\ UNCHANGED <<refs, mutex, cell, boxed, tmp, n>>
Sub(t) == /\ pc[t] = "sub" /\ refs' = refs - 1 /\ Go(t, IF refs = 1 THEN "free" ELSE "end") /\ UNCHANGED s /\ Touch
          /\ UNCHANGED <<mutex, cell, boxed, tmp, n>>
Free(t) == /\ pc[t] = "free" /\ boxed' = FALSE /\ Go(t, "end") /\ See(<<"f", t, 0, cell>>) /\ UNCHANGED <<refs, mutex, cell, tmp, n>>
DropE(t) == /\ pc[t] = "end" /\ Go(t, "idle") /\ See(<<"x", t, 0, 0>>) /\ UNCHANGED <<refs, mutex, cell, boxed, tmp, n>>
\* a call: lock, read, write, unlock.  Not Held: the mutex is taken and given back before the body.
Call(t) == /\ pc[t] = "idle" /\ n[t] > 0 /\ s.own[t] > 0 /\ n' = [n EXCEPT ![t] = @ - 1] /\ Go(t, "lock") /\ See(<<"C", t, 1, 0>>)
           /\ UNCHANGED <<refs, mutex, cell, boxed, tmp>>
Lock(t) == /\ pc[t] = "lock" /\ (Locked => mutex = None) /\ mutex' = (IF Locked /\ Held THEN t ELSE mutex)
           /\ Go(t, "read") /\ UNCHANGED s /\ Touch /\ UNCHANGED <<refs, cell, boxed, tmp, n>>
Read(t) == /\ pc[t] = "read" /\ tmp' = [tmp EXCEPT ![t] = cell] /\ Go(t, "write") /\ See(<<"E", t, 1, cell>>)
           /\ UNCHANGED <<refs, mutex, cell, boxed, n>>
Write(t) == /\ pc[t] = "write" /\ cell' = tmp[t] + 1 /\ Go(t, "unlock") /\ See(<<"L", t, 1, tmp[t] + 1>>)
            /\ UNCHANGED <<refs, mutex, boxed, tmp, n>>
Unlock(t) == /\ pc[t] = "unlock" /\ mutex' = (IF mutex = t THEN None ELSE mutex) /\ Go(t, "ret") /\ UNCHANGED s /\ Touch
             /\ UNCHANGED <<refs, cell, boxed, tmp, n>>
Ret(t) == /\ pc[t] = "ret" /\ Go(t, "idle") /\ See(<<"R", t, 1, 0>>) /\ UNCHANGED <<refs, mutex, cell, boxed, tmp, n>>

Act(t) == Clone(t) \/ Clone2(t) \/ DropB(t) \/ Sub(t) \/ Free(t) \/ DropE(t) \/ Call(t) \/ Lock(t) \/ Read(t) \/ Write(t) \/ Unlock(t) \/ Ret(t)
          \/ \E u \in T : Give(t, u)
Next == \E t \in T : Act(t)
Spec == Init /\ [][Next]_vars /\ \A t \in T : WF_vars(Act(t))

Refines == errs = {}
Count == (s.freed = 0 /\ Atomic) => refs = Handles(s) + Cardinality({t \in T : pc[t] \in {"sub", "free"}}) - Cardinality({t \in T : pc[t] = "free"})
Freed == Handles(s) = 0 /\ (\A t \in T : pc[t] = "idle") => s.freed = 1
\* every handle is dropped in the end (threads always may drop), so the implementation is
Eventually == <>(s.freed = 1)
=============================================================================
