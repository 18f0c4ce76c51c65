----------------------------- MODULE MinkShared -----------------------------
(* One object made from a Rust implementation, shared by threads: handles    *)
(* are cloned, given to other threads, put aside, dropped; methods are       *)
(* invoked through them.  Thread 0 made the object.                          *)
(*                                                                           *)
(* The state s: own[t] handles the thread t has, pool handles put aside,     *)
(* ph[t] where t is with its invocation ("idle", "wait" at the lock, "in" a  *)
(* body, "left" it), arg[t] the method, drp[t] whether t is dropping a       *)
(* handle, lock the thread inside the implementation (-1: none), done the    *)
(* number of bodies completed - which is the effect bodies have on the       *)
(* implementation -, freed how often the implementation was dropped.         *)
(*                                                                           *)
(* An event is <<name, t, a, v>>; Labels(s, e) is what is wrong with it in   *)
(* the state s, Apply(s, e) the state after it.                              *)
(*   n new           c clone        g give to a    p put aside   t take      *)
(*   C call a        E enter a, seeing v           L leave a, having done v  *)
(*   K leave without an effect (a look)            R return from a with v    *)
(*   d drop begins   x drop ends    f implementation dropped     z the end   *)
EXTENDS Integers, FiniteSets, Sequences

Look == 998
None == -1

Start(T) == [own |-> [t \in T |-> 0], pool |-> 0, ph |-> [t \in T |-> "idle"], arg |-> [t \in T |-> 0],
             drp |-> [t \in T |-> FALSE], lock |-> None, done |-> 0, freed |-> 0, made |-> FALSE]

RECURSIVE SumOver(_, _)
SumOver(f, T) == IF T = {} THEN 0 ELSE LET t == CHOOSE x \in T : TRUE IN f[t] + SumOver(f, T \ {t})
Handles(s) == s.pool + SumOver(s.own, DOMAIN s.own)
Alive(s) == s.made /\ s.freed = 0 /\ Handles(s) > 0

W(ok, l) == IF ok THEN {} ELSE {l}

Labels(s, e) ==
  LET t == e[2] a == e[3] v == e[4] IN
  CASE e[1] = "n" -> W(~s.made, "order")
    [] e[1] = "c" -> W(Alive(s), "after-free")
    [] e[1] = "g" -> W(s.own[t] > 0, "order")
    [] e[1] = "p" -> W(s.own[t] > 0, "order")
    [] e[1] = "t" -> W(s.pool > 0, "order")
    [] e[1] = "C" -> W(Alive(s), "after-free") \cup W(s.ph[t] = "idle" /\ ~s.drp[t], "order")
    [] e[1] = "E" -> UNION { W(s.ph[t] = "wait" /\ s.arg[t] = a, "order"), W(s.lock = None, "overlap"),
                             W(v = s.done, "effects"), W(Alive(s), "after-free") }
    [] e[1] = "L" -> W(s.lock = t /\ s.ph[t] = "in" /\ s.arg[t] = a, "overlap") \cup W(v = s.done + 1, "effects") \cup W(Alive(s), "after-free")
    [] e[1] = "K" -> W(s.lock = t /\ s.ph[t] = "in" /\ s.arg[t] = a, "overlap") \cup W(v = s.done, "effects") \cup W(Alive(s), "after-free")
    [] e[1] = "R" -> W(s.ph[t] = "left" /\ s.arg[t] = a, "not-run")
    [] e[1] = "d" -> W(s.own[t] > 0 /\ ~s.drp[t], "order")
    [] e[1] = "f" -> UNION { W(s.drp[t], "not-by-release"), W(s.freed = 0, "dropped-twice"),
                             W(s.made /\ Handles(s) = 0, "dropped-early"), W(s.lock = None, "dropped-in-body"),
                             W(v = s.done, "effects") }
    [] e[1] = "x" -> W(s.drp[t], "order")
    [] e[1] = "z" -> W(Handles(s) = 0 /\ \A u \in DOMAIN s.own : s.ph[u] = "idle" /\ ~s.drp[u], "order") \cup W(s.freed >= 1, "never-dropped")
    [] OTHER -> {"crash"}

Apply(s, e) ==
  LET t == e[2] a == e[3] IN
  CASE e[1] = "n" -> [s EXCEPT !.made = TRUE, !.own[t] = 1]
    [] e[1] = "c" -> [s EXCEPT !.own[t] = @ + 1]
    [] e[1] = "g" -> [s EXCEPT !.own[t] = @ - 1, !.own[a] = @ + 1]
    [] e[1] = "p" -> [s EXCEPT !.own[t] = @ - 1, !.pool = @ + 1]
    [] e[1] = "t" -> [s EXCEPT !.own[t] = @ + 1, !.pool = @ - 1]
    [] e[1] = "C" -> [s EXCEPT !.ph[t] = "wait", !.arg[t] = a]
    [] e[1] = "E" -> [s EXCEPT !.ph[t] = "in", !.lock = t]
    [] e[1] = "L" -> [s EXCEPT !.ph[t] = "left", !.lock = None, !.done = @ + 1]
    [] e[1] = "K" -> [s EXCEPT !.ph[t] = "left", !.lock = None]
    [] e[1] = "R" -> [s EXCEPT !.ph[t] = "idle"]
    [] e[1] = "d" -> [s EXCEPT !.own[t] = @ - 1, !.drp[t] = TRUE]
    [] e[1] = "f" -> [s EXCEPT !.freed = @ + 1]
    [] e[1] = "x" -> [s EXCEPT !.drp[t] = FALSE]
    [] OTHER -> s

\* a thread that is inside a call or dropping a handle does nothing else, besides what bodies do
MayStart(s, t) == s.ph[t] = "idle" /\ ~s.drp[t]
=============================================================================
