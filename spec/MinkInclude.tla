---------------------------- MODULE MinkInclude ----------------------------
(* The include loader.                                                       *)
(*                                                                           *)
(* A configuration c is                                                      *)
(*   [files : Seq([dir, name, incs : Seq(inc)]), main : file, search : Seq(dir)] *)
(* dir is a sequence of path components below the root of the experiment,    *)
(* search the -I directories in command-line order; an include inc is        *)
(*   [bare : BOOLEAN, up : path, name]                                       *)
(* bare: only a file name.  Otherwise up is the directory part as written,   *)
(* a sequence of components ("." and ".." included) below the directory of   *)
(* the including file.                                                       *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

\* lexical normalisation is exact: the experiment has no links
RECURSIVE Walk(_,_)
Walk(dir, up) ==
  IF up = <<>> THEN dir
  ELSE LET h == Head(up) IN
       Walk(IF h = "." THEN dir
            ELSE IF h = ".." THEN (IF dir = <<>> THEN <<>> ELSE SubSeq(dir, 1, Len(dir)-1))
            ELSE Append(dir, h), Tail(up))

\* a path is only walkable through directories that exist
RECURSIVE Walkable(_,_,_)
Walkable(ds, dir, up) ==
  /\ dir \in ds
  /\ up # <<>> => Walkable(ds, Walk(dir, <<Head(up)>>), Tail(up))

At(c, dir, name) == {i \in DOMAIN c.files : c.files[i].dir = dir /\ c.files[i].name = name}

\* search order of a bare name: command line order, then the directory of the main file
Order(c) == Append(c.search, c.files[c.main].dir)

\* the file an include of file f designates; 0 when it cannot be resolved
Resolve(c, f, inc) ==
  IF inc.bare
  THEN LET o == Order(c)
           hits == {k \in DOMAIN o : At(c, o[k], inc.name) # {}}
       IN IF hits = {} THEN 0
          ELSE LET k == CHOOSE k \in hits : \A j \in hits : k <= j
               IN CHOOSE i \in At(c, o[k], inc.name) : TRUE
  ELSE LET dir == Walk(c.files[f].dir, inc.up) IN
       IF ~Walkable({c.dirs[k] : k \in DOMAIN c.dirs}, c.files[f].dir, inc.up) \/ At(c, dir, inc.name) = {} THEN 0
       ELSE CHOOSE i \in At(c, dir, inc.name) : TRUE

Targets(c, f) == [k \in DOMAIN c.files[f].incs |-> Resolve(c, f, c.files[f].incs[k])]

-----------------------------------------------------------------------------
(* Declarative outcome                                                       *)

Rel(c) == TLCEval([f \in DOMAIN c.files |-> {Targets(c, f)[k] : k \in DOMAIN c.files[f].incs}])

RECURSIVE Grow(_,_,_)
Grow(S, front, rel) ==
  LET nx == TLCEval((UNION {rel[x] : x \in front}) \ (S \cup {0})) IN
  IF nx = {} THEN S ELSE Grow(TLCEval(S \cup nx), nx, rel)
Close(S, rel) == Grow(S, S, rel)

Reachable(c, rel) == Close({c.main}, rel)
Unresolved(c, rel) == \E f \in Reachable(c, rel) : 0 \in rel[f]
\* acyclic iff repeatedly dropping the files all of whose includes are dropped drops all of them
RECURSIVE Peel(_,_)
Peel(S, rel) == LET leaf == TLCEval({f \in S : rel[f] \cap S = {}}) IN
                IF leaf = {} THEN S ELSE Peel(TLCEval(S \ leaf), rel)
Cyclic(c, rel) == Peel(Reachable(c, rel), rel) # {}

\* a file set compiles iff every include resolves and there is no cycle; it then sees exactly
\* the declarations of the reachable files, each once
Outcome(c) ==
  LET rel == Rel(c) IN
  IF Unresolved(c, rel) \/ Cyclic(c, rel) THEN [ok |-> FALSE, vis |-> {}]
  ELSE [ok |-> TRUE, vis |-> Reachable(c, rel)]
=============================================================================
