----------------------------- MODULE MinkNames ------------------------------
(* Placements of names: a template program whose names stand for roles, and  *)
(* what happens when a name of the pool, or a pair of related names, takes a *)
(* role.  Writes for every lawful placement the circumstances (Clash) it     *)
(* meets in each target; none of them: the placement has to build there.     *)
EXTENDS MinkBuild, Json

In == JsonDeserialize("names.json")   \* [template, sets : Seq([roles, pool]), rels : Seq(<<a, b>>), pairs : Seq(<<role, role>>),
                                       \* storms : Seq(Seq(<<role, name>>))]

Ren(f, x) == IF x \in DOMAIN f THEN f[x] ELSE x
RenMember(f, m) ==
  IF m.k = "method" THEN [m EXCEPT !.n = Ren(f, @), !.p = [i \in DOMAIN @ |-> [@[i] EXCEPT !.n = Ren(f, @), !.t = Ren(f, @)]]]
  ELSE [m EXCEPT !.n = Ren(f, @)]
RenDecl(f, d) ==
  IF d.k = "const" THEN [d EXCEPT !.n = Ren(f, @)]
  ELSE IF d.k = "struct" THEN [d EXCEPT !.n = Ren(f, @), !.fields = [i \in DOMAIN @ |-> [@[i] EXCEPT !.n = Ren(f, @), !.t = Ren(f, @)]]]
  ELSE [d EXCEPT !.n = Ren(f, @), !.b = Ren(f, @), !.m = [i \in DOMAIN @ |-> RenMember(f, @[i])]]
Rename(p, f) == [p EXCEPT !.files = [i \in DOMAIN @ |-> [@[i] EXCEPT !.name = Ren(f, @), !.decls = [j \in DOMAIN @ |-> RenDecl(f, @[j])]]]]

\* file names of a set are distinct, whatever the case; a type whose name starts with
\* the name of a built-in type cannot be used in this dialect
Lawful(p, env) == Cardinality({Low(p.files[i].name) : i \in DOMAIN p.files}) = Len(p.files) /\ StaticViol(p, env, FALSE) = {}
  /\ \A s \in DOMAIN env.structs \cup DOMAIN env.ifaces : \A w \in Prims \cup {"interface"} : ~(Len(s) >= Len(w) /\ SubSeq(s, 1, Len(w)) = w)
Of(f) ==
  LET p == TLCEval(Rename(In.template, f)) env == Env(p) IN
  IF ~Lawful(p, env) THEN [ok |-> FALSE, clash |-> <<>>]
  ELSE [ok |-> TRUE, clash |-> [t \in Targets |-> IF Unsupported(env, t) THEN {"unsupported"} ELSE Clash(t, p, env)]]

Ones == [k \in DOMAIN In.sets |-> [r \in Rng(In.sets[k].roles) |-> [n \in Rng(In.sets[k].pool) |-> Of(r :> n)]]]
Twos == [k \in DOMAIN In.pairs |-> [j \in DOMAIN In.rels |-> Of((In.pairs[k][1] :> In.rels[j][1]) @@ (In.pairs[k][2] :> In.rels[j][2]))]]

Many == [k \in DOMAIN In.storms |->
          LET s == In.storms[k] IN Of([r \in {s[i][1] : i \in DOMAIN s} |-> s[CHOOSE i \in DOMAIN s : s[i][1] = r][2]])]
VARIABLE done
Init == done = FALSE
Next == done = FALSE /\ done' = JsonSerialize("places.json", [ones |-> Ones, twos |-> Twos, many |-> Many])
Spec == Init /\ [][Next]_done
=============================================================================
