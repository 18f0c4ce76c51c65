----------------------------- MODULE MinkRevise -----------------------------
(* Append-only revisions of a file set, and what they must not disturb.      *)
(* A revision b of a declares everything a declares: structs and constants   *)
(* as they were, interfaces with the members they had, perhaps with more     *)
(* after them; declarations may be added anywhere at file level.             *)
(*                                                                           *)
(* An interface no strict ancestor of which has grown is stable: all its old *)
(* members, own and inherited, keep their numbers, all old methods their     *)
(* envelopes, and what it has new is numbered beyond what it had, so that an *)
(* old skeleton knows no method under that number.                           *)
EXTENDS MinkWire

Named(ds, k, n) == {i \in DOMAIN ds : ds[i].k = k /\ ds[i].n = n}
DeclKept(d, ds) ==
  \E i \in Named(ds, d.k, d.n) :
    IF d.k = "iface" THEN ds[i].b = d.b /\ IsPrefix(d.m, ds[i].m) ELSE ds[i] = d
FileKept(f, g) == f.name = g.name /\ f.incs = g.incs /\ \A i \in DOMAIN f.decls : DeclKept(f.decls[i], g.decls)
Revises(a, b) == /\ a.main = b.main /\ Len(a.files) = Len(b.files)
                 /\ \A i \in DOMAIN a.files : FileKept(a.files[i], b.files[i])

\* interfaces of the environment ea with more members in eb
Grown(ea, eb) == {n \in DOMAIN ea.ifaces : Len(eb.ifaces[n].m) > Len(ea.ifaces[n].m)}
Stable(ea, eb) == LET g == Grown(ea, eb) IN {n \in DOMAIN ea.ifaces : (Rng(Chain(ea, n)) \ {n}) \cap g = {}}

Kept(ea, eb, n) ==
  /\ IsPrefix(Methods(ea, n), Methods(eb, n))
  /\ IsPrefix(Errors(ea, n), Errors(eb, n))
  /\ IsPrefix(Consts(ea, n), Consts(eb, n))
  /\ \A i \in DOMAIN Methods(ea, n) : LET m == Methods(ea, n)[i].m IN Envelope(ea, m) = Envelope(eb, m)
LayoutKept(ea, eb) == \A n \in DOMAIN ea.structs :
  /\ SizeOf(ea, n) = SizeOf(eb, n) /\ AlignOf(ea, n) = AlignOf(eb, n) /\ NObj(ea, n) = NObj(eb, n)
  /\ \A i \in DOMAIN ea.structs[n].fields : OffsetOf(ea, n, i) = OffsetOf(eb, n, i)
\* what the old skeleton of n knows nothing about
Unknown(ea, eb, n) == {i \in DOMAIN Methods(eb, n) : \A j \in DOMAIN Methods(ea, n) : Methods(ea, n)[j].m.n # Methods(eb, n)[i].m.n}
Beyond(ea, eb, n) == \A i \in Unknown(ea, eb, n) : OpOf(i) >= Len(Methods(ea, n))
=============================================================================
