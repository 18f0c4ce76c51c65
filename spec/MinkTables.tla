----------------------------- MODULE MinkTables -----------------------------
(* The numbers a program fixes: op-codes, error values, constants, layouts.  *)
(* Generated code exposes them as macros, class constants, typed statics and *)
(* type layouts; a probe compiled against the generated code of a backend    *)
(* reads them back as tables, and each table is judged here.                 *)
(*                                                                           *)
(* table == [p : program index, be, kind, sc, rows]                          *)
(*   be    c | cpp | rust | java | mir                                       *)
(*   kind  fconst  constants of file sc         rows [n, ty, b]              *)
(*         const   constants of interface sc, ancestors first                *)
(*         constown / errorown / opown          the own members of sc only   *)
(*         error, op                            rows [n, ty, b] / [n, v]     *)
(*         struct  fields of struct sc          rows [n, off, size]          *)
(*         layout  struct sc as a whole         rows [n |-> "", size, align] *)
(*   ty is the type the target language gives the constant, in IDL terms,    *)
(*   b the little-endian image of its value in that type                     *)
EXTENDS MinkIdl, Json

Progs == JsonDeserialize("progs.json")
Tables == JsonDeserialize("tables.json")

-----------------------------------------------------------------------------
\* the type in which the target language carries a constant of type t
Carriers(be, t) ==
  IF be = "java"
  THEN CASE t \in {"int8", "uint8"} -> {"int8"}
         [] t \in {"int16", "uint16"} -> {"uint16", "int16"}       \* char (or short)
         [] t \in {"int32", "uint32"} -> {"int32"}
         [] t \in {"int64", "uint64"} -> {"int64"}
         [] OTHER -> {t}
  \* a C macro is an expression: integers narrower than int are promoted
  ELSE IF be = "c" /\ IsInt(t) /\ PSize(t) < 4 THEN {t, "int32"}
  ELSE {t}

ConstRowOk(be, row, d) ==
  /\ row.n = d.n
  /\ row.ty \in Carriers(be, d.t)
  /\ IF be = "java" /\ IsInt(d.t) THEN row.b = IntImage(d.t, d.v)     \* same bits
     ELSE ConstValueOk(row.ty, d.v, row.b)

IntRowOk(row, want) == row.ty \in {"int32", "uint32", "int64", "int16"} /\ row.b = Pad(NatBytes(want), PSize(row.ty))

-----------------------------------------------------------------------------
FileOf(p, n) == p.files[CHOOSE i \in DOMAIN p.files : p.files[i].name = n]
FileConsts(p, n) == Filter(FileOf(p, n).decls, LAMBDA d : d.k = "const")

Members(env, t) ==
  LET all == CASE t.kind \in {"const", "constown"} -> Consts(env, t.sc)
               [] t.kind \in {"error", "errorown"} -> Errors(env, t.sc)
               [] OTHER -> Methods(env, t.sc)
      own == t.kind \in {"constown", "errorown", "opown"}
      num == [i \in DOMAIN all |-> [o |-> all[i].o, m |-> all[i].m, pos |-> i]]
  IN IF own THEN Filter(num, LAMBDA x : x.o = t.sc) ELSE num

\* rows of table t the specification contradicts; 0 stands for the table as a whole
Wrong(env, p, t) ==
  CASE t.kind = "fconst" ->
         LET cs == FileConsts(p, t.sc) IN
         IF Len(cs) # Len(t.rows) THEN {0}
         ELSE {i \in DOMAIN cs : ~ConstRowOk(t.be, t.rows[i], cs[i])}
    [] t.kind \in {"const", "constown"} ->
         LET cs == Members(env, t) IN
         IF Len(cs) # Len(t.rows) THEN {0}
         ELSE {i \in DOMAIN cs : ~ConstRowOk(t.be, t.rows[i], cs[i].m)}
    [] t.kind \in {"error", "errorown"} ->
         LET es == Members(env, t) IN
         IF Len(es) # Len(t.rows) THEN {0}
         ELSE {i \in DOMAIN es : ~(t.rows[i].n = es[i].m.n /\ IntRowOk(t.rows[i], ErrVal(es[i].pos)))}
    [] t.kind \in {"op", "opown"} ->
         LET ms == Members(env, t) IN
         IF Len(ms) # Len(t.rows) THEN {0}
         ELSE {i \in DOMAIN ms : ~(t.rows[i].n = ms[i].m.n /\ t.rows[i].v = OpOf(ms[i].pos) /\ t.rows[i].v <= MaxOp)}
    [] t.kind = "struct" ->
         LET fs == env.structs[t.sc].fields IN
         IF Len(fs) # Len(t.rows) THEN {0}
         ELSE {i \in DOMAIN fs : ~(/\ t.rows[i].n = fs[i].n
                                   /\ t.rows[i].off = OffsetOf(env, t.sc, i)
                                   /\ t.rows[i].size = SizeOf(env, fs[i].t) * fs[i].c)}
    [] t.kind = "layout" ->
         {i \in DOMAIN t.rows : ~(t.rows[i].size = SizeOf(env, t.sc) /\ t.rows[i].align = AlignOf(env, t.sc))}
    [] OTHER -> {0}

VARIABLES i, bad, nrows
vars == <<i, bad, nrows>>
Envs == TLCEval([k \in DOMAIN Progs |-> Env(Progs[k])])

Init == i = 1 /\ bad = <<>> /\ nrows = 0
Step ==
  /\ i <= Len(Tables)
  /\ LET t == Tables[i]
         w == TLCEval(Wrong(Envs[t.p], Progs[t.p], t))
     IN /\ bad' = bad \o [k \in 1..Cardinality(w) |-> [case |-> i, row |-> SetToSeq(w)[k]]]
        /\ nrows' = nrows + Len(t.rows)
  /\ i' = i + 1
Done == i > Len(Tables) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
Verdict == i = Len(Tables) + 1 => JsonSerialize("verdict.json", [rows |-> nrows, bad |-> bad])
=============================================================================
