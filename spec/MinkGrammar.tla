----------------------------- MODULE MinkGrammar -----------------------------
(* The IDL grammar over whitespace-separated tokens.  A token is             *)
(* [k : "id" | "num" | "dec" | "path" | "sym" | "junk", s : text]; "dec" is  *)
(* a plain unsigned decimal number, "num" any other constant value; "});"    *)
(* style closers "};" and ");" and the attribute "#[optional]" are single    *)
(* tokens.  Each recogniser maps a position to the position after the phrase *)
(* or 0.  Ordered choice as in the implementation's PEG is not observable at *)
(* this level: the alternatives of each rule are disjoint on whole tokens.   *)
EXTENDS Integers, Sequences

PrimNames == {"uint8","uint16","uint32","uint64","int8","int16","int32","int64","float32","float64"}

TokAt(ts, i) == IF i >= 1 /\ i <= Len(ts) THEN ts[i] ELSE [k |-> "end", s |-> ""]
Sym(ts, i, s) == IF i > 0 /\ TokAt(ts, i).k = "sym" /\ TokAt(ts, i).s = s THEN i + 1 ELSE 0
Kw(ts, i, s) == IF i > 0 /\ TokAt(ts, i).k = "id" /\ TokAt(ts, i).s = s THEN i + 1 ELSE 0
Id(ts, i) == IF i > 0 /\ TokAt(ts, i).k = "id" THEN i + 1 ELSE 0
Dec(ts, i) == IF i > 0 /\ TokAt(ts, i).k = "dec" THEN i + 1 ELSE 0
Val(ts, i) == IF i > 0 /\ TokAt(ts, i).k \in {"dec", "num"} THEN i + 1 ELSE 0
Prim(ts, i) == IF i > 0 /\ TokAt(ts, i).k = "id" /\ TokAt(ts, i).s \in PrimNames THEN i + 1 ELSE 0

Bounded(ts, i) == Sym(ts, Dec(ts, Sym(ts, i, "[")), "]")
Unbounded(ts, i) == Sym(ts, Sym(ts, i, "["), "]")

Field(ts, i) ==
  LET a == Id(ts, i) b == Bounded(ts, a) c == IF b > 0 THEN b ELSE a
  IN Sym(ts, Id(ts, c), ";")
RECURSIVE Fields(_,_)
Fields(ts, i) == IF i > 0 /\ Field(ts, i) > 0 THEN Fields(ts, Field(ts, i)) ELSE i
Struct(ts, i) ==
  LET n == Kw(ts, i, "struct")
      nm == IF TokAt(ts, n).s = "interface" THEN 0 ELSE Id(ts, n)
      o == Sym(ts, nm, "{")
      f == IF o > 0 THEN Field(ts, o) ELSE 0
  IN IF f = 0 THEN 0 ELSE Sym(ts, Fields(ts, f), "};")

Const(ts, i) == Sym(ts, Val(ts, Sym(ts, Id(ts, Prim(ts, Kw(ts, i, "const"))), "=")), ";")

ParamType(ts, i) ==
  LET a == Id(ts, i) b == Bounded(ts, a)
      u == IF a > 0 /\ TokAt(ts, i).s # "interface" THEN Unbounded(ts, a) ELSE 0
  IN IF b > 0 THEN b ELSE IF u > 0 THEN u ELSE a
Param(ts, i) ==
  LET m == IF i > 0 /\ TokAt(ts, i).k = "id" /\ TokAt(ts, i).s \in {"in", "out"} THEN i + 1 ELSE 0
  IN Id(ts, ParamType(ts, m))
RECURSIVE MoreParams(_,_)
MoreParams(ts, i) ==
  LET c == Sym(ts, i, ",") p == Param(ts, c) IN IF c > 0 /\ p > 0 THEN MoreParams(ts, p) ELSE i
RECURSIVE Attrs(_,_)
Attrs(ts, i) == IF Sym(ts, i, "#[optional]") > 0 THEN Attrs(ts, i + 1) ELSE i
Method(ts, i) ==
  LET k == Kw(ts, Attrs(ts, i), "method")
      o == Sym(ts, Id(ts, k), "(")
      p == Param(ts, o)
      q == IF o = 0 THEN 0 ELSE MoreParams(ts, IF p > 0 THEN p ELSE o)
  IN Sym(ts, q, ");")

Error(ts, i) == Sym(ts, Id(ts, Kw(ts, i, "error")), ";")

RECURSIVE Members(_,_)
Members(ts, i) ==
  IF i = 0 THEN 0 ELSE
  LET m == Method(ts, i) c == Const(ts, i) e == Error(ts, i)
      n == IF m > 0 THEN m ELSE IF c > 0 THEN c ELSE e
  IN IF n > 0 THEN Members(ts, n) ELSE i
Iface(ts, i) ==
  LET n == Id(ts, Kw(ts, i, "interface"))
      b == Id(ts, Sym(ts, n, ":"))
      o == Sym(ts, IF b > 0 THEN b ELSE n, "{")
  IN Sym(ts, Members(ts, o), "};")

Include(ts, i) == LET k == Kw(ts, i, "include") IN IF k > 0 /\ TokAt(ts, k).k = "path" THEN k + 1 ELSE 0
RECURSIVE Includes(_,_)
Includes(ts, i) == IF Include(ts, i) > 0 THEN Includes(ts, Include(ts, i)) ELSE i
RECURSIVE Decls(_,_)
Decls(ts, i) ==
  LET c == Const(ts, i) s == Struct(ts, i) f == Iface(ts, i)
      n == IF c > 0 THEN c ELSE IF s > 0 THEN s ELSE f
  IN IF n > 0 THEN Decls(ts, n) ELSE i

Grammatical(ts) == Decls(ts, Includes(ts, 1)) = Len(ts) + 1
=============================================================================
