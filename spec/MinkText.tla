------------------------------ MODULE MinkText ------------------------------
(* IDL text as bytes: the automaton under the grammar.  Lex(b) scans the      *)
(* bytes b and tells whether any token sequence can come of them at all:      *)
(* text must be UTF-8; outside comments and include paths only the bytes of   *)
(* tokens and white space may occur; comments and paths must end.             *)
EXTENDS Integers, Sequences, SequencesExt

Start == [m |-> "code", more |-> 0, lo |-> 128, hi |-> 191]

IsAlnum(x) == x \in 48..57 \/ x \in 65..90 \/ x \in 97..122 \/ x = 95
White == {9, 10, 13, 32}
Symbols == {35, 40, 41, 44, 45, 46, 58, 59, 61, 91, 93, 123, 125}   \* # ( ) , - . : ; = [ ] { }

\* UTF-8, as in RFC 3629: what the byte after x must be
Utf(s, x) ==
  IF s.more > 0
  THEN IF x \in s.lo .. s.hi THEN [s EXCEPT !.more = @ - 1, !.lo = 128, !.hi = 191] ELSE [s EXCEPT !.m = "bad"]
  ELSE IF x < 128 THEN s
  ELSE IF x \in 194..223 THEN [s EXCEPT !.more = 1]
  ELSE IF x = 224 THEN [s EXCEPT !.more = 2, !.lo = 160]
  ELSE IF x = 237 THEN [s EXCEPT !.more = 2, !.hi = 159]
  ELSE IF x \in 225..239 THEN [s EXCEPT !.more = 2]
  ELSE IF x = 240 THEN [s EXCEPT !.more = 3, !.lo = 144]
  ELSE IF x \in 241..243 THEN [s EXCEPT !.more = 3]
  ELSE IF x = 244 THEN [s EXCEPT !.more = 3, !.hi = 143]
  ELSE [s EXCEPT !.m = "bad"]

Mode(m, x) ==
  CASE m = "bad" -> "bad"
    [] m = "code" -> IF x = 47 THEN "slash" ELSE IF x = 34 THEN "path"
                     ELSE IF IsAlnum(x) \/ x \in White \cup Symbols THEN "code" ELSE "bad"
    [] m = "slash" -> IF x = 47 THEN "line" ELSE IF x = 42 THEN "block" ELSE "bad"
    [] m = "line" -> IF x \in {10, 13} THEN "code" ELSE "line"
    [] m = "block" -> IF x = 42 THEN "star" ELSE "block"
    [] m = "star" -> IF x = 47 THEN "code" ELSE IF x = 42 THEN "star" ELSE "block"
    [] OTHER -> IF x = 34 THEN "code" ELSE "path"

Scan(s, x) == LET u == Utf(s, x) IN [u EXCEPT !.m = Mode(@, x)]
Lex(b) == FoldLeft(Scan, Start, b)
Hopeless(b) == LET s == Lex(b) IN s.more > 0 \/ s.m \notin {"code", "line"}
=============================================================================
