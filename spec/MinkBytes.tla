----------------------------- MODULE MinkBytes -----------------------------
(* Little-endian byte sequences, natural-number arithmetic on them (TLC      *)
(* integers are 32-bit), IDL literals and their images in the ten primitive  *)
(* types, and the "nearest IEEE-754 value" relation for fractional literals. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Byte == 0..255

Zeros(n) == [i \in 1..n |-> 0]

\* normal form: no most-significant zero byte
RECURSIVE Trim(_)
Trim(b) == IF b # <<>> /\ b[Len(b)] = 0 THEN Trim(SubSeq(b, 1, Len(b)-1)) ELSE b

RECURSIVE NatBytes(_)
NatBytes(n) == IF n = 0 THEN <<>> ELSE <<n % 256>> \o NatBytes(n \div 256)

At(b, i) == IF i <= Len(b) THEN b[i] ELSE 0
MaxOf(a, b) == IF a > b THEN a ELSE b

\* comparison of naturals: -1, 0, 1
Cmp(a, b) ==
  LET n == MaxOf(Len(a), Len(b))
      F[i \in 0..n] == IF i = 0 THEN 0
                       ELSE IF At(a,i) > At(b,i) THEN 1
                       ELSE IF At(a,i) < At(b,i) THEN -1 ELSE F[i-1]
  IN  F[n]

Leq(a, b) == Cmp(a, b) <= 0
Lt(a, b)  == Cmp(a, b) < 0

\* a*k + c for small naturals k, c  (k*255+c must stay below 2^31)
RECURSIVE MulAddI(_,_,_)
MulAddI(a, k, c) ==
  IF a = <<>> THEN NatBytes(c)
  ELSE LET v == Head(a)*k + c IN <<v % 256>> \o MulAddI(Tail(a), k, v \div 256)
MulAdd(a, k, c) == Trim(MulAddI(a, k, c))

RECURSIVE AddI(_,_,_)
AddI(a, b, c) ==
  IF a = <<>> /\ b = <<>> THEN NatBytes(c)
  ELSE LET v == At(a,1) + At(b,1) + c
       IN <<v % 256>> \o AddI(IF a = <<>> THEN a ELSE Tail(a), IF b = <<>> THEN b ELSE Tail(b), v \div 256)
Add(a, b) == Trim(AddI(a, b, 0))

\* a - b, a >= b
RECURSIVE SubI(_,_,_)
SubI(a, b, br) ==
  IF a = <<>> THEN <<>>
  ELSE LET v == Head(a) - At(b,1) - br
       IN <<(v + 256) % 256>> \o SubI(Tail(a), IF b = <<>> THEN b ELSE Tail(b), IF v < 0 THEN 1 ELSE 0)
Sub(a, b) == Trim(SubI(a, b, 0))

RECURSIVE Mul(_,_)
Mul(a, b) == IF b = <<>> THEN <<>>
             ELSE Add(MulAdd(a, Head(b), 0), LET r == Mul(a, Tail(b)) IN IF r = <<>> THEN <<>> ELSE <<0>> \o r)

RECURSIVE Pow(_,_)
Pow(k, n) == IF n = 0 THEN <<1>> ELSE MulAdd(Pow(k, n-1), k, 0)

Pow2(n) == [i \in 1..(n \div 8) |-> 0] \o <<2^(n % 8)>>

\* value of a digit sequence, most significant first
RECURSIVE FromDigits(_,_,_)
FromDigits(ds, radix, acc) ==
  IF ds = <<>> THEN acc ELSE FromDigits(Tail(ds), radix, MulAdd(acc, radix, Head(ds)))
DigitsVal(ds, radix) == FromDigits(ds, radix, <<>>)

Pad(b, n) == [i \in 1..n |-> At(b, i)]

\* two's complement image on n bytes of -m (m natural, 0 <= m <= 2^(8n-1))
NegImage(m, n) == IF m = <<>> THEN Zeros(n) ELSE Pad(Sub(Pow2(8*n), m), n)

-----------------------------------------------------------------------------
(* Literals: [neg, hex, i (digits), f (fraction digits), dot]               *)

IsUInt(t) == t \in {"uint8","uint16","uint32","uint64"}
IsSInt(t) == t \in {"int8","int16","int32","int64"}
IsInt(t)  == IsUInt(t) \/ IsSInt(t)
IsFlt(t)  == t \in {"float32","float64"}
PSize(t) == CASE t \in {"uint8","int8"} -> 1
              [] t \in {"uint16","int16"} -> 2
              [] t \in {"uint32","int32","float32"} -> 4
              [] t \in {"uint64","int64","float64"} -> 8

LitMag(v) == DigitsVal(v.i, IF v.hex THEN 16 ELSE 10)

\* Is an integer literal inside the range of integer type t?
IntInRange(t, v) ==
  LET m == LitMag(v) n == PSize(t)
  IN  /\ ~v.dot
      /\ IF IsUInt(t) THEN ~v.neg /\ Lt(m, Pow2(8*n))
         ELSE IF v.neg THEN Leq(m, Pow2(8*n-1)) ELSE Lt(m, Pow2(8*n-1))

IntImage(t, v) ==
  LET m == LitMag(v) n == PSize(t) IN IF v.neg THEN NegImage(m, n) ELSE Pad(m, n)

-----------------------------------------------------------------------------
(* Floats.  A finite literal is D / 10^f.  An IEEE value is given by its     *)
(* bit image; decode it to sign, integer mantissa M and exponent E with      *)
(* value M * 2^E.                                                            *)

BitsOf(b) == \* big-endian bit list of a little-endian image
  LET n == Len(b) IN [k \in 1..(8*n) |-> (b[n - ((k-1) \div 8)] \div (2^(7 - ((k-1) % 8)))) % 2]

RECURSIVE BitsNat(_)
BitsNat(bs) == IF bs = <<>> THEN 0 ELSE 2*BitsNat(SubSeq(bs,1,Len(bs)-1)) + bs[Len(bs)]
RECURSIVE BitsBytes(_,_)
BitsBytes(bs, acc) == IF bs = <<>> THEN acc ELSE BitsBytes(Tail(bs), MulAdd(acc, 2, Head(bs)))

ExpBits(n) == IF n = 4 THEN 8 ELSE 11
ManBits(n) == IF n = 4 THEN 23 ELSE 52
Bias(n)    == IF n = 4 THEN 127 ELSE 1023

FDecode(b) ==
  LET n == Len(b) bits == BitsOf(b) e == BitsNat(SubSeq(bits, 2, 1+ExpBits(n)))
      mf == BitsBytes(SubSeq(bits, 2+ExpBits(n), 8*n), <<>>)
  IN [neg |-> bits[1] = 1,
      inf |-> e = 2^ExpBits(n) - 1,
      sub |-> e = 0,
      m   |-> IF e = 0 THEN mf ELSE Add(mf, Pow2(ManBits(n))),
      lowest |-> e # 0 /\ mf = <<>>,      \* power of two: gap below is half the gap above
      even |-> (At(mf,1) % 2) = 0,
      e   |-> (IF e = 0 THEN 1 ELSE e) - Bias(n) - ManBits(n)]

\* compare D * 10^-f with M * 2^E (naturals D, M; f >= 0)
CmpScaled(D, f, M, E) ==
  IF E >= 0 THEN Cmp(D, Mul(Mul(M, Pow2(E)), Pow(10, f)))
  ELSE Cmp(Mul(D, Pow2(-E)), Mul(M, Pow(10, f)))

\* b is a correctly rounded (nearest) image of |literal|
NearestFloat(b, v) ==
  LET d  == FDecode(b)
      ds == v.i \o v.f
      D  == Trim(DigitsVal(ds, IF v.hex THEN 16 ELSE 10))
      f  == Len(v.f)
      \* half-way points (2M +- 1) * 2^(E-1); (4M-1)*2^(E-2) just below a power of two
      up == CmpScaled(D, f, MulAdd(d.m, 2, 1), d.e - 1)
      dn == IF d.m = <<>> THEN 1
            ELSE IF d.lowest THEN CmpScaled(D, f, Sub(MulAdd(d.m, 4, 0), <<1>>), d.e - 2)
            ELSE CmpScaled(D, f, Sub(MulAdd(d.m, 2, 0), <<1>>), d.e - 1)
  IN /\ ~d.inf
     /\ (d.neg = v.neg \/ D = <<>>)
     /\ (up < 0 \/ (up = 0 /\ d.even))
     /\ (dn > 0 \/ (dn = 0 /\ d.even))

\* the literal is finite in type t after rounding: |x| < 2^128 - 2^103  (resp. 2^1024 - 2^970)
FltInRange(t, v) ==
  LET D == Trim(DigitsVal(v.i \o v.f, IF v.hex THEN 16 ELSE 10)) f == Len(v.f)
      lim == IF t = "float32" THEN Sub(Pow2(128), Pow2(103)) ELSE Sub(Pow2(1024), Pow2(970))
  IN Lt(D, Mul(lim, Pow(10, f)))

\* observed image b is the value of literal v in type t
ConstValueOk(t, v, b) ==
  IF IsInt(t) THEN b = IntImage(t, v)
  ELSE Len(b) = PSize(t) /\ NearestFloat(b, v)

ConstInRange(t, v) == IF IsInt(t) THEN IntInRange(t, v) ELSE FltInRange(t, v)
=============================================================================
