------------------------------ MODULE RealNum ------------------------------
(***************************************************************************)
(* Real numbers.                                                           *)
(*                                                                         *)
(* A real is kept as a decimal numeral in a TLA+ string ("0.25").  The     *)
(* operators of the first block are the primitives.  TLC interprets them   *)
(* with 40 significant digits (java/dcfspec/RealOverrides.java, the only   *)
(* part of the specification that is not TLA+).  RealNumTest.tla checks    *)
(* their laws.  Dates are reals too: proleptic Gregorian ordinals for      *)
(* calendar dates, year numbers for float dates.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Add(a, b) == CHOOSE x \in STRING : TRUE
Sub(a, b) == CHOOSE x \in STRING : TRUE
Mul(a, b) == CHOOSE x \in STRING : TRUE
Div(a, b) == CHOOSE x \in STRING : TRUE
Neg(a)    == CHOOSE x \in STRING : TRUE
Abs(a)    == CHOOSE x \in STRING : TRUE
Exp(a)    == CHOOSE x \in STRING : TRUE
Ln(a)     == CHOOSE x \in STRING : TRUE
Sqrt(a)   == CHOOSE x \in STRING : TRUE
Real(a)   == CHOOSE x \in STRING : TRUE
ToInt(a)  == CHOOSE x \in Int : TRUE          \* floor
Lt(a, b)  == CHOOSE x \in BOOLEAN : TRUE
Le(a, b)  == CHOOSE x \in BOOLEAN : TRUE
Eq(a, b)  == CHOOSE x \in BOOLEAN : TRUE
Tuple(s)  == s                                \* identity; TLC: forces a sequence

-----------------------------------------------------------------------------
Gt(a, b) == Lt(b, a)
Ge(a, b) == Le(b, a)
IsZero(a) == Eq(a, "0")
RMax(a, b) == IF Lt(a, b) THEN b ELSE a
RMin(a, b) == IF Lt(b, a) THEN b ELSE a
Sq(a) == Mul(a, a)
One == "1"
Zero == "0"

IMin(a, b) == IF a < b THEN a ELSE b
IMax(a, b) == IF a < b THEN b ELSE a
Clamp(i, lo, hi) == IMin(IMax(i, lo), hi)

\* real power of a positive base
Pow(a, b) == Exp(Mul(b, Ln(a)))
RECURSIVE IPow(_, _)
IPow(a, n) == IF n = 0 THEN One ELSE Mul(a, IPow(a, n - 1))

RSum(s) == FoldLeft(LAMBDA acc, v : Add(acc, v), Zero, s)
MaxOf(s) == FoldLeft(LAMBDA acc, v : RMax(acc, v), s[1], s)
MinOf(s) == FoldLeft(LAMBDA acc, v : RMin(acc, v), s[1], s)
Map(Op(_), s) == Tuple([i \in 1..Len(s) |-> Op(s[i])])
InSeq(s, x) == \E i \in 1..Len(s) : Eq(s[i], x)
IndexIn(s, x) == CHOOSE i \in 1..Len(s) : Eq(s[i], x)
Pos(a) == Lt(Zero, a)

\* ascending insertion, duplicates dropped
InsertReal(s, x) ==
    IF InSeq(s, x) THEN s
    ELSE SelectSeq(s, LAMBDA y : Lt(y, x)) \o <<x>> \o SelectSeq(s, LAMBDA y : Lt(x, y))
SortReals(s) == FoldLeft(LAMBDA acc, x : InsertReal(acc, x), <<>>, s)

\* tolerance used for comparing an exact value with a double of the program
Near(a, b, abs, rel) == Le(Abs(Sub(a, b)), Add(abs, Mul(rel, Abs(b))))
Close(a, b) == Near(a, b, "1e-12", "1e-9")
=============================================================================
