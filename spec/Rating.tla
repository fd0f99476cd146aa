------------------------------- MODULE Rating -------------------------------
(***************************************************************************)
(* Rating classes on a master scale: <<name, probability>>, ascending.     *)
(***************************************************************************)
EXTENDS RealNum

\* rounding to seven digits
R7(x) == Div(Real(ToInt(Add(Mul(x, "10000000"), "0.5"))), "10000000")
SortScale(ps) ==
    FoldLeft(LAMBDA acc, p : SelectSeq(acc, LAMBDA q : Le(q[2], p[2])) \o <<p>>
                             \o SelectSeq(acc, LAMBDA q : Lt(p[2], q[2])), <<>>, ps)
\* geometric scale ending at 1
ScaleOf(names, first) ==
    LET n == Len(names)
        v == IF first = "none" THEN Exp(Neg(Mul(Real(n - 1), Ln("10")))) ELSE first
    IN Tuple([i \in 1..n |-> <<names[i], Exp(Mul(Ln(v), Sub(One, Div(Real(i - 1), Real(n - 1)))))>>])

InScale(ms, name) == \E i \in 1..Len(ms) : ms[i][1] = name
ValueOf(ms, name) == ms[CHOOSE i \in 1..Len(ms) : ms[i][1] = name][2]
Embraced(ms, v) == Le(R7(ms[1][2]), R7(v)) /\ Le(R7(v), R7(ms[Len(ms)][2]))

\* weights on the classes: neighbours of the value, linear
Weights(ms, value) ==
    LET v == R7(value)
        c == CHOOSE i \in 1..Len(ms) : Le(v, R7(ms[i][2])) /\ \A j \in 1..(i - 1) : Lt(R7(ms[j][2]), v)
        f == c - 1
        alpha == IF f = 0 THEN Zero
                 ELSE Div(Sub(R7(ms[c][2]), v), Sub(R7(ms[c][2]), R7(ms[f][2])))
    IN Tuple([i \in 1..Len(ms) |-> IF i = f THEN alpha ELSE IF i = c THEN Sub(One, alpha) ELSE Zero])
\* outside of the scale, accepted if rating is sloppy
Sloppy(ms, value) ==
    LET n == Len(ms)
        k == IF Lt(R7(value), R7(ms[1][2])) THEN 1 ELSE n
    IN Tuple([i \in 1..n |-> IF i = k THEN Div(R7(value), R7(ms[k][2])) ELSE Zero])
\* name of the class of the value, "none" between classes; first in scale order of insertion
NamesAt(ms, value) == {ms[i][1] : i \in {j \in 1..Len(ms) : Eq(R7(ms[j][2]), R7(value))}}
=============================================================================
