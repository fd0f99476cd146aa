------------------------------- MODULE MC_C22 -------------------------------
(* Ratings and master scales. *)
EXTENDS MCBase

Names == <<"AAA", "AA", "A", "BBB", "BB", "B", "CCC", "CC", "C", "D">>
FromNames(n, first) ==
    [k |-> "f", name |-> "rating-names", n |-> n, geo |-> TRUE, first |-> first,
     pre |-> <<[op |-> "scale", id |-> "m", names |-> SubSeq(Names, 1, n), first |-> first]>>]
Given(ps) ==
    [k |-> "f", name |-> "rating-given", n |-> Len(ps), geo |-> FALSE, first |-> "none", pre |-> <<[op |-> "scale", id |-> "m", pairs |-> ps]>>]
\* scales given in any order, names do not matter
P1 == <<<<"A", "0.0003">>, <<"B", "0.0125">>, <<"C", "0.2">>, <<"D", "1">>>>
P2 == <<<<"Z", "0.05">>, <<"X", "0.0000035">>, <<"Y", "0.3333333">>>>
P3 == <<<<"D", "1">>, <<"lo", "0.5">>>>
P4 == <<<<"u", "0.0000011">>, <<"v", "0.0000012">>, <<"w", "0.0000013">>, <<"x", "0.9999999">>>>
Orders(ps) == {s \in [1..Len(ps) -> 1..Len(ps)] : \A i, j \in 1..Len(ps) : i # j => s[i] # s[j]}
Permuted(ps) == LET all == SetToSeq(Orders(ps)) IN Tuple([i \in 1..Len(all) |-> Given(Tuple([j \in 1..Len(ps) |-> ps[all[i][j]]]))])
TheSetups ==
    Each(<<2, 3, 4, 5, 6, 7>>, LAMBDA n : FromNames(n, "none"))
    \o FlattenSeq(Cross(<<2, 3, 4, 7, 10>>, <<"0.0001", "0.001", "0.04", "0.5">>, LAMBDA n, f : <<FromNames(n, f)>>))
    \o Permuted(P1) \o Permuted(P2) \o Permuted(P3) \o Permuted(P4)

\* a scale is a dictionary: a class may be moved, or one more be added
TheDepth(u) == 1
TheMoves(u, g, hs) ==
    LET ms == g.o["m"].ms
        n == Len(ms)
        v(i) == R7(Add(ms[i][2], Mul(Sub(ms[i + 1][2], ms[i][2]), "0.37")))
        free == {i \in 1..(n - 1) : Lt(Add(ms[i][2], "0.000001"), ms[i + 1][2])}
    IN IF n > 4 \/ free = {} THEN {}
       ELSE {[op |-> "rset", id |-> "m", name |-> "E", v |-> v(i)] : i \in free}
            \cup {[op |-> "rset", id |-> "m", name |-> ms[j][1], v |-> v(CHOOSE i \in free : \A m \in free : i <= m)] : j \in {1, n}}

Fractions == IF Thorough THEN Tuple([i \in 1..49 |-> Div(Real(i), "50")]) ELSE <<"0.01", "0.25", "0.5", "0.613", "0.97">>
Between(ms, i, w) == R7(Add(ms[i][2], Mul(Sub(ms[i + 1][2], ms[i][2]), w)))
Inner(ms) == FlattenSeq(Tuple([i \in 1..(Len(ms) - 1) |-> Tuple([j \in 1..Len(Fractions) |-> Between(ms, i, Fractions[j])])]))
Outer(ms) == <<R7(Mul(ms[1][2], "0.5")), R7(Mul(ms[Len(ms)][2], "1.5"))>>
TheProbes(u, g) ==
    LET ms == g.o["m"].ms
        fresh == ms = ScaleFrom(u.pre[1])
        rate(v) == <<[op |-> "rvec", ms |-> "m", v |-> v], [op |-> "rname", ms |-> "m", v |-> v], [op |-> "rval", ms |-> "m", v |-> v],
                     [op |-> "rvec", ms |-> "m", v |-> v, how |-> "list"], [op |-> "rname", ms |-> "m", v |-> v, how |-> "str"],
                     [op |-> "rvec", ms |-> "m", v |-> v, via |-> "dict"]>>
        out(v) == <<[op |-> "rvec", ms |-> "m", v |-> v], [op |-> "rvec", ms |-> "m", v |-> v, sloppy |-> TRUE], [op |-> "rvec", ms |-> "m", v |-> v],
                    [op |-> "rname", ms |-> "m", v |-> v], [op |-> "rval", ms |-> "m", v |-> v]>>
        class(n) == <<[op |-> "rvec", ms |-> "m", name |-> n], [op |-> "rval", ms |-> "m", name |-> n], [op |-> "rname", ms |-> "m", name |-> n],
                      [op |-> "rvec", ms |-> "m", name |-> n, via |-> "get"], [op |-> "rval", ms |-> "m", name |-> n, via |-> "dict"],
                      [op |-> "rget", ms |-> "m", name |-> n]>>
                     \o (IF u.geo /\ u.first = "none" /\ fresh THEN <<[op |-> "rvec", ms |-> "m", name |-> n, via |-> "list", names |-> SubSeq(Names, 1, u.n)]>> ELSE <<>>)
    IN <<[op |-> "rscale", id |-> "m"], [op |-> "rscale", id |-> "m", via |-> "items"], [op |-> "rscale", id |-> "m", via |-> "classes"]>>
       \o FlattenSeq(Each(Inner(ms), rate)) \o FlattenSeq(Each(Tuple([i \in 1..Len(ms) |-> ms[i][2]]), rate))
       \o FlattenSeq(Each(Outer(ms), out)) \o FlattenSeq(Tuple([i \in 1..Len(ms) |-> class(ms[i][1])]))
       \o <<[op |-> "rvec", ms |-> "m", name |-> "E"], [op |-> "rval", ms |-> "none", v |-> "0.5"], [op |-> "rvec", ms |-> "none", v |-> "0.5"],
            [op |-> "rvec", ms |-> "none", name |-> "A"], [op |-> "rscale", id |-> "m"],
            [op |-> "rget", ms |-> "m", name |-> "E"], [op |-> "rget", ms |-> "m", name |-> "E", else |-> "0.25"],
            [op |-> "rval", ms |-> "m", v |-> "0", short |-> TRUE], [op |-> "rvec", ms |-> "m", v |-> "0", sloppy |-> TRUE, short |-> TRUE]>>

TheLaws(u, g) ==
    LET ms == g.o["m"].ms
        n == Len(ms)
        V7(i) == R7(ms[i][2])
        In7 == ToSet(Inner(ms)) \cup {V7(i) : i \in 1..n}
        fresh == ms = ScaleFrom(u.pre[1])
        eq(a, b) == Near(a, b, "1e-25", "1e-25")
    IN Law("weights add up to one", TRUE, \A v \in In7 : LET w == Weights(ms, v) IN eq(RSum(w), One) /\ \A i \in 1..n : Le(Zero, w[i]))
       \cup Law("mean of the weights is the probability", TRUE,
                \A v \in In7 : LET w == Weights(ms, v) IN eq(RSum(Tuple([i \in 1..n |-> Mul(w[i], V7(i))])), R7(v)))
       \cup Law("two neighbouring classes at most", TRUE,
                \A v \in In7 : LET w == Weights(ms, v) IN \A i, j \in 1..n : Pos(w[i]) /\ Pos(w[j]) => i - j \in {-1, 0, 1})
       \cup Law("a class is itself", TRUE, \A i \in 1..n : LET w == Weights(ms, ms[i][2]) IN eq(w[i], One) /\ ms[i][1] \in NamesAt(ms, ms[i][2]))
       \cup Law("ascending", TRUE, \A i \in 1..(n - 1) : Lt(ms[i][2], ms[i + 1][2]))
       \cup Law("all classes given", ~u.geo /\ fresh, ToSet(ms) = ToSet(u.pre[1].pairs) /\ n = Len(u.pre[1].pairs))
       \cup Law("geometric and ends with one", u.geo /\ fresh,
                /\ eq(ms[n][2], One)
                /\ eq(ms[1][2], IF u.first = "none" THEN Exp(Mul(Real(1 - n), Ln("10"))) ELSE u.first)
                /\ \A i \in 1..(n - 2) : eq(Mul(ms[i][2], ms[i + 2][2]), Mul(ms[i + 1][2], ms[i + 1][2]))
                /\ \A i \in 1..n : ms[i][1] = Names[i])
       \cup Law("powers of ten", u.geo /\ fresh /\ u.first = "none", \A i \in 1..(n - 1) : eq(Mul("10", ms[i][2]), ms[i + 1][2]))
       \cup Law("one scale of its own for all changes", TRUE, \A i, j \in 1..n : ms[i][1] = ms[j][1] => i = j)
       \cup Law("outside is out", TRUE, \A v \in ToSet(Outer(ms)) : ~Embraced(ms, v))
       \cup Law("order does not matter", ~u.geo /\ fresh, ms = SortScale(Reverse(u.pre[1].pairs)))
=============================================================================
