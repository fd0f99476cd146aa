------------------------------- MODULE MC_C01 -------------------------------
(* Interpolation: every function and scheme on all orders of few points. *)
EXTENDS MCBase

\* points come from these dates, values by one of the patterns
Xs == <<"0", "1", "2", "4">>
Patterns == <<
    <<"1", "0.5", "0.75", "0.25">>,
    <<"0.5", "0.5", "0.5", "2">>,
    <<"-1", "2", "0", "-0.5">> >>
Orders(n) == {s \in [1..n -> 1..4] : \A i, j \in 1..n : i # j => s[i] # s[j]}
Picks == SetToSeq({<<>>} \cup UNION {{Tuple(s) : s \in Orders(n)} : n \in 1..(IF Thorough THEN 4 ELSE 3)})
Fns == <<"no", "zero", "left", "constant", "right", "nearest", "linear", "loglinear", "loglinearrate", "logconstantrate",
         "linear_scheme", "log_linear_scheme", "log_linear_rate_scheme", "zero_linear_scheme">>
Same == <<"constant_linear_constant", "logconstant_loglinear_logconstant",
          "logconstantrate_loglinearrate_logconstantrate", "zero_linear_constant">>
Ten == SubSeq(Fns, 1, 10)

Su(f, parts, pick, pat, how) ==
    [k |-> "f", name |-> f, pre |-> <<>>, f |-> f, parts |-> parts, how |-> how,
     xs |-> Tuple([i \in 1..Len(pick) |-> Xs[pick[i]]]), ys |-> Tuple([i \in 1..Len(pick) |-> Patterns[pat][pick[i]]])]
How(i) == <<"list", "tuple", "dict">>[(i % 3) + 1]
Singles ==
    FlattenSeq(Tuple([f \in 1..Len(Fns) |-> FlattenSeq(Tuple([p \in 1..Len(Picks) |->
        Tuple([q \in 1..(IF Picks[p] = <<>> THEN 1 ELSE 3) |->
            Su(Fns[f], <<>>, Picks[p], q, IF f > 10 THEN "list" ELSE How(p + q))])]))]))
\* three part schemes by hand
Parts ==
    FlattenSeq(Tuple([l \in 1..10 |-> FlattenSeq(Tuple([r \in 1..10 |->
        Tuple([m \in 1..(IF Thorough THEN 10 ELSE 2) |->
            Su("parts", <<Ten[l], IF Thorough THEN Ten[m] ELSE <<"linear", "loglinear">>[m], Ten[r]>>,
               <<3, 2, 4>>, IF Ten[l] \in LogLike \/ Ten[r] \in LogLike THEN 1 ELSE 1 + 2 * ((l + r + m) % 2), "three")])]))]))
Aliases == FlattenSeq(Tuple([f \in 1..Len(Same) |-> Tuple([q \in 1..3 |-> Su(Same[f], <<>>, <<4, 1, 3>>, q, "list")])]))
\* points twice
Twice == Tuple([f \in 1..4 |-> [Su(Fns[10 + f], <<>>, <<2, 4, 2>>, 1, "list") EXCEPT !.name = "twice"]])
TheSetups == Singles \o Parts \o Aliases \o Twice

Grid == <<"-0.5", "0", "0.25", "0.5", "1", "1.5", "1.625", "2", "3", "3.5", "4", "5.5">>
Ev(u, x) ==
    IF u.parts # <<>> THEN [op |-> "interp", parts |-> u.parts, xs |-> u.xs, ys |-> u.ys, x |-> x, how |-> u.how]
    ELSE [op |-> "interp", f |-> u.f, xs |-> u.xs, ys |-> u.ys, x |-> x, how |-> u.how]
TheDepth(u) == 0
TheMoves(u, g, hs) == {}
TheProbes(u, g) == LET ev(x) == Ev(u, x) IN Each(Grid, ev)

TheLaws(u, g) ==
    LET ps == Tuple([i \in 1..Len(u.xs) |-> <<u.xs[i], u.ys[i]>>])
        ks == SortPoints(ps)
        n == Len(ks)
        err == InterpNewErrors(Ev(u, "0"))
        f(x) == IF u.parts # <<>> THEN EvalParts(u.parts, ks, x) ELSE Interpolate(u.f, ks, x)
        good == err = {} /\ n > 0
        name == IF u.parts # <<>> THEN "parts" ELSE u.f
        mid == IF IsScheme(name) THEN Scheme[name][2] ELSE name
        hull == {"left", "constant", "right", "nearest", "linear", "loglinear"}
        inside(x) == n > 0 /\ Le(ks[1][1], x) /\ Le(x, ks[n][1])
        lo == MinOf(u.ys)
        hi == MaxOf(u.ys)
        between(v) == Le(Sub(lo, "1e-20"), v) /\ Le(v, Add(hi, "1e-20"))
        eps == "1e-12"
        usable(x) == ~(name = "parts" /\ f(x) = "None") /\ f(x) \notin Errors
        re(F(_)) == Tuple([i \in 1..n |-> <<ks[i][1], F(ks[i][1])>>])
        affine(x) == Add("0.25", Mul("1.5", x))
        expo(x) == Exp(Sub("0.25", Mul("0.5", x)))
        flat(x) == Exp(Mul("-0.125", x))
    IN Law("points are reproduced", good /\ name # "parts",
           \A i \in 1..n : f(ks[i][1]) = "IndexError" \/ Near(f(ks[i][1]), ks[i][2], "1e-20", "1e-20"))
       \cup Law("points are reproduced by parts", good /\ name = "parts",
           \A i \in 1..n : f(ks[i][1]) = "IndexError" \/ Near(f(ks[i][1]), ks[i][2], "1e-20", "1e-20"))
       \cup Law("within the hull of values", good /\ mid \in hull, \A x \in ToSet(Grid) : inside(x) => between(f(x)))
       \cup Law("constant beyond", good /\ name \in {"left", "constant", "right", "linear_scheme", "log_linear_scheme"},
                Close(f("-0.5"), ks[1][2]) /\ Close(f("5.5"), ks[n][2]))
       \cup Law("zero before the first point", good /\ name = "zero_linear_scheme", IsZero(f("-0.5")))
       \cup Law("continuous", good /\ mid \in {"linear", "loglinear", "loglinearrate"} /\ n > 1 /\ name # "zero_linear_scheme",
                \A i \in 1..n : IsZero(ks[i][1]) \/
                    \/ mid = "loglinearrate" /\ Len(NonZero(ks)) < 2
                    \/ /\ Near(f(Add(ks[i][1], eps)), ks[i][2], "1e-9", "0")
                       /\ Near(f(Sub(ks[i][1], eps)), ks[i][2], "1e-9", "0"))
       \cup Law("left and right are one sided", good /\ mid \in {"left", "constant", "right"} /\ name \notin DOMAIN Scheme,
                \A i \in 1..n : IF mid = "right" THEN Close(f(Sub(ks[i][1], eps)), ks[i][2]) ELSE Close(f(Add(ks[i][1], eps)), ks[i][2]))
       \cup Law("nearest is the closer point", good /\ name = "nearest",
                \A x \in ToSet(Grid) : \E i \in 1..n : Eq(f(x), ks[i][2])
                    /\ \A j \in 1..n : Le(Abs(Sub(x, ks[i][1])), Abs(Sub(x, ks[j][1]))))
       \cup Law("linear is exact on lines", name = "linear" /\ n > 1,
                \A x \in ToSet(Grid) : Near(Interpolate("linear", re(affine), x), affine(x), "1e-20", "1e-20"))
       \cup Law("log linear is exact on exponentials", name = "loglinear" /\ n > 1,
                \A x \in ToSet(Grid) : Near(Interpolate("loglinear", re(expo), x), expo(x), "1e-20", "1e-20"))
       \cup Law("log rates are exact on flat rates", name \in {"loglinearrate", "logconstantrate", "log_linear_rate_scheme"} /\ Len(NonZero(ks)) > 0,
                \A x \in ToSet(Grid) : Near(Interpolate(name, re(flat), x), flat(x), "1e-20", "1e-20"))
       \cup Law("no more than the points", good /\ name \in {"no", "zero"},
                \A x \in ToSet(Grid) : HasX(ks, x) \/ f(x) \in {"None", Zero})
       \cup Law("useless data is refused", err # {}, (\E i \in 1..n : ~Pos(u.ys[i])) \/ n < Len(u.xs) \/ u.name = "twice")
=============================================================================
