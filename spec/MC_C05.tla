------------------------------- MODULE MC_C05 -------------------------------
(* Interest rate curves: factors, zero, short, cash rates and annuities. *)
EXTENDS MCBase

Flt == <<"0.25", "0.75", "1.5", "3">>
Day == <<"738031", "738150", "738400", "739000">>
Early(k) == IF k = "f" THEN "0" ELSE "737900"
Late(k) == IF k = "f" THEN "4.5" ELSE "739500"
Rates == <<"0.02", "-0.01", "0.035", "0.05">>
Factors == <<"0.99", "1.005", "0.96", "0.9">>
Su(cls, k, itp, dc, ten, org, n) ==
    LET d == IF k = "f" THEN Flt ELSE Day
        x == SubSeq(d, 1, n)
        o == IF org # "early" THEN "none" ELSE IF cls = "ShortRateCurve" THEN "738000" ELSE Early(k)
        y == SubSeq(IF cls = "DiscountFactorCurve" THEN (IF org = "early" THEN Factors ELSE <<"1">> \o SubSeq(Factors, 2, 4)) ELSE Rates, 1, n)
    IN [k |-> k, name |-> cls \o "-" \o itp, d |-> d, cls |-> cls, ten |-> ten,
        pre |-> <<[itp |-> itp, dc |-> dc, ten |-> ten] @@ MkC("c", cls, x, y, o)>>]
Ten(k) == IF k = "f" THEN "0.5" ELSE IF k = "d" THEN "91" ELSE "6M"
Ks == <<"f", "d", "b", "b">>
Tns(k) == IF k = "b" THEN <<"none", "6M", "1Y", "1M">> ELSE <<Ten(k)>>
Dcs(k) == IF k = "f" THEN <<"none">> ELSE <<"none", "act360">>
Orgs == <<"none", "early">>
Of(cls, itp, k, ns) ==
    FlattenSeq(Tuple([a \in 1..Len(Tns(k)) |-> FlattenSeq(Tuple([b \in 1..Len(Dcs(k)) |-> FlattenSeq(Tuple([c \in 1..2 |->
        Tuple([n \in 1..Len(ns) |-> Su(cls, k, itp, Dcs(k)[b], Tns(k)[a], Orgs[c], ns[n])])]))]))]))
\* a day count which does not add up at ends of months
Months == <<"738033", "738186", "738290", "738610">>
Thirty(cls, org, y) ==
    [k |-> "b", name |-> cls \o "-thirty", d |-> Months, cls |-> cls, ten |-> "6M",
     pre |-> <<[dc |-> "d30360", ten |-> "6M"] @@ MkC("c", cls, Months, y, org)>>]
TheSetups ==
    <<Thirty("ZeroRateCurve", "737986", Rates), Thirty("ZeroRateCurve", "none", Rates), Thirty("DiscountFactorCurve", "737986", Factors)>> \o
    Of("DiscountFactorCurve", "none", "b", <<2, 4>>) \o Of("DiscountFactorCurve", "none", "f", <<2, 4>>)
    \o Of("DiscountFactorCurve", "none", "d", <<4>>) \o SelectSeq(Of("DiscountFactorCurve", "log_linear_scheme", "b", <<3>>), LAMBDA u : u.pre[1].org = "none")
    \o Of("ZeroRateCurve", "none", "b", <<1, 2, 4>>) \o Of("ZeroRateCurve", "none", "f", <<1, 4>>)
    \o Of("ZeroRateCurve", "none", "d", <<3>>) \o Of("ZeroRateCurve", "constant", "b", <<4>>)
    \o SelectSeq(Of("ShortRateCurve", "none", "b", <<1, 2, 4>>), LAMBDA u : u.ten \in {"none", "1M"})
    \o Of("CashRateCurve", "none", "b", <<1, 2, 4>>) \o Of("CashRateCurve", "none", "f", <<1, 4>>)
    \o Of("CashRateCurve", "none", "d", <<3>>) \o Of("CashRateCurve", "right", "b", <<3>>)

TheDepth(u) == IF Thorough THEN 2 ELSE 1
SetE(x, v) == [op |-> "set", id |-> "c", x |-> x, v |-> v]
TheMoves(u, g, hs) ==
    IF u.cls = "DiscountFactorCurve"
    THEN {SetE(u.d[4], "0.85"), SetE(u.d[3], "1.02")}
    ELSE {SetE(u.d[1], "0.0125"), SetE(u.d[3], "-0.005")}

\* the program goes day by day through short rates
Froms(u, g) ==
    LET o == Org(g, "c")
        ds == IF u.cls = "ShortRateCurve" THEN <<"738040", "738150", "738155", "738200">>
              ELSE u.d \o <<IF u.k = "f" THEN "1" ELSE "738200", Late(u.k)>>
    IN SelectSeq(SortReals(<<o>> \o ds), LAMBDA x : Le(o, x))
Sparse(u, g) == LET s == Froms(u, g) IN <<s[1], s[2], s[4], s[Len(s)]>>
Biz(u) == u.k = "b"
\* periods which need single days are for business dates
Empties(u) == Biz(u)
Shorts(u, g) == LET c == g.o["c"] IN
    SelectSeq(<<Early(u.k)>> \o Froms(u, g), LAMBDA x : Biz(u) \/ (Le(MinOf(c.x), x) /\ Lt(x, MaxOf(c.x)) /\ Len(c.x) > 1))
TheProbes(u, g) ==
    LET fr == Froms(u, g)
        df(x) == Ask("df", "c", x)
        df2(x, y) == Ask2("df", "c", x, y)
        one(x) == Ask2("df", "c", x, x)
        z(x) == Ask("zero", "c", x)
        z2(x, y) == Ask2("zero", "c", x, y)
        z0(x) == Ask2("zero", "c", x, x)
        sh(x) == Ask("short", "c", x)
        ca(x) == Ask("cash", "c", x)
        ca2(x, y) == Ask2("cash", "c", x, y)
        st(x) == [step |-> Ten(u.k)] @@ Ask("cash", "c", x)
        bad(x) == [step |-> Ten(u.k)] @@ Ask2("cash", "c", x, Plus(u.k, Plus(u.k, x, Ten(u.k)), Ten(u.k)))
        good(x) == [step |-> Ten(u.k)] @@ Ask2("cash", "c", x, Plus(u.k, x, Ten(u.k)))
    IN Each(fr, df) \o Pairs(IF u.cls = "ShortRateCurve" THEN Sparse(u, g) ELSE fr, df2) \o Each(fr, one)
       \o Each(IF Empties(u) THEN fr ELSE Tail(fr), z) \o Pairs(Sparse(u, g), z2) \o (IF Empties(u) THEN Each(fr, z0) ELSE <<>>)
       \o Each(Shorts(u, g), sh) \o Each(fr, ca) \o Pairs(Sparse(u, g), ca2) \o Each(<<fr[1], fr[3]>>, st)
       \o Each(<<fr[2]>>, bad) \o Each(<<fr[2]>>, good)
       \o <<All("annuity", "c", fr), All("annuity", "c", <<fr[2], fr[1], fr[4]>>), All("annuity", "c", <<fr[2]>>)>>

TheLaws(u, g) ==
    LET c == g.o["c"]
        o == Org(g, "c")
        fr == Froms(u, g)
        S == ToSet(Sparse(u, g))
        F == ToSet(fr)
        eq(a, b) == Near(a, b, "1e-20", "1e-20")
        plain == u.cls # "CashRateCurve"
        nxt(x) == Plus(u.k, x, TenorOf(c))
        cf(x, y) == CF(g, "c", x, y)
        \* factors of a curve not starting with one belong to no date
        ok(x) == u.cls # "DiscountFactorCurve" \/ ~Eq(x, o) \/ Eq(V(g, "c", o), One)
        asc(x, y) == Le(x, y) /\ ok(x)
        inner(x) == Le(MinOf(c.x), x) /\ Lt(x, MaxOf(c.x))
    IN Law("adjacent periods multiply", plain, \A x, y, z \in S : asc(x, y) /\ asc(y, z) => eq(Mul(cf(x, y), cf(y, z)), cf(x, z)))
       \cup Law("adjacent tenors multiply", ~plain, \A x, z \in S : Le(nxt(x), z) => eq(Mul(cf(x, nxt(x)), cf(nxt(x), z)), cf(x, z)))
       \cup Law("one on empty periods", TRUE, \A x \in F : ok(x) => eq(cf(x, x), One))
       \cup Law("factors are positive", TRUE, \A x, y \in S : Le(x, y) => Pos(cf(x, y)))
       \cup Law("factor of the zero rate", TRUE,
                \A x, y \in S : Lt(x, y) => eq(cf(x, y), Exp(Neg(Mul(CR(g, "c", x, y), Dc(g, "c", x, y))))))
       \cup Law("discount factor curve", u.cls = "DiscountFactorCurve", \A x \in F : eq(cf(o, x), V(g, "c", x)))
       \cup Law("zero rate curve", u.cls = "ZeroRateCurve", \A x \in F : eq(CR(g, "c", o, x), V(g, "c", x)) \/ Eq(x, o))
       \cup Law("zero rate curve at the origin", u.cls = "ZeroRateCurve" /\ Biz(u), eq(CR(g, "c", o, o), V(g, "c", o)))
       \cup Law("short rate curve", u.cls = "ShortRateCurve", \A x \in F : eq(Inst(g, "c", x), V(g, "c", x)))
       \cup Law("cash rate curve", u.cls = "CashRateCurve",
                \A x \in F : Near(CashT(g, "c", x), V(g, "c", x), "1e-20", "0")
                             /\ eq(cf(x, nxt(x)), Div(One, Add(One, Mul(V(g, "c", x), Dc(g, "c", x, nxt(x)))))))
       \cup Law("cash rate compounds simply", TRUE,
                \A x, y \in S : Lt(x, y) => eq(cf(x, y), Div(One, Add(One, Mul(Cash(g, "c", x, y), Dc(g, "c", x, y))))))
       \cup Law("short rate is the rate of its interval", u.cls # "ShortRateCurve" /\ Len(c.x) > 1,
                \A x \in F : inner(x) =>
                    \E a, b \in ToSet(c.x) : /\ Le(a, x) /\ Lt(x, b) /\ ~\E m \in ToSet(c.x) : Lt(a, m) /\ Lt(m, b)
                                             /\ eq(Inst(g, "c", x), CR(g, "c", a, b)))
       \cup Law("annuity adds up", TRUE,
                LET n == Len(fr) IN eq(Annuity(g, "c", fr), Add(Annuity(g, "c", SubSeq(fr, 1, 3)), Annuity(g, "c", SubSeq(fr, 3, n)))))
       \cup Law("par swap rate", plain, \A x, y \in S :
                Lt(x, y) /\ ok(o) => eq(Sub(cf(o, x), cf(o, y)), Mul(Cash(g, "c", x, y), Annuity(g, "c", <<x, y>>))))
=============================================================================
