------------------------------- MODULE MC_C07 -------------------------------
(* Credit curves: survival, intensities, hazard rates, marginals. *)
EXTENDS MCBase

Flt == <<"0.25", "0.75", "1.5", "3">>
Day == <<"738031", "738150", "738400", "739000">>
Early(k) == IF k = "f" THEN "0" ELSE "738000"
Late(k) == IF k = "f" THEN "4.5" ELSE "739500"
Comp(y) == Tuple([i \in 1..Len(y) |-> Sub(One, y[i])])
Y(cls, org) ==
    LET sv == IF org = "early" THEN <<"0.995", "0.98", "0.96", "0.9">> ELSE <<"1", "0.98", "0.96", "0.9">>
        mg == <<"0.98", "0.95", "0.97", "0.99">>
    IN CASE cls = "SurvivalProbabilityCurve" -> sv
         [] cls = "DefaultProbabilityCurve" -> Comp(sv)
         [] cls = "MarginalSurvivalProbabilityCurve" -> mg
         [] cls = "MarginalDefaultProbabilityCurve" -> Comp(mg)
         [] cls = "FlatIntensityCurve" -> <<"0.02", "0.025", "0.021", "0.03">>
         [] OTHER -> <<"0.02", "0.01", "0.035", "0.05">>
Su(cls, k, itp, dc, ten, org, n) ==
    LET d == IF k = "f" THEN Flt ELSE Day
    IN [k |-> k, name |-> cls \o "-" \o itp, d |-> d, cls |-> cls,
        pre |-> <<[itp |-> itp, dc |-> dc, ten |-> ten] @@
                  MkC("c", cls, SubSeq(d, 1, n), SubSeq(Y(cls, org), 1, n), IF org = "early" THEN Early(k) ELSE "none")>>]
Tns(k) == IF k = "b" THEN <<"none", "6M">> ELSE IF k = "f" THEN <<"1">> ELSE <<"365">>
\* values beyond zero and one
Odd(cls, k, ys) ==
    LET d == IF k = "f" THEN Flt ELSE Day
    IN [k |-> k, name |-> cls \o "-odd", d |-> d, cls |-> cls, pre |-> <<[ten |-> Tns(k)[1]] @@ MkC("c", cls, d, ys, Early(k))>>]
\* nothing survives from the third date on, or from the period after the third date
Doom(cls, k, itp) ==
    LET d == IF k = "f" THEN Flt ELSE Day
        y == IF cls \in DefaultCls THEN <<"0.125", "0.25", "1", "1">> ELSE <<"0.875", "0.75", "0", "0">>
    IN [k |-> k, name |-> cls \o "-doom", d |-> d, cls |-> cls,
        pre |-> <<[itp |-> itp, ten |-> IF k = "b" THEN "6M" ELSE Tns(k)[1]] @@ MkC("c", cls, d, y, Early(k))>>]
Dcs(k) == IF k = "f" THEN <<"none">> ELSE <<"none", "act360">>
Orgs == <<"none", "early">>
Of(cls, itp, k, ns) ==
    FlattenSeq(Tuple([a \in 1..Len(Tns(k)) |-> FlattenSeq(Tuple([b \in 1..Len(Dcs(k)) |-> FlattenSeq(Tuple([c \in 1..2 |->
        Tuple([n \in 1..Len(ns) |-> Su(cls, k, itp, Dcs(k)[b], Tns(k)[a], Orgs[c], ns[n])])]))]))]))
\* a day count which does not add up at ends of months
Months == <<"738033", "738186", "738290", "738610">>
Thirty(cls, org) ==
    [k |-> "b", name |-> cls \o "-thirty", d |-> Months, cls |-> cls,
     pre |-> <<[dc |-> "d30360", ten |-> "6M"] @@ MkC("c", cls, Months, Y(cls, "early"), org)>>]
TheSetups ==
    <<Thirty("FlatIntensityCurve", "737986"), Thirty("FlatIntensityCurve", "none"), Thirty("SurvivalProbabilityCurve", "737986"),
      Thirty("DefaultProbabilityCurve", "737986")>> \o
    Of("SurvivalProbabilityCurve", "none", "b", <<2, 4>>) \o Of("SurvivalProbabilityCurve", "none", "f", <<4>>)
    \o Of("SurvivalProbabilityCurve", "none", "d", <<3>>)
    \o SelectSeq(Of("SurvivalProbabilityCurve", "log_linear_scheme", "b", <<3>>), LAMBDA u : u.pre[1].org = "none")
    \o Of("DefaultProbabilityCurve", "none", "b", <<2, 4>>) \o Of("DefaultProbabilityCurve", "none", "f", <<3>>)
    \o Of("MarginalSurvivalProbabilityCurve", "none", "b", <<1, 2, 4>>) \o Of("MarginalSurvivalProbabilityCurve", "none", "f", <<4>>)
    \o Of("MarginalDefaultProbabilityCurve", "none", "b", <<1, 3>>) \o Of("MarginalDefaultProbabilityCurve", "none", "d", <<3>>)
    \o Of("FlatIntensityCurve", "none", "b", <<1, 2, 4>>) \o Of("FlatIntensityCurve", "none", "f", <<4>>)
    \o Of("FlatIntensityCurve", "constant", "b", <<1>>)
    \o Of("HazardRateCurve", "none", "b", <<1, 2, 4>>)
    \o <<Odd("SurvivalProbabilityCurve", "f", <<"1", "1.25", "0.5", "0.25">>),
         Odd("DefaultProbabilityCurve", "b", <<"0", "-0.25", "0.5", "0.75">>),
         Odd("MarginalSurvivalProbabilityCurve", "d", <<"1", "1.25", "0.5", "0.25">>),
         Odd("MarginalDefaultProbabilityCurve", "b", <<"0", "-0.25", "0.5", "0.75">>),
         Doom("SurvivalProbabilityCurve", "f", "none"), Doom("SurvivalProbabilityCurve", "b", "none"),
         Doom("DefaultProbabilityCurve", "b", "none"), Doom("DefaultProbabilityCurve", "d", "none"),
         Doom("MarginalSurvivalProbabilityCurve", "b", "none"), Doom("MarginalSurvivalProbabilityCurve", "f", "constant"),
         Doom("MarginalDefaultProbabilityCurve", "b", "constant"), Doom("MarginalDefaultProbabilityCurve", "d", "none")>>

IsDoom(u) == u.name = u.cls \o "-doom"
TheDepth(u) == IF IsDoom(u) THEN 0 ELSE IF Thorough THEN 2 ELSE 1
SetE(x, v) == [op |-> "set", id |-> "c", x |-> x, v |-> v]
TheMoves(u, g, hs) ==
    IF u.cls \in SurvCls THEN {SetE(u.d[4], "0.85"), SetE(u.d[3], "0.97")}
    ELSE IF u.cls \in MarginalCls THEN {SetE(u.d[1], "0.9"), SetE(u.d[3], "0.96")}
    ELSE {SetE(u.d[4], "0.032"), SetE(u.d[3], "0.0215")}

Biz(u) == u.k = "b"
Froms(u, g) ==
    LET o == Org(g, "c")
        ds == IF u.cls = "HazardRateCurve" THEN <<"738040", "738150", "738155", "738200">>
              ELSE u.d \o <<IF u.k = "f" THEN "1" ELSE "738200", Late(u.k)>>
    IN SelectSeq(SortReals(<<o>> \o ds), LAMBDA x : Le(o, x))
Sparse(u, g) == LET s == Froms(u, g) IN <<s[1], s[2], s[4], s[Len(s)]>>
Inner(u, g) == LET c == g.o["c"] IN
    SelectSeq((IF Biz(u) THEN <<Early(u.k)>> ELSE <<>>) \o Froms(u, g),
              LAMBDA x : Biz(u) \/ (Le(MinOf(c.x), x) /\ Lt(x, MaxOf(c.x)) /\ Len(c.x) > 1))
\* rates are out of reach of doubles where nothing survives
DoomProbes(u, g) ==
    LET fr == Froms(u, g)
        gone(x) == Dead(V(g, "c", x))
        call(x) == At1("call", "c", x)
        sv(x) == Ask("surv", "c", x)
        sv2(x, y) == Ask2("surv", "c", x, y)
        two == Pairs(fr, sv2)
    IN Each(fr, call) \o Each(fr, sv)
       \o SelectSeq(two, LAMBDA q : u.cls \notin SurvCls \/ Eq(q.s, q.e) \/ ~gone(q.s))
TheProbes(u, g) ==
    IF IsDoom(u) THEN DoomProbes(u, g) ELSE
    LET fr == Froms(u, g)
        call(x) == At1("call", "c", x)
        sv(x) == Ask("surv", "c", x)
        sv2(x, y) == Ask2("surv", "c", x, y)
        sv1(x) == Ask2("surv", "c", x, x)
        in(x) == Ask("intens", "c", x)
        in2(x, y) == Ask2("intens", "c", x, y)
        in1(x) == Ask2("intens", "c", x, x)
        hz(x) == Ask("hazard", "c", x)
    IN <<At1("kw", "c", "0")>> \o Each(fr, call) \o Each(fr, sv)
       \o Pairs(IF u.cls = "HazardRateCurve" THEN Sparse(u, g) ELSE fr, sv2) \o Each(fr, sv1)
       \o Each(IF Biz(u) THEN fr ELSE Tail(fr), in) \o Pairs(Sparse(u, g), in2) \o (IF Biz(u) THEN Each(fr, in1) ELSE <<>>)
       \o Each(Inner(u, g), hz)

DoomLaws(u, g) ==
    LET fr == Froms(u, g)
        F == ToSet(fr)
        gone(x) == Dead(V(g, "c", x))
        cf(x, y) == CF(g, "c", x, y)
        eq(a, b) == Near(a, b, "1e-20", "1e-20")
    IN Law("the dead do not survive", TRUE, \A x \in F : gone(x) => eq(cf(x, x), Zero))
       \cup Law("the living survive an empty period", TRUE, \A x \in F : ~gone(x) /\ ~Eq(x, Org(g, "c")) => eq(cf(x, x), One))
       \cup Law("no survival to the dead", u.cls \in SurvCls, \A x, y \in F : Le(x, y) /\ ~gone(x) /\ gone(y) => eq(cf(x, y), Zero) \/ Lt(V(g, "c", x), "1e-100"))
       \cup Law("dead marginals end all walks", u.cls \in MarginalCls,
                \A x, y \in F : Le(x, y) /\ gone(x) => eq(cf(x, y), Zero))
TheLaws(u, g) ==
    IF IsDoom(u) THEN DoomLaws(u, g) ELSE
    LET c == g.o["c"]
        o == Org(g, "c")
        fr == Froms(u, g)
        S == ToSet(Sparse(u, g))
        F == ToSet(fr)
        eq(a, b) == Near(a, b, "1e-20", "1e-20")
        whole == u.cls \notin MarginalCls
        odd == u.name = u.cls \o "-odd"
        nxt(x) == Plus(u.k, x, TenorOf(c))
        cf(x, y) == CF(g, "c", x, y)
        ok(x) == u.cls \notin SurvCls \/ ~Eq(x, o) \/ Eq(V(g, "c", o), One)
        asc(x, y) == Le(x, y) /\ ok(x)
        inner(x) == Le(MinOf(c.x), x) /\ Lt(x, MaxOf(c.x))
        fresh == hist' = <<>>
    IN Law("adjacent periods multiply", whole, \A x, y, z \in S : asc(x, y) /\ asc(y, z) => eq(Mul(cf(x, y), cf(y, z)), cf(x, z)))
       \cup Law("adjacent tenors multiply", ~whole, \A x, z \in S : Le(nxt(x), z) => eq(Mul(cf(x, nxt(x)), cf(nxt(x), z)), cf(x, z)))
       \cup Law("one on empty periods", TRUE, \A x \in F : ok(x) => eq(cf(x, x), One))
       \cup Law("survival is a probability", ~odd, \A x, y \in S : Le(x, y) => Pos(cf(x, y)) /\ Le(cf(x, y), Add(One, "1e-20")))
       \cup Law("survival falls", ~odd /\ whole, \A x, y \in S : Le(x, y) => Le(cf(o, y), Add(cf(o, x), "1e-20")))
       \cup Law("survival of the intensity", TRUE,
                \A x, y \in S : Lt(x, y) => eq(cf(x, y), Exp(Neg(Mul(CR(g, "c", x, y), Dc(g, "c", x, y))))))
       \cup Law("survival probability curve", u.cls \in SurvCls, \A x \in F : eq(cf(o, x), V(g, "c", x)))
       \cup Law("flat intensity curve", u.cls = "FlatIntensityCurve", \A x \in F : eq(CR(g, "c", o, x), V(g, "c", x)) \/ Eq(x, o))
       \cup Law("hazard rate curve", u.cls = "HazardRateCurve", \A x \in F : eq(Inst(g, "c", x), V(g, "c", x)))
       \cup Law("marginal probability curve", ~whole, \A x \in F : eq(cf(x, nxt(x)), V(g, "c", x)))
       \cup Law("values between zero and one", u.cls \in ProbCls /\ fresh,
                \A i \in 1..Len(c.ks) : Pos(c.ks[i][2]) /\ Le(c.ks[i][2], One))
       \cup Law("default is one minus survival", u.cls \in DefaultCls /\ fresh /\ ~odd,
                \A i \in 1..Len(c.ks) : Eq(c.ks[i][2], Sub(One, u.pre[1].y[i])))
       \cup Law("hazard rate is the intensity of its interval", u.cls # "HazardRateCurve" /\ Len(c.x) > 1,
                \A x \in F : inner(x) =>
                    \E a, b \in ToSet(c.x) : /\ Le(a, x) /\ Lt(x, b) /\ ~\E m \in ToSet(c.x) : Lt(a, m) /\ Lt(m, b)
                                             /\ eq(Inst(g, "c", x), CR(g, "c", a, b)))
=============================================================================
