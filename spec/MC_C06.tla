------------------------------- MODULE MC_C06 -------------------------------
(* Conversions between kinds of curves, one after the other. *)
EXTENDS MCBase

Day == <<"738031", "738150", "738400", "738700">>
Flt == <<"0", "0.75", "1.5", "3">>
Fams == <<IrCls, CreditCls, VolCls>>
FamOf(cls) == CHOOSE F \in {IrCls, CreditCls, VolCls} : cls \in F
Y(cls, org) ==
    CASE cls \in FactorCls -> IF cls = "DefaultProbabilityCurve" THEN <<"0", "0.01", "0.025", "0.05">>
                              ELSE <<"1", "0.99", "0.975", "0.95">>
      [] cls = "MarginalSurvivalProbabilityCurve" -> <<"0.98", "0.95", "0.97", "0.99">>
      [] cls = "MarginalDefaultProbabilityCurve" -> <<"0.02", "0.05", "0.03", "0.01">>
      [] cls = "FlatIntensityCurve" -> <<"0.02", "0.025", "0.021", "0.03">>
      [] cls = "HazardRateCurve" -> <<"0.02", "0.01", "0.035", "0.05">>
      [] cls = "TerminalVolatilityCurve" -> <<"0.2", "0.21", "0.19", "0.25">>
      [] cls = "InstantaneousVolatilityCurve" -> <<"0.2", "0.35", "0.3", "0.1">>
      [] OTHER -> <<"0.02", "-0.01", "0.035", "0.05">>
Su(cls, k, org, dc, ten, is) ==
    LET d == IF k = "f" THEN Flt ELSE Day
        o == IF org = "early" THEN (IF k = "f" THEN "-0.5" ELSE "738000") ELSE IF org = "first" THEN d[is[1]] ELSE "none"
        y == Y(cls, org)
    IN [k |-> k, name |-> cls \o "-" \o org, cls |-> cls, d |-> d,
        pre |-> <<[dc |-> dc, ten |-> ten] @@
                  MkC("c0", cls, Tuple([i \in 1..Len(is) |-> d[is[i]]]),
                      Tuple([i \in 1..Len(is) |-> IF org = "early" /\ cls \in FactorCls /\ i = 1
                                                  THEN (IF cls = "DefaultProbabilityCurve" THEN "0.002" ELSE "0.998") ELSE y[is[i]]]), o)>>]
Ten(k) == IF k = "b" THEN "6M" ELSE IF k = "f" THEN "0.5" ELSE "182"
Points(cls, org) == IF cls \in FactorCls THEN <<<<1, 2, 4>>>> ELSE <<<<1>>, <<1, 3, 4>>>>
Biz(cls) ==
    FlattenSeq(Tuple([a \in 1..3 |-> FlattenSeq(Tuple([p \in 1..Len(Points(cls, "")) |-> Tuple([t \in 1..2 |->
        Su(cls, "b", <<"none", "first", "early">>[a], IF a = 2 THEN "act360" ELSE "none", <<"none", "6M">>[t], Points(cls, "")[p])])]))]))
Sources == <<"DiscountFactorCurve", "ZeroRateCurve", "ShortRateCurve", "CashRateCurve",
             "SurvivalProbabilityCurve", "DefaultProbabilityCurve", "MarginalSurvivalProbabilityCurve", "MarginalDefaultProbabilityCurve",
             "FlatIntensityCurve", "HazardRateCurve", "InstantaneousVolatilityCurve", "TerminalVolatilityCurve">>
TheSetups ==
    FlattenSeq(Each(Sources, Biz))
    \o <<Su("DiscountFactorCurve", "f", "none", "none", "0.5", <<1, 2, 4>>), Su("CashRateCurve", "f", "first", "none", "0.5", <<1, 3, 4>>),
         Su("ZeroRateCurve", "f", "first", "none", "0.5", <<1, 2, 3>>),
         Su("DiscountFactorCurve", "d", "none", "act360", "182", <<1, 2, 4>>), Su("CashRateCurve", "d", "first", "none", "91", <<1, 3, 4>>),
         Su("ZeroRateCurve", "d", "first", "act365", "182", <<1, 2, 3>>)>>

TheDepth(u) == IF u.k = "b" THEN 2 ELSE 1
Id(n) == "c" \o ToString(n)
\* single days are added to the dates of some kinds, intensities of empty periods need single days
Next(u, src) == IF u.k # "b" THEN {"ZeroRateCurve"} ELSE FamOf(src)
TheMoves(u, g, hs) ==
    LET n == Len(hs)
        s == g.o[Id(n)]
        cast(cls) == [op |-> "cast", id |-> Id(n + 1), cls |-> cls, src |-> Id(n)]
        o == OrgOf(s)
        xs == IF u.k = "f" THEN <<"1", "2.5">> ELSE <<"738200", "738300", "738500">>
        \* terminal volatilities from numerical integration are too rough for differences
        to == IF s.rough # "none" THEN {"TerminalVolatilityCurve"} ELSE IF n > 0 /\ ~Thorough THEN {g.o["c0"].cls} ELSE Next(u, s.cls)
    IN {cast(cls) : cls \in to}
       \cup (IF n > 0 /\ ~Thorough THEN {}
             ELSE {[org |-> o] @@ cast(cls) : cls \in to} \cup {[ten |-> Ten(u.k)] @@ cast(cls) : cls \in to}
                  \cup (IF n = 0 THEN {[op |-> "caston", id |-> Id(n + 1), cls |-> cls, src |-> Id(n), x |-> xs, org |-> o] : cls \in to}
                                      \cup {[via |-> "cast", op |-> "caston", id |-> Id(n + 1), cls |-> cls, src |-> Id(n), x |-> xs, org |-> o] : cls \in to}
                                      \cup {[itp |-> "constant"] @@ cast(cls) : cls \in to \ FactorCls}
                                      \cup (IF s.cls = "InstantaneousVolatilityCurve" THEN {}
                                            ELSE {[dc |-> "act365"] @@ cast(cls) : cls \in to}) ELSE {}))

Fn(cls) == IF cls \in IrCls THEN "df" ELSE IF cls \in CreditCls THEN "surv" ELSE "tvol"
TheProbes(u, g) ==
    LET ids == SelectSeq(<<"c0", "c1", "c2">>, LAMBDA i : i \in DOMAIN g.o)
        at(id) ==
            LET c == g.o[id]
                o == Org(g, id)
                q(x) == Ask(Fn(c.cls), id, x)
                due == SelectSeq(g.o["c0"].x, LAMBDA x : Le(o, x) /\ Lt(x, "738800"))
                \* kinds which step through single days
                slow == u.k # "b" /\ c.cls # "ZeroRateCurve"
            IN <<[op |-> "cast", id |-> "q", cls |-> c.cls, src |-> id, via |-> "points"], At1("dom", id, "0"), At1("kw", id, "0"), At1("org", id, "0"), All("calls", id, c.x)>>
               \o (IF u.k = "b" THEN <<At1("ten", id, "0")>> ELSE <<>>)
               \o (IF slow \/ c.rough # "none" \/ (c.cls \in VolCls /\ id # "c0") THEN <<>> ELSE Each(due, q))
    IN FlattenSeq(Each(ids, at))

TheLaws(u, g) ==
    LET n == Len(hist')
        e == IF n = 0 THEN [op |-> "none"] ELSE hist'[n]
        s == IF n = 0 THEN g.o["c0"] ELSE g.o[e.src]
        c == g.o[Id(n)]
        o == OrgOf(s)
        eq(a, b) == Near(a, b, "1e-20", "1e-20")
        same == n > 0 /\ Eq(OrgOf(c), o) /\ c.dc = s.dc
        ten == TenorOf(c)
        due == {x \in ToSet(s.x) : Le(o, x)}
        cf(id, x) == CF(g, id, o, x)
        ir == u.cls \notin VolCls
        \* a factor curve not starting with one has no rates from there
        fair == ~(s.cls \in FactorCls) \/ Eq(V(g, e.src, o), One)
        plain == n > 0 /\ e.op = "cast"
    IN Law("origin is kept or given", n > 0 /\ (Has(e, "org") \/ e.op = "cast"), Eq(OrgOf(c), IF Has(e, "org") THEN e.org ELSE o))
       \cup Law("day count is kept or given", n > 0, c.dc = (IF Has(e, "dc") THEN e.dc ELSE s.dc))
       \cup Law("tenor is given", n > 0 /\ Has(e, "ten"), c.ten = e.ten)
       \cup Law("dates of the source", plain, \A x \in ToSet(s.x) : InSeq(c.x, x))
       \cup Law("given dates", n > 0 /\ e.op = "caston", c.x = e.x)
       \cup Law("same kind is a copy", plain /\ s.cls = c.cls /\ same /\ c.cls \notin {"InstantaneousVolatilityCurve"} \cup MarginalCls \cup {"CashRateCurve"} /\ fair,
                \A x \in due : Near(V(g, Id(n), x), V(g, e.src, x), "1e-18", "1e-18"))
       \cup Law("factors agree on dates", plain /\ same /\ ir /\ fair /\ c.cls \in FactorCls \cup LinearRateCls,
                \A x \in due : eq(cf(Id(n), x), cf(e.src, x)))
       \cup Law("factors agree on dates of piecewise rates", plain /\ same /\ ir /\ fair /\ c.cls \in PieceCls /\ InSeq(s.x, o) /\ s.cls \notin MarginalCls \cup {"CashRateCurve"},
                \A x \in due : eq(cf(Id(n), x), cf(e.src, x)))
       \cup Law("cash rates agree on dates", plain /\ same /\ c.cls = "CashRateCurve",
                \A x \in ToSet(c.x) : eq(CashT(g, Id(n), x), Cash(g, e.src, x, Plus(u.k, x, ten))))
       \cup Law("marginal probabilities agree on dates", plain /\ same /\ c.cls \in MarginalCls,
                \A x \in ToSet(c.x) : eq(CF(g, Id(n), x, Plus(u.k, x, ten)), RMax(Tiny, RMin(One, CF(g, e.src, x, Plus(u.k, x, ten))))))
       \cup Law("terminal volatilities agree on dates", plain /\ same /\ ~ir /\ c.cls = "TerminalVolatilityCurve",
                \A x \in due : eq(TermVol0(g, Id(n), x), TermVol0(g, e.src, x)))
       \cup Law("interpolation is given", n > 0, c.itp = (IF Has(e, "itp") THEN e.itp ELSE "none"))
       \cup Law("source stays", n > 0, g.o["c0"] = RunAll(EmptyHeap(u.k), u.pre).o["c0"])
=============================================================================
