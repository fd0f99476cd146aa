------------------------------- MODULE MC_C09 -------------------------------
(* Spreads on rate curves: there while set, gone when removed. *)
EXTENDS MCBase

Flt == <<"0.5", "1", "2", "3">>
Day == <<"738031", "738150", "738400", "738600">>
Early(k) == IF k = "f" THEN "0" ELSE "738000"
Y(cls) ==
    CASE cls \in {"DiscountFactorCurve", "SurvivalProbabilityCurve"} -> <<"0.995", "0.98", "0.96">>
      [] cls = "DefaultProbabilityCurve" -> <<"0.005", "0.02", "0.04">>
      [] cls = "MarginalSurvivalProbabilityCurve" -> <<"0.98", "0.95", "0.97">>
      [] cls = "MarginalDefaultProbabilityCurve" -> <<"0.02", "0.05", "0.03">>
      [] cls = "FlatIntensityCurve" -> <<"0.02", "0.025", "0.028">>
      [] cls \in VolCls -> <<"0.2", "0.21", "0.25">>
      [] OTHER -> <<"0.02", "0.03", "0.025">>
Su(cls, k, org) ==
    LET d == IF k = "f" THEN Flt ELSE Day
        ten == IF k = "b" THEN "6M" ELSE IF k = "f" THEN "1" ELSE "182"
    IN [k |-> k, name |-> cls, d |-> d, cls |-> cls,
        pre |-> <<[ten |-> ten] @@ MkC("c", cls, <<d[1], d[2], d[4]>>, Y(cls), IF org = "early" THEN Early(k) ELSE "none"),
                  MkC("s1", "DateCurve", <<d[1]>>, <<"0.001">>, "none"),
                  IF cls \in PieceCls THEN MkC("s2", "DateCurve", <<d[2]>>, <<"0.0025">>, "none")
                  ELSE IF cls \in LinearRateCls /\ k # "d" THEN [ten |-> ten] @@ MkC("s2", cls, <<d[1], d[3]>>, <<"0.001", "0.004">>, "none")
                  ELSE MkC("s2", "DateCurve", <<d[2], d[3]>>, <<"-0.001", "0.002">>, "none")>>]
TheSetups ==
    <<Su("DiscountFactorCurve", "b", "early"), Su("DiscountFactorCurve", "f", "early"),
      Su("ZeroRateCurve", "b", "none"), Su("ZeroRateCurve", "f", "early"), Su("ZeroRateCurve", "d", "none"),
      Su("ShortRateCurve", "b", "early"), Su("CashRateCurve", "b", "none"), Su("CashRateCurve", "f", "none"),
      Su("SurvivalProbabilityCurve", "b", "early"), Su("DefaultProbabilityCurve", "d", "early"),
      Su("MarginalSurvivalProbabilityCurve", "b", "none"), Su("MarginalDefaultProbabilityCurve", "b", "early"),
      Su("FlatIntensityCurve", "b", "none"), Su("FlatIntensityCurve", "f", "none"), Su("HazardRateCurve", "b", "none"),
      Su("InstantaneousVolatilityCurve", "b", "none"), Su("TerminalVolatilityCurve", "b", "none"), Su("TerminalVolatilityCurve", "f", "early")>>

TheDepth(u) == IF Thorough THEN 4 ELSE 3
Sp(s) == [op |-> "spread", id |-> "c", s |-> s]
Keep(u) == CASE u.cls \in FactorCls -> "0.97" [] u.cls \in MarginalCls -> "0.94" [] OTHER -> "0.026"
TheMoves(u, g, hs) ==
    {Sp("s1"), Sp("s2"), Sp("none"),
     [op |-> "set", id |-> "s1", x |-> u.d[1], v |-> "0.003"]}
    \cup (IF Len(hs) < 2 \/ Thorough THEN {[op |-> "set", id |-> "c", x |-> u.d[3], v |-> Keep(u)]} ELSE {})

\* factors from the origin with a spread on the factor are no claim
Froms(u, g) == LET o == Org(g, "c") IN
    IF u.cls \in PieceCls THEN <<u.d[1], u.d[2], "738170">> ELSE IF u.cls \in FactorCls THEN Tail(u.d) ELSE SortReals(<<o>> \o u.d)
TheProbes(u, g) ==
    LET fr == Froms(u, g)
        fn == IF u.cls \in IrCls THEN "df" ELSE "surv"
        rt == IF u.cls \in IrCls THEN "zero" ELSE "intens"
        is == IF u.cls \in IrCls THEN "short" ELSE "hazard"
        c == g.o["c"]
        f2(x, y) == Ask2(fn, "c", x, y)
        r2(x, y) == Ask2(rt, "c", x, y)
        sh(x) == Ask(is, "c", x)
        ca(x) == Ask("cash", "c", x)
        tv(x) == Ask("tvol", "c", x)
        iv(x) == Ask("ivol", "c", x)
        in == SelectSeq(fr, LAMBDA x : u.k = "b" \/ (Le(MinOf(c.x), x) /\ Lt(x, MaxOf(c.x))))
    IN <<[op |-> "isspread", id |-> "c", s |-> "none"], [op |-> "isspread", id |-> "c", s |-> "s1"],
         All("calls", "c", u.d), All("calls", "s1", <<u.d[1]>>)>>
       \o (IF u.cls \notin VolCls
           THEN Pairs(fr, f2) \o Pairs(<<fr[1], fr[2], Last(fr)>>, r2) \o Each(in, sh) \o (IF u.cls \in IrCls THEN Each(<<fr[2]>>, ca) ELSE <<>>)
           ELSE IF u.cls = "TerminalVolatilityCurve" THEN Each(fr, tv) ELSE Each(fr, iv))

TheLaws(u, g) ==
    LET c == g.o["c"]
        bare == [g EXCEPT !.o["c"].spr = "none"]
        base == RunAll(EmptyHeap(u.k), u.pre)
        prev == IF hist' = <<>> THEN base ELSE RunAll(base, SubSeq(hist', 1, Len(hist') - 1))
        e == IF hist' = <<>> THEN [op |-> "none"] ELSE hist'[Len(hist')]
        set == \E i \in 1..Len(hist') : hist'[i].op = "set" /\ hist'[i].id = "c"
        D == ToSet(u.d)
        F == ToSet(Froms(u, g))
    IN Law("spread adds up", c.spr # "none", \A x \in D : Eq(V(g, "c", x), Add(V(bare, "c", x), V(g, c.spr, x))))
       \cup Law("without spread the curve is itself", c.spr = "none" /\ ~set, c = base.o["c"])
       \cup Law("second spread is refused", e.op = "spread" /\ e.s # "none" /\ prev.o["c"].spr # "none", g = prev)
       \cup Law("spread is what was set first", c.spr # "none",
                \E i \in 1..Len(hist') : hist'[i] = Sp(c.spr) /\ \A j \in (i + 1)..Len(hist') : hist'[j] # Sp("none"))
       \cup Law("update of the spread shows at once", e.op = "set" /\ e.id = "s1" /\ c.spr = "s1",
                \A x \in D : Eq(V(g, "c", x), Add(V(bare, "c", x), "0.003")))
       \cup Law("points do not know of the spread", ~set, c.ks = base.o["c"].ks)
       \cup Law("flat spread on zero rates", u.cls \in LinearRateCls /\ c.spr = "s1",
                \A x, y \in F : Lt(x, y) => Near(CR(g, "c", x, y), Add(CR(bare, "c", x, y), V(g, "s1", x)), "1e-20", "0"))
       \cup Law("flat spread on instantaneous rates", u.cls \in PieceCls /\ c.spr # "none",
                \A x, y \in F : Lt(x, y) => Near(CR(g, "c", x, y), Add(CR(bare, "c", x, y), V(g, c.spr, x)), "1e-20", "0"))
=============================================================================
