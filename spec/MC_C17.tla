------------------------------- MODULE MC_C17 -------------------------------
(* Present values. *)
EXTENDS MCBase

\* payment dates, the float ones half a year apart
D(k) == CASE k = "f" -> <<"0.5", "1", "1.5", "2">> [] k = "d" -> <<"738091", "738182", "738273", "738364">>
          [] k = "b" -> <<"738090", "738181", "738276", "738500">>
O(k) == IF k = "f" THEN "0" ELSE "738000"
Far(k) == IF k = "f" THEN "3" ELSE "739000"
Mid(k) == IF k = "f" THEN "1.25" ELSE "738200"
Ten(k) == IF k = "f" THEN "0.5" ELSE IF k = "d" THEN "91" ELSE "3M"
Pick(s, ix) == Tuple([i \in 1..Len(ix) |-> s[ix[i]]])
Flip(ok, s) == IF ok THEN s ELSE Reverse(s)
Su(k, cls, shape) ==
    LET d == D(k)
        o == O(k)
        x == <<o, d[2], d[4]>>
        y == IF cls = "DiscountFactorCurve" THEN <<"1", "0.97", "0.92">> ELSE <<"0.02", "0.03", "0.035">>
        ds == IF shape = "sorted" THEN d ELSE Tuple(<<d[3], d[1], d[4], d[2]>>)
        fx(id, a) == [op |-> "cfnew", id |-> id, cls |-> "FixedCashFlowList", x |-> ds, a |-> a, org |-> o]
        rt(id, r, ref, amt) == [op |-> "cfnew", id |-> id, cls |-> "RateCashFlowList", x |-> d, a |-> <<amt>>, scalar |-> TRUE, r |-> r, ref |-> ref, org |-> o]
    IN [k |-> k, name |-> "pv-" \o cls, cls |-> cls, d |-> d,
        pre |-> <<[ten |-> Ten(k)] @@ MkC("z", cls, x, y, "none"),
                  MkC("s", "DateCurve", <<o>>, <<"0.005">>, "none"),
                  fx("a", <<"100", "-30", "20", "50">>), fx("a2", <<"200", "-60", "40", "100">>),
                  rt("r", "0.04", "none", "100"), rt("t", "0", "z", "100"),
                  [op |-> "mnew", id |-> "m", cls |-> "NormalOptionPayOffModel", vd |-> o, fwd |-> "0.03", vol |-> "0.01"],
                  [op |-> "cfnew", id |-> "c", cls |-> "OptionCashflowList", x |-> d, a |-> <<"100">>, scalar |-> TRUE, ks |-> <<"0.0311">>,
                   puts |-> <<FALSE>>, ref |-> "m", org |-> o],
                  [op |-> "cfnew", id |-> "e", cls |-> "ContingentRateCashFlowList", x |-> d, a |-> <<"100">>, scalar |-> TRUE, r |-> "0.01",
                   cap |-> "0.0351", flr |-> "0.0251", ref |-> "m", org |-> o],
                  [op |-> "legs", id |-> "g", ids |-> <<"a", "r">>], [op |-> "legs", id |-> "gg", ids |-> <<"t", "c", "a", "e">>]>>]
TheSetups ==
    FlattenSeq(Cross(<<"f", "d", "b">>, <<"DiscountFactorCurve", "ZeroRateCurve", "CashRateCurve">>, LAMBDA k, c :
        <<Su(k, c, "sorted"), Su(k, c, "mixed")>>)) \o <<Su("b", "ShortRateCurve", "sorted")>>

\* the program goes day by day through short rates
Daily1(u) == u.cls = "ShortRateCurve"
TheDepth(u) == IF Daily1(u) THEN 1 ELSE IF Thorough THEN 3 ELSE 2
TheMoves(u, g, hs) ==
    {[op |-> "set", id |-> "z", x |-> u.d[2], v |-> IF u.cls = "DiscountFactorCurve" THEN "0.96" ELSE "0.045"],
     [op |-> "set", id |-> "z", x |-> u.d[3], v |-> IF u.cls = "DiscountFactorCurve" THEN "0.95" ELSE "0.02"],
     [op |-> "setrate", id |-> "r", r |-> "0.015"], [op |-> "mset", id |-> "m", field |-> "vd", v |-> Mid(u.k)],
     [op |-> "mset", id |-> "m", field |-> "vol", v |-> "0.02"]}
    \cup (IF u.cls = "DiscountFactorCurve" \/ g.o["z"].spr # "none" THEN {} ELSE {[op |-> "spread", id |-> "z", s |-> "s"]})

Ids == <<"a", "a2", "r", "t", "c", "e", "g", "gg">>
\* before the origin of the discount curve, too
Pre(k) == IF k = "f" THEN "-0.5" ELSE "737910"
Vds(u) == <<"none", Pre(u.k), O(u.k), u.d[1], Mid(u.k), u.d[3], u.d[4], Far(u.k)>>
TheProbes(u, g) ==
    LET pv(id, vd) == <<[op |-> "pv", id |-> id, disc |-> "z", vd |-> vd]>>
    IN FlattenSeq(Cross(IF Daily1(u) THEN <<"a", "g">> ELSE Ids, Vds(u), pv)) \o <<At1("mvd", "m", "0")>>

TheLaws(u, g) ==
    LET pv(id, vd) == PV("as", g, id, "z", ValDate(g, "z", vd))
        W == ToSet(Vds(u))
        D4 == ToSet(Vds(u)) \ {"none"}
        eq(a, b) == Near(a, b, "1e-20", "1e-20")
        before == Put(g, "m", [g.o["m"] EXCEPT !.vd = O(u.k)])
        plain == u.cls # "CashRateCurve"
    IN Law("additive over legs", TRUE, \A w \in W : /\ eq(pv("g", w), Add(pv("a", w), pv("r", w)))
                                                   /\ eq(pv("gg", w), Add(Add(pv("t", w), pv("c", w)), Add(pv("a", w), pv("e", w)))))
       \cup Law("linear in amounts", TRUE, \A w \in W : eq(pv("a2", w), Mul("2", pv("a", w))))
       \cup Law("default is the origin of the discount curve", TRUE, \A id \in ToSet(Ids) : eq(pv(id, "none"), pv(id, O(u.k))))
       \cup Law("nothing after the last payment", TRUE, \A id \in ToSet(Ids) : IsZero(pv(id, Far(u.k))))
       \cup Law("the last payment on its date", TRUE, \A id \in {"a", "r", "t"} : eq(pv(id, u.d[4]), FlowAt("as", g, id, u.d[4], "own")))
       \cup Law("discounted from date to date", plain,
                \A v, w \in D4 : Le(v, w) => \A id \in {"a", "r", "t"} :
                    LET passed == SelectSeq(u.d, LAMBDA x : Le(v, x) /\ Lt(x, w))
                    IN eq(pv(id, v), Add(Mul(CF(g, "z", v, w), pv(id, w)),
                                         RSum(Tuple([i \in 1..Len(passed) |-> Mul(CF(g, "z", v, passed[i]), FlowAt("as", g, id, passed[i], "own"))])))))
       \cup Law("floating interest and notional are worth par", u.k \in {"f", "d"},
                eq(pv("t", "none"), Mul("100", Sub(One, CF(g, "z", O(u.k), u.d[4])))))
       \cup Law("fixed interest by the annuity", u.cls # "CashRateCurve",
                eq(pv("r", "none"), Mul(Mul("100", RateOf(g.o["r"])), Annuity(g, "z", <<O(u.k)>> \o u.d))))
       \cup Law("options as of the valuation date", TRUE, \A w \in D4 : eq(pv("c", w), PV("as", before, "c", "z", w)))
       \cup Law("collar between cap and floor", TRUE,
                \A w \in W : LET n == RSum(Tuple([i \in 1..4 |-> IF Le(ValDate(g, "z", w), u.d[i])
                                             THEN Mul(YearFraction(g, g.o["e"].pay[i]), CF(g, "z", ValDate(g, "z", w), u.d[i])) ELSE Zero]))
                                 ip == Mul(Mul(n, "0.01"), "100")
                             IN /\ Le(Sub(pv("e", w), ip), Add(Mul(Mul(n, "0.0351"), "100"), "1e-6"))
                                /\ Le(Sub(Mul(Mul(n, "0.0251"), "100"), "1e-6"), Sub(pv("e", w), ip)))
=============================================================================
