------------------------------- MODULE MC_C20 -------------------------------
(* Accrued interest. *)
EXTENDS MCBase

D(k) == CASE k = "f" -> <<"0.5", "1", "1.5", "2.5">> [] k = "d" -> <<"738031", "738122", "738213", "738400">>
          [] k = "b" -> <<"738031", "738121", "738212", "738405">>
Before(k) == IF k = "f" THEN "0.125" ELSE "737950"
First(k) == IF k = "f" THEN "0" ELSE "737940"
Late(k) == IF k = "f" THEN "4" ELSE "739000"
Ten(k) == IF k = "f" THEN "0.5" ELSE IF k = "d" THEN "91" ELSE "3M"
Fo(k) == IF k = "f" THEN "0.125" ELSE IF k = "d" THEN "2" ELSE "2D"
Po(k) == IF k = "f" THEN "0.25" ELSE IF k = "d" THEN "14" ELSE "1M"
Amt == <<"100", "-50", "75.5", "200">>
Dcs(k) == IF k = "f" THEN <<"none", "half">> ELSE <<"none", "act360">>
Su(k, org, dc, po, ref) ==
    LET d == D(k)
        o == IF org = "before" THEN Before(k) ELSE "none"
        pay == IF po THEN Po(k) ELSE "none"
    IN [k |-> k, name |-> "accrued-" \o ref, d |-> d, org |-> org, po |-> po, dc |-> dc, ref |-> ref,
        pre |-> <<[ten |-> Ten(k)] @@ MkC("y", "ZeroRateCurve", <<First(k), Late(k)>>, <<"0.02", "0.04">>, "none"),
                  [op |-> "mnew", id |-> "m", cls |-> "NormalOptionPayOffModel", vd |-> First(k), fwd |-> "y", vol |-> "0.01"],
                  [op |-> "cfnew", id |-> "l", cls |-> "RateCashFlowList", x |-> d, a |-> Amt, org |-> o, dc |-> dc, r |-> "0.03", po |-> pay,
                   fo |-> IF po THEN Fo(k) ELSE "none", ref |-> ref],
                  [op |-> "cfnew", id |-> "n", cls |-> "RateCashFlowList", x |-> <<d[2], d[3]>>, a |-> <<"10">>, scalar |-> TRUE, org |-> o, dc |-> dc,
                   r |-> "-0.02", po |-> pay, ref |-> "none"],
                  [op |-> "cfnew", id |-> "c", cls |-> "ContingentRateCashFlowList", x |-> d, a |-> <<"100">>, scalar |-> TRUE, org |-> o, dc |-> dc,
                   r |-> "0.001", cap |-> "0.0351", flr |-> "0.0251", po |-> pay, ref |-> IF ref = "y" THEN "m" ELSE ref],
                  [op |-> "cfnew", id |-> "a", cls |-> "FixedCashFlowList", x |-> d, a |-> Amt, org |-> o],
                  [op |-> "cfnew", id |-> "q", cls |-> "OptionCashflowList", x |-> d, a |-> <<"100">>, scalar |-> TRUE, ks |-> <<"0.0311">>,
                   puts |-> <<FALSE>>, ref |-> "m", org |-> First(k)],
                  [op |-> "legs", id |-> "g", ids |-> <<"a", "l">>], [op |-> "legs", id |-> "gg", ids |-> <<"n", "c", "q", "l">>]>>]
TheSetups ==
    FlattenSeq(Cross(<<"f", "d", "b">>, <<"none", "before">>, LAMBDA k, org :
        FlattenSeq(Cross(<<1, 2>>, <<TRUE, FALSE>>, LAMBDA c, po : Tuple([i \in 1..3 |-> Su(k, org, Dcs(k)[c], po, <<"none", "0.02", "y">>[i])])))))

TheDepth(u) == IF Thorough THEN 2 ELSE 1
TheMoves(u, g, hs) ==
    {[op |-> "setrate", id |-> "l", r |-> "-0.015"], [op |-> "setref", id |-> "l", ref |-> "0.05"],
     [op |-> "set", id |-> "y", x |-> Late(u.k), v |-> "0.025"]}

\* a day and the quarters of [a, b]
Day(k) == IF k = "f" THEN "0.0078125" ELSE "1"
Snap(k, x) == IF k = "f" THEN x ELSE Real(ToInt(x))
Frac(k, a, b, w) == Snap(k, Add(a, Mul(Sub(b, a), w)))
Inside(u, a, b) == <<Add(a, Day(u.k)), Frac(u.k, a, b, "0.25"), Frac(u.k, a, b, "0.5"), Frac(u.k, a, b, "0.75"), Sub(b, Day(u.k))>>
\* start of period i of a list
PS(g, id, i) == g.o[id].pay[i].s
PE(g, id, i) == g.o[id].pay[i].e
Ends(g, id) == FlattenSeq(Tuple([i \in 1..Len(g.o[id].x) |-> <<PS(g, id, i), PE(g, id, i), g.o[id].x[i]>>]))
Edges(u, g) == <<First(u.k)>> \o Ends(g, "l") \o <<Frac(u.k, u.d[4], Late(u.k), "0.0625"), Late(u.k)>>
Days(u, g) == Edges(u, g) \o FlattenSeq(Tuple([i \in 1..4 |-> Inside(u, PS(g, "l", i), PE(g, "l", i))]))
TheProbes(u, g) ==
    LET q(id, d) == <<[op |-> "accr", id |-> id, vd |-> d]>>
    IN FlattenSeq(Cross(<<"l", "c">>, Days(u, g), q)) \o FlattenSeq(Cross(<<"n", "a", "q", "g", "gg">>, Edges(u, g), q))

TheLaws(u, g) ==
    LET acc(id, d) == Accrued(g, id, d)
        eq(a, b) == Near(a, b, "1e-25", "1e-25")
        E == ToSet(Days(u, g))
        flow(i) == Flow("as", g, g.o["l"].pay[i], g.o["l"].ref)
        \* interest of earlier periods yet to be paid
        old(i, d) == RSum(Tuple([j \in 1..(i - 1) |-> IF Le(d, u.d[j]) THEN flow(j) ELSE Zero]))
        plain(i, d) == Sub(acc("l", d), old(i, d))
        s(i) == PS(g, "l", i)
        t(i) == PE(g, "l", i)
    IN Law("fixed flows and options do not accrue", TRUE, \A d \in E : IsZero(acc("a", d)) /\ IsZero(acc("q", d)))
       \cup Law("additive over legs", TRUE, \A d \in E : /\ eq(acc("g", d), acc("l", d))
                                                        /\ eq(acc("gg", d), Add(Add(acc("n", d), acc("c", d)), acc("l", d))))
       \cup Law("periods follow each other", TRUE, \A i \in 1..3 : Eq(t(i), s(i + 1)))
       \cup Law("zero at the start of a period", TRUE, \A i \in 1..4 : IsZero(plain(i, s(i))))
       \cup Law("whole at its end", TRUE, \A i \in 1..4 : eq(plain(i, t(i)), flow(i)))
       \cup Law("whole up to its payment", u.po, \A i \in 1..4 : LET d == Sub(u.d[i], Day(u.k)) IN Lt(t(i), d) =>
                    eq(Sub(acc("l", d), IF i = 4 THEN Zero ELSE plain(i + 1, d)), IF i = 4 THEN flow(i) ELSE old(i + 1, d)))
       \cup Law("linear in between", u.k # "b",
                \A i \in 1..4 : \A d \in ToSet(Inside(u, s(i), t(i))) : eq(plain(i, d), Mul(flow(i), Div(Sub(d, s(i)), Sub(t(i), s(i))))))
       \cup Law("between none and the whole", TRUE,
                \A i \in 1..4 : \A d \in ToSet(Inside(u, s(i), t(i))) : Lt(Zero, Div(plain(i, d), flow(i))) /\ Lt(Div(plain(i, d), flow(i)), One))
       \cup Law("nothing after the last payment", TRUE, IsZero(acc("l", Late(u.k))) /\ IsZero(acc("gg", Late(u.k))))
=============================================================================
