------------------------------- MODULE MC_C13 -------------------------------
(* Interest cashflows roll out period by period. *)
EXTENDS MCBase

Dates(k) == CASE k = "f" -> <<"0.5", "1", "1.5", "2.5">> [] k = "d" -> <<"738031", "738122", "738213", "738400">>
              [] k = "b" -> <<"738031", "738121", "738212", "738405">>
Before(k) == IF k = "f" THEN "0.125" ELSE "737950"
First(k) == IF k = "f" THEN "0" ELSE "737940"
Out(k) == IF k = "f" THEN "1.25" ELSE "738200"
Ten(k) == IF k = "f" THEN "0.5" ELSE IF k = "d" THEN "91" ELSE "3M"
Amt == <<"100", "-50", "75.5", "200">>
Late(k) == IF k = "f" THEN "4" ELSE "739000"
\* curves projecting flows
Curve(k, w) ==
    CASE w \in {"ZeroRateCurve", "CashRateCurve"} -> <<[ten |-> Ten(k)] @@ MkC("y", w, <<First(k), Late(k)>>, <<"0.02", "0.04">>, "none")>>
      [] w = "DiscountFactorCurve" -> <<[ten |-> Ten(k)] @@ MkC("y", w, <<First(k), Late(k)>>, <<"1", "0.9">>, "none")>>
      [] w = "ShortRateCurve" -> <<[ten |-> Ten(k)] @@ MkC("y", w, <<First(k), Dates(k)[2]>>, <<"0.03", "0.01">>, "none")>>
      [] w = "ForwardCurve" -> <<[yc |-> "0.02"] @@ MkC("y", w, <<First(k), Dates(k)[2]>>, <<"0.03", "0.04">>, "none")>>
      [] w = "DateCurve" -> <<MkC("y", w, <<First(k), Dates(k)[2]>>, <<"0.03", "-0.01">>, "none")>>
      [] OTHER -> <<>>
Fo(k) == IF k = "f" THEN "0.125" ELSE IF k = "d" THEN "2" ELSE "2D"
Po(k) == IF k = "f" THEN "0.25" ELSE IF k = "d" THEN "14" ELSE "1M"
Su(k, n, org, dc, off, w, amt) ==
    LET x == SubSeq(Dates(k), 1, n)
        cv == Curve(k, w)
    IN [k |-> k, name |-> "interest-" \o w, x |-> x, w |-> w, dc |-> dc, off |-> off, org |-> org,
        pre |-> cv \o <<[op |-> "cfnew", id |-> "l", cls |-> "RateCashFlowList", x |-> x,
                         a |-> IF amt = "one" THEN <<"100">> ELSE SubSeq(Amt, 1, n), scalar |-> amt = "one",
                         org |-> IF org = "before" THEN Before(k) ELSE "none", dc |-> dc, r |-> "0.0125",
                         fo |-> IF off \in {"fix", "both"} THEN Fo(k) ELSE "none",
                         po |-> IF off \in {"pay", "both"} THEN Po(k) ELSE "none",
                         ref |-> IF cv # <<>> THEN "y" ELSE w]>>]
Kinds == <<"f", "d", "b">>
\* a single date without origin has an empty period
Shapes == <<<<1, "before">>, <<2, "none">>, <<2, "before">>, <<4, "none">>, <<4, "before">>>>
Dcs(k) == IF k = "f" THEN <<"none", "half">> ELSE <<"none", "act360">>
Offs == <<"no", "fix", "pay", "both">>
Refs == <<"none", "0.03", "ZeroRateCurve", "DiscountFactorCurve", "CashRateCurve", "ForwardCurve", "DateCurve">>
All3(k, sh) ==
    FlattenSeq(Tuple([a \in 1..2 |-> FlattenSeq(Tuple([b \in 1..4 |-> Tuple([c \in 1..Len(Refs) |->
        Su(k, sh[1], sh[2], Dcs(k)[a], Offs[b], Refs[c], IF (a + b + c) % 2 = 0 THEN "one" ELSE "each")])]))]))
TheSetups == FlattenSeq(Cross(Kinds, Shapes, All3)) \o <<Su("b", 3, "before", "none", "no", "ShortRateCurve", "each")>>

TheDepth(u) == IF Thorough THEN 3 ELSE IF Len(u.x) = 2 /\ u.w \in {"none", "ZeroRateCurve"} THEN 2 ELSE 1
TheMoves(u, g, hs) ==
    {[op |-> "setrate", id |-> "l", r |-> "0.04"], [op |-> "setref", id |-> "l", ref |-> "0.0225"]}
    \* a single payment
    \cup {[op |-> "setpay", id |-> "l", x |-> Last(u.x), field |-> "fixed_rate", v |-> "0.0325"],
          [op |-> "setpay", id |-> "l", x |-> u.x[1], field |-> "amount", v |-> "0"]}
    \cup (IF Thorough THEN {[op |-> "setrate", id |-> "l", r |-> "0"], [op |-> "setref", id |-> "l", ref |-> "none"]} ELSE {})
    \cup (IF u.w \in {"ZeroRateCurve", "DateCurve", "ForwardCurve"} THEN {[op |-> "set", id |-> "y", x |-> First(u.k), v |-> "0.06"]} ELSE {})
TheProbes(u, g) ==
    LET pay(x) == At1("payoff", "l", x)
    IN <<All("cfgets", "l", u.x), All("cfgets", "l", <<u.x[1], Out(u.k), Last(u.x)>>), At1("cforg", "l", "0"), At1("cfdom", "l", "0"),
         At1("getrate", "l", "0"), At1("cftab", "l", "0"), At1("cfget", "l", Last(u.x)), At1("cfget", "l", Out(u.k)),
         [op |-> "cfcall", id |-> "k", src |-> "l", ref |-> "none"], [op |-> "cfcall", id |-> "k", src |-> "l", ref |-> "0.05"]>>
       \o Each(u.x, pay)

TheLaws(u, g) ==
    LET l == g.o["l"]
        n == Len(l.x)
        eq(a, b) == Near(a, b, "1e-20", "1e-20")
        flow(hp, i) == FlowAt("as", hp, "l", u.x[i], "own")
        yf(i) == YearFraction(g, l.pay[i])
        h0 == Put(g, "l", SetRate(l, Zero))
        rates == {i \in 1..Len(hist') : hist'[i].op = "setrate"}
        lastRate == IF rates = {} THEN "0.0125" ELSE hist'[CHOOSE i \in rates : \A j \in rates : j <= i].r
        mv(d) == IF l.pay[1].e = u.x[1] THEN d ELSE Back(u.k, d, Po(u.k))
    IN Law("a period per payment date", TRUE, n = Len(u.x) /\ Len(l.pay) = n)
       \cup Law("periods are adjacent", TRUE, \A i \in 1..(n - 1) : Eq(l.pay[i].e, l.pay[i + 1].s))
       \cup Law("periods end on payment dates less offset", TRUE, \A i \in 1..n : Eq(l.pay[i].e, mv(u.x[i])))
       \cup Law("first period starts at the origin", u.org = "before" /\ u.off \in {"no", "fix"}, Eq(l.pay[1].s, Before(u.k)))
       \cup Law("first period is as long as the second", u.org = "none" /\ u.k # "b" /\ u.off \in {"no", "fix"},
                Eq(Sub(l.pay[1].e, l.pay[1].s), Sub(l.pay[2].e, l.pay[2].s)))
       \cup Law("year fractions add up", TRUE,
                eq(RSum(Tuple([i \in 1..n |-> yf(i)])), DayCount(u.k, u.dc, l.pay[1].s, l.pay[n].e)))
       \cup Law("interest is linear in the fixed rate", TRUE,
                \A i \in 1..n : eq(Sub(flow(g, i), flow(h0, i)), Mul(Mul(l.pay[i].r, yf(i)), l.pay[i].a)))
       \cup Law("all periods have the rate set last", hist' = <<>> \/ Last(hist').op = "setrate", Eq(RateOf(l), lastRate))
       \cup Law("one period alone has its own rate", hist' # <<>> /\ Last(hist').op = "setpay" /\ Last(hist').field = "fixed_rate" /\ n > 1,
                RateOf(l) = "none" /\ \A i \in 1..(n - 1) : Eq(l.pay[i].r, lastRate))
       \cup Law("fixed interest only", l.ref = "none", \A i \in 1..n : eq(flow(g, i), Mul(Mul(l.pay[i].r, yf(i)), l.pay[i].a)))
       \cup Law("number as forward rate", l.ref \in {"0.03", "0.0225"}, \A i \in 1..n : eq(flow(h0, i), Mul(Mul(l.ref, yf(i)), l.pay[i].a)))
       \cup Law("cash rates over the own period", l.ref = "y" /\ u.w \in {"ZeroRateCurve", "DiscountFactorCurve"} /\ u.off \in {"no", "pay"} /\ u.dc = "none",
                \A i \in 1..n : Eq(Plus(u.k, l.pay[i].s, Ten(u.k)), l.pay[i].e) =>
                    eq(flow(h0, i), Mul(l.pay[i].a, Sub(Div(One, CF(g, "y", l.pay[i].s, l.pay[i].e)), One))))
       \cup Law("nothing on other dates", TRUE, IsZero(FlowAt("as", g, "l", Out(u.k), "own")))
=============================================================================
