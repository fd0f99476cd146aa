------------------------------- MODULE MC_C15 -------------------------------
(* Contingent cashflows are notional times option values of the model. *)
EXTENDS MCBase

Dates(k) == CASE k = "f" -> <<"0.5", "1", "1.75">> [] OTHER -> <<"738031", "738121", "738400">>
Vd(k) == IF k = "f" THEN "0" ELSE "737900"
Mid(k) == IF k = "f" THEN "0.75" ELSE "738100"
Before(k) == IF k = "f" THEN "0.125" ELSE "737950"
Far(k) == IF k = "f" THEN "4" ELSE "739000"
Ten(k) == IF k = "f" THEN "0.5" ELSE IF k = "d" THEN "91" ELSE "3M"
Fo(k) == IF k = "f" THEN "0.125" ELSE IF k = "d" THEN "2" ELSE "2D"
Po(k) == IF k = "f" THEN "0.25" ELSE IF k = "d" THEN "14" ELSE "1M"
Off(k, off) == [fo |-> IF off \in {"fix", "both"} THEN Fo(k) ELSE "none", po |-> IF off \in {"pay", "both"} THEN Po(k) ELSE "none"]
\* strikes of rates, never exactly at the forward
K1 == "0.0251"
K2 == "0.0367"
Mod(k, cls, ref) ==
    LET norm == cls = "NormalOptionPayOffModel"
        x == <<Vd(k), Far(k)>>
        fwd == IF ref = "number" THEN "0.03" ELSE "y"
        vol == IF ref = "vol" THEN "v" ELSE IF norm THEN "0.012" ELSE "0.3"
    IN <<[ten |-> Ten(k)] @@ MkC("y", IF ref = "cash" THEN "CashRateCurve" ELSE "ZeroRateCurve", x, <<"0.02", "0.035">>, "none"),
         MkC("v", "TerminalVolatilityCurve", x, IF norm THEN <<"0.01", "0.014">> ELSE <<"0.2", "0.35">>, "none"),
         [op |-> "mnew", id |-> "m", cls |-> cls, vd |-> Vd(k), fwd |-> fwd, vol |-> vol]
           @@ (IF cls = "DisplacedLogNormalOptionPayOffModel" THEN [disp |-> "0.02"] ELSE <<>>),
         [op |-> "mnew", id |-> "m2", cls |-> "IntrinsicOptionPayOffModel", vd |-> Vd(k), fwd |-> "0.031", vol |-> "none"]>>
Lists(k, what, off, org) ==
    LET x == Dates(k)
        o == IF org = "before" THEN Before(k) ELSE "none"
    IN CASE what = "option" ->
              <<[op |-> "cfnew", id |-> "l", cls |-> "OptionCashflowList", x |-> x, a |-> <<"100", "-50", "75">>, ks |-> <<K1, K2, "none">>,
                 puts |-> <<FALSE, TRUE, FALSE>>, ref |-> "m", org |-> o] @@ Off(k, off),
                [op |-> "cfnew", id |-> "p", cls |-> "OptionCashflowList", x |-> x, a |-> <<"100">>, scalar |-> TRUE, ks |-> <<K1>>,
                 puts |-> <<TRUE>>, ref |-> "m", org |-> o] @@ Off(k, off)>>
         [] what = "strategy" ->
              <<[op |-> "cfnew", id |-> "l", cls |-> "OptionStrategyCashflowList", x |-> x, ca |-> <<"100", "-50">>, ck |-> <<K1, K2>>,
                 pa |-> <<"-100">>, pk |-> <<K1>>, ref |-> "m", org |-> o] @@ Off(k, off),
                [op |-> "cfnew", id |-> "p", cls |-> "OptionStrategyCashflowList", x |-> x, ca |-> <<"-25">>, scalar |-> FALSE, ck |-> <<K1>>,
                 pa |-> <<"10", "20">>, pk |-> <<K1, K2>>, ref |-> "none", org |-> o] @@ Off(k, off)>>
         [] what = "collar" ->
              <<[op |-> "cfnew", id |-> "l", cls |-> "ContingentRateCashFlowList", x |-> x, a |-> <<"100", "-50", "75">>, r |-> "0.005",
                 cap |-> K1, flr |-> K1, ref |-> "m", org |-> o] @@ Off(k, off),
                [op |-> "cfnew", id |-> "p", cls |-> "ContingentRateCashFlowList", x |-> x, a |-> <<"100">>, scalar |-> TRUE, r |-> "0",
                 cap |-> K2, flr |-> "none", dc |-> IF k = "f" THEN "half" ELSE "act360", ref |-> "m", org |-> o] @@ Off(k, off)>>
         [] what = "zero" ->   \* strikes of exactly zero and below
              <<[op |-> "cfnew", id |-> "l", cls |-> "ContingentRateCashFlowList", x |-> x, a |-> <<"100", "-50", "75">>, r |-> "0.0",
                 cap |-> "none", flr |-> "0", ref |-> "m", org |-> o] @@ Off(k, off),
                [op |-> "cfnew", id |-> "p", cls |-> "ContingentRateCashFlowList", x |-> x, a |-> <<"100">>, scalar |-> TRUE, r |-> "0.01",
                 cap |-> "0", flr |-> "-0.01", ref |-> "m", org |-> o] @@ Off(k, off)>>
         [] what = "zeros" ->
              <<[op |-> "cfnew", id |-> "l", cls |-> "OptionCashflowList", x |-> x, a |-> <<"100", "-50", "75">>, ks |-> <<"0", "-0.01", "0">>,
                 puts |-> <<FALSE, TRUE, TRUE>>, ref |-> "m", org |-> o] @@ Off(k, off),
                [op |-> "cfnew", id |-> "p", cls |-> "OptionStrategyCashflowList", x |-> x, ca |-> <<"-25", "10">>, ck |-> <<"0", "-0.01">>,
                 pa |-> <<"10", "20">>, pk |-> <<"0", K2>>, ref |-> "m", org |-> o] @@ Off(k, off)>>
         [] what = "floor" ->
              <<[op |-> "cfnew", id |-> "l", cls |-> "ContingentRateCashFlowList", x |-> x, a |-> <<"100", "-50", "75">>, r |-> "0.0",
                 cap |-> "none", flr |-> K1, ref |-> "m", org |-> o] @@ Off(k, off),
                [op |-> "cfnew", id |-> "p", cls |-> "ContingentRateCashFlowList", x |-> x, a |-> <<"100">>, scalar |-> TRUE, r |-> "0.01",
                 cap |-> "none", flr |-> "none", ref |-> "m", org |-> o] @@ Off(k, off)>>
Su(k, what, cls, ref, off, org) ==
    [k |-> k, name |-> what \o "-" \o cls, what |-> what, cls |-> cls, ref |-> ref, off |-> off,
     pre |-> Mod(k, cls, ref) \o Lists(k, what, off, org)]
Whats == <<"option", "strategy", "collar", "floor">>
Classes == <<"NormalOptionPayOffModel", "LogNormalOptionPayOffModel", "DisplacedLogNormalOptionPayOffModel", "IntrinsicOptionPayOffModel">>
TheSetups ==
    FlattenSeq(Cross(<<"f", "d", "b">>, Whats, LAMBDA k, w :
        <<Su(k, w, Classes[1], "number", "no", "none"), Su(k, w, Classes[1], "cash", "both", "before"), Su(k, w, Classes[2], "number", "fix", "before"),
          Su(k, w, Classes[2], "vol", "pay", "none"), Su(k, w, Classes[3], "curve", "no", "before"), Su(k, w, Classes[1], "vol", "fix", "before"),
          Su(k, w, Classes[4], "curve", "pay", "before"), Su(k, w, Classes[3], "number", "both", "none")>>))
    \o FlattenSeq(Cross(<<"f", "d", "b">>, <<"zero", "zeros">>, LAMBDA k, w :
        <<Su(k, w, Classes[1], "number", "no", "none"), Su(k, w, Classes[1], "vol", "fix", "before"), Su(k, w, Classes[4], "curve", "pay", "before"),
          Su(k, w, Classes[1], "cash", "both", "before")>>))

TheDepth(u) == IF Thorough THEN 3 ELSE 2
Floating(u) == u.what \in {"collar", "floor", "zero"}
TheMoves(u, g, hs) ==
    {[op |-> "mset", id |-> "m", field |-> "vd", v |-> Mid(u.k)], [op |-> "setref", id |-> "l", ref |-> "m2"]}
    \cup (IF u.ref = "number" THEN {[op |-> "mset", id |-> "m", field |-> "fwd", v |-> "0.0281"]} ELSE {})
    \cup (IF u.ref # "vol" THEN {[op |-> "mset", id |-> "m", field |-> "vol", v |-> IF u.cls = Classes[1] THEN "0.02" ELSE "0.4"]} ELSE {})
    \cup (IF Floating(u) THEN {[op |-> "setrate", id |-> "l", r |-> "0.0075"]} ELSE {})
Out(u) == IF u.k = "f" THEN "1.25" ELSE "738200"
TheProbes(u, g) ==
    LET x == g.o["l"].x
        pay(d) == At1("payoff", "l", d)
        one(id) == <<All("cfgets", id, x), At1("cftab", id, "0"), At1("cfget", id, x[2]), At1("cfget", id, Out(u)), At1("cforg", id, "0")>>
    IN one("l") \o one("p") \o (IF Floating(u) THEN Each(x, pay) \o <<At1("getrate", "l", "0")>> ELSE <<>>)
       \o <<[op |-> "cfcall", id |-> "k", src |-> "l", ref |-> "m2"], [op |-> "cfcall", id |-> "k", src |-> "p", ref |-> "m"]>>

TheLaws(u, g) ==
    LET l == g.o["l"]
        p == g.o["p"]
        n == Len(l.x)
        I == 1..n
        eq(a, b) == Near(a, b, "1e-18", "1e-18")
        F(hp, id, i) == FlowAt("ex", hp, id, l.x[i], "own")
        m == IF l.ref = "none" THEN g.o["m"] ELSE g.o[l.ref]
        vanilla == [a |-> "1", p |-> "opt"]
        opt(x, k, put) == OptionFlow("ex", g, [p |-> "opt", ex |-> x, a |-> "1", k |-> k, put |-> put], l.ref)
        fix(i) == FixingDate(g, l.pay[i])
        nom(i) == Mul(YearFraction(g, l.pay[i]), l.pay[i].a)
        fwd(x) == RefForward(g, m.fwd, x)
        ex(i) == l.pay[i].ex
        bare == Put(g, "l", [l EXCEPT !.ref = "none"])
    IN Law("cap and floor at one strike fix the rate", u.what = "collar",
           \A i \in I : eq(F(g, "l", i), Mul(nom(i), Add(l.pay[i].r, K1))))
       \cup Law("floored interest is at least floored", u.what = "floor" /\ Eq(l.pay[1].r, Zero),
                \A i \in I : Le(Mul(Mul(YearFraction(g, l.pay[i]), K1), One), Add(Div(F(g, "l", i), l.pay[i].a), "1e-20")) \/ ~Pos(l.pay[i].a))
       \cup Law("capped interest is at most capped", u.what = "collar",
                \A i \in I : Le(F(g, "p", i), Add(Mul(Mul(YearFraction(g, p.pay[i]), K2), p.pay[i].a), "1e-20")))
       \cup Law("without cap and floor interest only", u.what = "floor",
                \A i \in I : eq(F(g, "p", i), Mul(Mul(YearFraction(g, p.pay[i]), p.pay[i].a),
                                                 Add(p.pay[i].r, Projected(g, p.pay[i], "m")))))
       \cup Law("option is amount times value", u.what = "option",
                \A i \in I : eq(F(g, "l", i), Mul(l.pay[i].a, opt(ex(i), l.pay[i].k, l.pay[i].put))))
       \cup Law("floored at zero means interest of at least zero", u.what = "zero" /\ Eq(l.pay[1].r, Zero) /\ u.cls = Classes[4],
                \A i \in I : eq(F(g, "l", i), Mul(nom(i), RMax(Zero, Projected(g, l.pay[i], l.ref)))))
       \cup Law("call and put", u.what = "option", \A i \in I : eq(Sub(opt(ex(i), K2, FALSE), opt(ex(i), K2, TRUE)), Sub(fwd(ex(i)), K2)))
       \cup Law("option at the forward", u.what = "option" /\ l.ref = "m",
                \A i \in I : eq(opt(ex(i), "none", FALSE), opt(ex(i), "none", TRUE)))
       \cup Law("strategy is the sum of its options", u.what = "strategy",
                \A i \in I : LET e == l.pay[i].opts[1].ex
                             IN eq(F(g, "l", i), Add(Mul("100", Sub(fwd(e), K1)), Mul("-50", opt(e, K2, FALSE)))))
       \cup Law("no model no value", u.what \in {"option", "strategy"},
                \A i \in I : IsZero(F(bare, "l", i)) /\ (u.what = "strategy" => IsZero(F(g, "p", i))))
       \cup Law("expiry is payment date less offsets", u.what = "option" /\ u.off = "no", \A i \in I : Eq(ex(i), l.x[i]))
=============================================================================
