------------------------------- MODULE MC_C18 -------------------------------
(* Yields, rates and curves solved for reproduce the value given. *)
EXTENDS MCBase

D(k) == CASE k = "f" -> <<"0.5", "1", "1.5", "2">> [] k = "d" -> <<"738091", "738182", "738273", "738364">>
          [] k = "b" -> <<"738090", "738181", "738276", "738500">>
O(k) == IF k = "f" THEN "0" ELSE "738000"
Mid(k) == IF k = "f" THEN "1.25" ELSE "738200"
Ten(k) == IF k = "f" THEN "0.5" ELSE IF k = "d" THEN "91" ELSE "3M"
\* present values as doubles hold them
Round(v) == Div(Real(ToInt(Add(Mul(v, "1048576"), "0.5"))), "1048576")
Bounds == <<"-0.1", "0.2">>
Yields == <<"-0.02", "0", "0.035", "0.11">>
Precs == <<"none", "1e-10", "0.001", "1e-16">>
Disc(k, cls) == [ten |-> Ten(k)] @@ MkC("z", cls, <<O(k), D(k)[2], D(k)[4]>>, IF cls = "DiscountFactorCurve" THEN <<"1", "0.97", "0.92">> ELSE <<"0.02", "0.03", "0.035">>, "none")
Fixed(id, x, a, o) == [op |-> "cfnew", id |-> id, cls |-> "FixedCashFlowList", x |-> x, a |-> a, org |-> o]
Ytm(k, n, org) ==
    LET d == SubSeq(D(k), 1, n)
        a == Tuple([i \in 1..n |-> IF i = n THEN "103" ELSE "3"])
    IN [k |-> k, name |-> "ytm", typ |-> "ytm", d |-> d, n |-> n,
        pre |-> <<Fixed("l", (IF org = "spot" THEN <<O(k)>> ELSE <<>>) \o d, (IF org = "spot" THEN <<"-100">> ELSE <<>>) \o a, IF org = "spot" THEN "none" ELSE O(k))>>]
Fair(k, cls, ref) ==
    [k |-> k, name |-> "fair-" \o cls, typ |-> "fair", d |-> D(k), n |-> 4,
     pre |-> <<Disc(k, cls), [op |-> "mnew", id |-> "m", cls |-> "NormalOptionPayOffModel", vd |-> O(k), fwd |-> "0.03", vol |-> "0.01"],
               IF ref = "m" THEN [op |-> "cfnew", id |-> "l", cls |-> "ContingentRateCashFlowList", x |-> D(k), a |-> <<"100">>, scalar |-> TRUE,
                                  r |-> "0.01", cap |-> "0.0351", flr |-> "0.0251", ref |-> "m", org |-> O(k)]
               ELSE [op |-> "cfnew", id |-> "l", cls |-> "RateCashFlowList", x |-> D(k), a |-> <<"100">>, scalar |-> TRUE, r |-> "0.01", ref |-> ref, org |-> O(k)]>>]
Fit(k, cls, n, what) ==
    LET d == SubSeq(D(k), 1, n)
        z == MkC("z", cls, d, SubSeq(<<"0.02", "0.03", "0.035", "0.025">>, 1, n), O(k))
        a(i) == IF what = "zero" \/ i = 1 THEN Fixed("i" \o ToString(i), <<d[i]>>, <<"100">>, O(k))
                ELSE Fixed("i" \o ToString(i), SubSeq(d, 1, i), Tuple([j \in 1..i |-> IF j = i THEN "102.5" ELSE "2.5"]), O(k))
    IN [k |-> k, name |-> "fit-" \o what, typ |-> "fit", d |-> d, n |-> n, what |-> what,
        pre |-> <<z>> \o Tuple([i \in 1..n |-> a(i)])]
Kinds == <<"f", "d", "b">>
TheSetups ==
    FlattenSeq(Cross(Kinds, <<1, 2, 4>>, LAMBDA k, n : <<Ytm(k, n, "spot"), Ytm(k, n, "given")>>))
    \o FlattenSeq(Cross(Kinds, <<"DiscountFactorCurve", "ZeroRateCurve", "CashRateCurve">>, LAMBDA k, c : <<Fair(k, c, "none"), Fair(k, c, "z"), Fair(k, c, "m")>>))
    \o FlattenSeq(Cross(Kinds, <<1, 2, 3, 4>>, LAMBDA k, n : <<Fit(k, "ZeroRateCurve", n, "zero"), Fit(k, "ZeroRateCurve", n, "bond")>>))

TheDepth(u) == IF u.typ = "ytm" THEN 0 ELSE IF Thorough THEN 2 ELSE 1
TheMoves(u, g, hs) ==
    IF u.typ = "fair" THEN {[op |-> "setrate", id |-> "l", r |-> "0.05"], [op |-> "set", id |-> "z", x |-> u.d[4], v |-> IF g.o["z"].cls = "DiscountFactorCurve" THEN "0.88" ELSE "0.06"]}
    ELSE {[op |-> "set", id |-> "z", x |-> u.d[u.n], v |-> "0.01"], [op |-> "set", id |-> "z", x |-> u.d[1], v |-> "0.04"]}

YieldPv(u, g, y) == Round(PvAtYield(g, "l", O(u.k), y))
RatePv(u, g, vd, r) == Round(PvAtRate(g, "l", "z", vd, r))
\* zero rates of the instruments to fit
Zeros == <<"0.015", "0.025", "0.04", "0.03">>
Aim(u, g) == [g EXCEPT !.o["z"] = New(u.k, "ZeroRateCurve", u.d, SubSeq(Zeros, 1, u.n), "none", O(u.k), "none", "none")]
Pvs(u, g) == Tuple([i \in 1..u.n |-> Round(PV("as", Aim(u, g), "i" \o ToString(i), "z", O(u.k)))])
Insts(u) == Tuple([i \in 1..u.n |-> "i" \o ToString(i)])
With(f, v, e) == IF v = "none" THEN e ELSE (f :> v) @@ e
TheProbes(u, g) ==
    CASE u.typ = "ytm" ->
            LET q(y, p) == <<With("prec", p, [op |-> "ytm", id |-> "l", vd |-> O(u.k), pv |-> YieldPv(u, g, y)])>>
                own(y) == [op |-> "ytm", id |-> "l", vd |-> "none", pv |-> YieldPv(u, g, y), bounds |-> <<"-0.03", "0.12">>]
                few(y) == [op |-> "ytm", id |-> "l", vd |-> O(u.k), pv |-> YieldPv(u, g, y), bounds |-> <<"0.01", "0.05">>]
            IN FlattenSeq(Cross(Yields, Precs, q)) \o Each(Yields, own) \o Each(Yields, few)
               \o <<[op |-> "ytm", id |-> "l", vd |-> O(u.k), pv |-> "100000"], All("cfgets", "l", u.d)>>
      [] u.typ = "fair" ->
            LET q(y, p) == <<With("prec", p, [op |-> "fair", id |-> "l", disc |-> "z", vd |-> "none", pv |-> RatePv(u, g, O(u.k), y)]), At1("getrate", "l", "0")>>
                mid(y) == [op |-> "fair", id |-> "l", disc |-> "z", vd |-> Mid(u.k), pv |-> RatePv(u, g, Mid(u.k), y), bounds |-> <<"0.01", "0.05">>]
            IN FlattenSeq(Cross(Yields, Precs, q)) \o Each(Yields, mid)
               \o <<[op |-> "fair", id |-> "l", disc |-> "z", vd |-> "none", pv |-> "100000"], At1("getrate", "l", "0"), All("cfgets", "l", u.d),
                    [op |-> "pv", id |-> "l", disc |-> "z", vd |-> "none"]>>
      [] OTHER ->
            LET q(p) == With("prec", p, [op |-> "fit", ids |-> Insts(u), disc |-> "z", vd |-> O(u.k), pv |-> Pvs(u, g)])
            IN Each(Precs, q) \o <<[op |-> "fit", ids |-> Reverse(Insts(u)), disc |-> "z", vd |-> "none", pv |-> Reverse(Pvs(u, g)), fitc |-> "z", grid |-> u.d],
                                   [op |-> "isspread", id |-> "z", s |-> "none"], All("calls", "z", u.d)>>

TheLaws(u, g) ==
    LET eq(a, b) == Near(a, b, "1e-20", "1e-20")
        Y == ToSet(Yields)
    IN Law("value falls with the yield", u.typ = "ytm", \A a, b \in Y : Lt(a, b) => Lt(PvAtYield(g, "l", O(u.k), b), PvAtYield(g, "l", O(u.k), a)))
       \cup Law("yield of a flat curve", u.typ = "ytm",
                \A y \in Y : LET z == Put(g, "y'", New(u.k, "ZeroRateCurve", u.d, Tuple([i \in 1..u.n |-> y]), "none", O(u.k), "none", "none"))
                             IN eq(PvAtYield(g, "l", O(u.k), y), PV("as", z, "l", "y'", O(u.k))))
       \cup Law("value is linear in the rate", u.typ = "fair",
                LET v(r) == PvAtRate(g, "l", "z", O(u.k), r)
                IN \A y \in Y : eq(Sub(v(y), v(Zero)), Mul(Mul(y, "100"), Sub(v("0.01"), v(Zero)))))
       \cup Law("fair rate of a floating leg", u.typ = "fair" /\ g.o["l"].ref = "none" /\ g.o["z"].cls # "CashRateCurve",
                \* swap rate: one minus last factor over annuity
                LET c == Div(Sub(One, CF(g, "z", O(u.k), u.d[4])), Annuity(g, "z", <<O(u.k)>> \o u.d))
                IN eq(PvAtRate(g, "l", "z", O(u.k), c), Mul("100", Sub(One, CF(g, "z", O(u.k), u.d[4])))))
       \cup Law("the curve aimed at reprices", u.typ = "fit",
                \A i \in 1..u.n : Near(PV("as", Aim(u, g), Insts(u)[i], "z", O(u.k)), Pvs(u, g)[i], "1e-6", "0"))
       \cup Law("fit by bootstrapping", u.typ = "fit",
                \* later points do not change earlier instruments
                \A i \in 1..(u.n - 1) :
                    LET h2 == SetPoint(Aim(u, g), "z", u.d[i + 1], "0.09")
                    IN eq(PV("as", h2, Insts(u)[i], "z", O(u.k)), PV("as", Aim(u, g), Insts(u)[i], "z", O(u.k))))
=============================================================================
