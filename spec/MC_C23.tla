------------------------------- MODULE MC_C23 -------------------------------
(* Bonds and swaps from their terms. *)
EXTENDS MCBase

S0(k) == CASE k = "f" -> "0.25" [] k = "d" -> "738000" [] k = "b" -> "738004"
First(k) == IF k = "f" THEN "0" ELSE "737000"
Late(k) == IF k = "f" THEN "12" ELSE "742000"
Ten(k) == IF k = "f" THEN "0.5" ELSE IF k = "d" THEN "91" ELSE "3M"
\* end dates: regular, short first period, a single period, the month's end
Ends(k) == CASE k = "f" -> <<"0.75", "1.25", "2.375", "5.25">>
             [] k = "d" -> <<"738091", "738364", "738500", "738040">>
             [] k = "b" -> <<"738035", "738369", "738490", "738551", "738794", "738020", "738736">>
Periods(k) == CASE k = "f" -> <<"0.5", "1", "2">> [] k = "d" -> <<"91", "182">> [] k = "b" -> <<"1M", "3M", "6M", "1Y">>
Convs(k) == IF k = "b" THEN <<"no", "follow", "previous", "mod_follow", "mod_previous">> ELSE <<"mod_follow">>
Dcs(k) == IF k = "f" THEN <<"none", "half">> ELSE <<"none", "act360">>
Po(k) == IF k = "f" THEN "0.125" ELSE IF k = "d" THEN "2" ELSE "2D"
Coups(k, t, per) == Coupons([k |-> k], t, per)
Redemptions(n) == Tuple([i \in 1..n |-> Real(5 + ((7 * i) % 11))])
Curves0(k) ==
    <<[ten |-> Ten(k)] @@ MkC("y", "ZeroRateCurve", <<First(k), Late(k)>>, <<"0.02", "0.035">>, "none"),
      [ten |-> Ten(k)] @@ MkC("z", "ZeroRateCurve", <<S0(k), Late(k)>>, <<"0.03", "0.01">>, "none")>>
Terms(k, e, per, conv, dc, off) ==
    [id |-> "p", s |-> S0(k), e |-> e, per |-> per, conv |-> conv, dc |-> dc, fo |-> off, po |-> off]
\* amounts of redemption plans are made up with the bond
Bond(k, e, per, conv, dc, off, ref, plan) ==
    [k |-> k, name |-> IF plan THEN "amortizing-bond" ELSE "bond", typ |-> "bond", plan |-> plan, pre |-> Curves0(k),
     t |-> [op |-> "bond", a |-> <<"-80">>, scalar |-> ~plan, r |-> "0.0225", ref |-> ref] @@ Terms(k, e, per, conv, dc, off)]
Swap(k, e, per, conv, dc, off, ref, rper, rdc) ==
    [k |-> k, name |-> "swap", typ |-> "swap", plan |-> FALSE, pre |-> Curves0(k),
     t |-> [op |-> "swap", a |-> <<"100">>, r |-> "0.0225", ref |-> "none", rper |-> rper, rdc |-> rdc, rr |-> "0.001", rref |-> ref]
           @@ Terms(k, e, per, conv, dc, off)]
Refs == <<"none", "0.02", "y">>
\* holidays around the end date and others, ends given as time from the start
Hol(e) == <<Sub(e, One), e, Add(e, One), "738034", "738188", "738368">>
Closed(s, k, e) == IF k = "b" THEN [s EXCEPT !.name = @ \o "-holidays", !.t = [hol |-> Hol(e)] @@ @] ELSE s
Lasting(s, k, ten) == IF k = "b" THEN [s EXCEPT !.name = @ \o "-length", !.t = [len |-> ten] @@ @] ELSE s
All4(k, e, per) ==
    FlattenSeq(Tuple([c \in 1..Len(Convs(k)) |-> FlattenSeq(Tuple([v \in 1..2 |->
        LET conv == Convs(k)[c]
            i == c + v + Len(per)
            off == IF i % 2 = 0 THEN "none" ELSE Po(k)
            swap == Swap(k, e, per, conv, Dcs(k)[v], off, "y", Periods(k)[1 + (i % Len(Periods(k)))], Dcs(k)[3 - v])
            bond == Bond(k, e, per, conv, Dcs(k)[v], "none", "y", v = 2)
        IN <<Bond(k, e, per, conv, Dcs(k)[v], off, Refs[1 + (i % 3)], v = 1),
             IF conv # "no" /\ i % 2 = 0 THEN Closed(bond, k, e) ELSE bond,
             IF i % 3 = 0 THEN Lasting(swap, k, IF v = 1 THEN "1Y" ELSE "18M") ELSE IF i % 3 = 1 /\ conv # "no" THEN Closed(swap, k, e) ELSE swap>>]))]))
Count(u) == Len(Coups(u.k, u.t, u.t.per))
Built1(u) == IF u.plan THEN [u.t EXCEPT !.a = Redemptions(Count(u))] ELSE u.t
Wrong(u) == [u.t EXCEPT !.id = "w", !.a = Redemptions(Count(u) + 1), !.scalar = FALSE]
TheSetups ==
    FlattenSeq(Tuple([q \in 1..3 |-> LET k == <<"f", "d", "b">>[q] IN FlattenSeq(Cross(Ends(k), Periods(k), LAMBDA e, per : All4(k, e, per)))]))

TheDepth(u) == IF Thorough THEN 2 ELSE 1
TheMoves(u, g, hs) ==
    IF hs = <<>> THEN {Built1(u)}
    ELSE {[op |-> "setrate", id |-> "p.1", r |-> "0.05"], [op |-> "set", id |-> "y", x |-> Late(u.k), v |-> "0.06"],
          [op |-> "setref", id |-> "p.1", ref |-> "0.01"]}

TheProbes(u, g) ==
    IF ~Known(g, "p") THEN IF u.typ = "bond" THEN <<Wrong(u)>> ELSE <<>> ELSE
    LET leg(id) == <<At1("cfdom", id, "0"), At1("cforg", id, "0"), At1("cftab", id, "0"), All("cfgets", id, DatesOf(g, id))>>
        ds == DatesOf(g, "p")
        mid == ds[1 + (Len(ds) \div 2)]
    IN leg("p") \o leg("p.0") \o leg("p.1")
       \o <<At1("cfget", "p", u.t.s), At1("cfget", "p", u.t.e), At1("cfget", "p", Late(u.k)), At1("payoff", "p.1", ds[Len(ds)]),
            [op |-> "pv", id |-> "p", disc |-> "z", vd |-> u.t.s], [op |-> "pv", id |-> "p", disc |-> "z", vd |-> mid],
            [op |-> "accr", id |-> "p", vd |-> mid], [op |-> "accr", id |-> "p", vd |-> Add(u.t.s, IF u.k = "f" THEN "0.0078125" ELSE One)],
            [op |-> "cfcall", id |-> "q", src |-> "p", ref |-> "none"], [op |-> "cftab", id |-> "q"]>>

TheLaws(u, g) ==
    IF ~Known(g, "p") THEN {} ELSE
    LET t == Built1(u)
        x == Coups(u.k, t, t.per)
        n == Len(x)
        eq(a, b) == Near(a, b, "1e-25", "1e-25")
        pay(i) == g.o["p.1"].pay[i]
        at(id, d) == FlowAt("as", g, id, d, "own")
        sum(id) == RSum(Tuple([i \in 1..Len(g.o[id].x) |-> at(id, g.o[id].x[i])]))
        left(i) == IF u.plan THEN RSum(SubSeq(t.a, i, n)) ELSE t.a[1]
        same == [t EXCEPT !.id = "p", !.rper = t.per, !.rdc = t.dc, !.rr = t.r, !.rref = t.ref]
    IN Law("dates rise", t.conv = "no" \/ u.k # "b", \A i \in 1..(n - 1) : Lt(x[i], x[i + 1]))
       \cup Law("dates do not fall", TRUE, \A i \in 1..(n - 1) : Le(x[i], x[i + 1]))
       \cup Law("after the start up to the end", u.k # "b" \/ t.conv = "no", Lt(t.s, x[1]) /\ Eq(x[n], EndOf(g, t)))
       \cup Law("whole periods from the end", u.k # "b", \A i \in 1..(n - 1) : Eq(Sub(x[i + 1], x[i]), t.per))
       \cup Law("first period no longer than the others", u.k # "b", Le(Sub(x[1], t.s), t.per))
       \cup Law("same day of month", u.k = "b" /\ t.conv = "no",
                LET dom(i) == Civil(ToInt(x[i]))[3] IN
                \A i \in 1..n : dom(i) = dom(n) \/ (dom(i) < dom(n) /\ Civil(ToInt(x[i]) + 1)[3] = 1))
       \cup Law("business days", u.k = "b" /\ t.conv # "no", \A i \in 1..n : Weekday(ToInt(x[i])) < 5 /\ ~InSeq(Opt(t, "hol", <<>>), x[i]))
       \cup Law("adjusted within the month", u.k = "b" /\ t.conv \in {"mod_follow", "mod_previous"},
                LET raw == Coups(u.k, [t EXCEPT !.conv = "no"], t.per) IN \A i \in 1..n : Civil(ToInt(x[i]))[2] = Civil(ToInt(raw[i]))[2])
       \cup Law("notional comes back", u.typ = "bond", IsZero(sum("p.0")))
       \cup Law("interest on what is outstanding", u.typ = "bond",
                \A i \in 1..n : eq(at("p.1", x[i]), Mul(Mul(left(i), YearFraction(g, pay(i))), Add(pay(i).r, Projected(g, pay(i), g.o["p.1"].ref)))))
       \cup Law("outstanding falls by the redemptions", u.plan, \A i \in 1..(n - 1) : eq(Sub(pay(i).a, pay(i + 1).a), at("p.0", x[i])) \/ ~Eq(x[i], g.o["p.0"].x[i + 1]))
       \cup Law("schedules of both legs", u.typ = "swap",
                /\ g.o["p.0"].x = x /\ g.o["p.1"].x = Coups(u.k, t, t.rper))
       \cup Law("equal legs cancel", u.typ = "swap",
                LET h2 == SwapOf(g, same) IN \A i \in 1..n : IsZero(Add(FlowAt("as", h2, "p.0", x[i], "own"), FlowAt("as", h2, "p.1", x[i], "own"))))
=============================================================================
