------------------------------- MODULE MC_C21 -------------------------------
(***************************************************************************)
(* Valuation leaves everything as it was, also when it fails in the middle.*)
(* A history arms a failure at the n-th evaluation of a curve or model,    *)
(* calls, disarms and calls again.                                         *)
(***************************************************************************)
EXTENDS MCBase

D(k) == CASE k = "f" -> <<"0.5", "1", "2">> [] k = "d" -> <<"738091", "738182", "738364">>
          [] k = "b" -> <<"738090", "738181", "738500">>
O(k) == IF k = "f" THEN "0" ELSE "738000"
Far(k) == IF k = "f" THEN "3" ELSE "739000"
Mid(k) == IF k = "f" THEN "0.75" ELSE "738150"
Ten(k) == IF k = "f" THEN "0.5" ELSE IF k = "d" THEN "91" ELSE "3M"
F(e) == [failing |-> TRUE] @@ e
Early(k) == IF k = "f" THEN "0.25" ELSE "738045"
\* the discount curve may take its origin from its first date and get an earlier date later on
Su(k, dcls, fcls, org) ==
    LET d == D(k)
        o == O(k)
        later == IF org = "none" THEN <<[op |-> "set", id |-> "z", x |-> Early(k), v |-> "0.015"]>> ELSE <<>>
        inst(i) == [op |-> "cfnew", id |-> "i" \o ToString(i), cls |-> "FixedCashFlowList", x |-> SubSeq(d, 1, i),
                    a |-> Tuple([j \in 1..i |-> IF j = i THEN "103" ELSE "3"]), org |-> o]
    IN [k |-> k, name |-> "purity-" \o dcls, d |-> d,
        pre |-> <<F([ten |-> Ten(k)] @@ MkC("z", dcls, <<d[1], d[2], d[3]>>, <<"0.02", "0.03", "0.035">>, org))>> \o later \o <<
                  F([ten |-> Ten(k)] @@ MkC("f", fcls, <<o, Far(k)>>, <<"0.025", "0.03">>, "none")),
                  F([ten |-> Ten(k)] @@ MkC("w", "ZeroRateCurve", <<o, Far(k)>>, <<"0.01", "0.02">>, "none")),
                  MkC("s", "DateCurve", <<o>>, <<"0.005">>, "none"), Ask("spread", "w", "s"),
                  [op |-> "cfnew", id |-> "l", cls |-> "RateCashFlowList", x |-> d, a |-> <<"100">>, scalar |-> TRUE, r |-> "0.04", ref |-> "f", org |-> o],
                  [op |-> "cfnew", id |-> "a", cls |-> "FixedCashFlowList", x |-> d, a |-> <<"5", "5", "105">>, org |-> o],
                  F([op |-> "mnew", id |-> "m", cls |-> "NormalOptionPayOffModel", vd |-> o, fwd |-> "f", vol |-> "0.01"]),
                  [op |-> "cfnew", id |-> "q", cls |-> "OptionCashflowList", x |-> d, a |-> <<"100">>, scalar |-> TRUE, ks |-> <<"0.0311">>,
                   puts |-> <<FALSE>>, ref |-> "m", org |-> o],
                  [op |-> "cfnew", id |-> "e", cls |-> "ContingentRateCashFlowList", x |-> d, a |-> <<"100">>, scalar |-> TRUE, r |-> "0.01",
                   cap |-> "0.0351", flr |-> "0.0151", ref |-> "m", org |-> o],
                  [op |-> "legs", id |-> "g", ids |-> <<"a", "l", "q">>]>> \o Tuple([i \in 1..3 |-> inst(i)])]
TheSetups ==
    FlattenSeq(Cross(<<"f", "d", "b">>, <<"ZeroRateCurve", "CashRateCurve">>, LAMBDA k, c :
        <<Su(k, c, "ZeroRateCurve", O(k)), Su(k, c, "CashRateCurve", O(k))>> \o (IF c = "ZeroRateCurve" THEN <<Su(k, c, c, "none")>> ELSE <<>>)))

Counts == IF Thorough THEN 0..60 ELSE {0, 1, 2, 3, 5, 8, 13, 21, 34}
Acts(u) ==
    LET b(id, dl) == [op |-> "bpv", id |-> id, disc |-> "z", vd |-> "none", del |-> dl]
        k(id, dl) == [op |-> "bucket", id |-> id, disc |-> "z", vd |-> Mid(u.k), del |-> dl, grid |-> <<u.d[1], u.d[2], Far(u.k)>>]
    IN {b("l", <<"z", "f">>), b("g", <<"f">>), b("e", <<"f", "z">>), b("l", <<"z", "w">>), b("l", <<"w", "z">>),
        [op |-> "bucket", id |-> "l", disc |-> "z", vd |-> Mid(u.k), del |-> <<"z">>],
        [op |-> "bucket", id |-> "a", disc |-> "z", vd |-> "none", del |-> <<"z">>],
        k("l", <<"z", "f">>), k("g", <<"z">>), k("a", <<"f", "z", "w">>),
        [op |-> "pv", id |-> "g", disc |-> "z", vd |-> Mid(u.k)], [op |-> "pv", id |-> "e", disc |-> "z", vd |-> "none"],
        [op |-> "fair", id |-> "l", disc |-> "z", vd |-> "none", pv |-> "1", prec |-> "0.001"],
        [op |-> "fair", id |-> "e", disc |-> "z", vd |-> Mid(u.k), pv |-> "50000", prec |-> "0.001"],
        [op |-> "ytm", id |-> "l", vd |-> O(u.k), pv |-> "10", prec |-> "0.001"],
        [op |-> "accr", id |-> "l", vd |-> Mid(u.k)], [op |-> "accr", id |-> "e", vd |-> Mid(u.k)],
        [op |-> "fit", ids |-> <<"i1", "i2", "i3">>, disc |-> "z", vd |-> O(u.k), pv |-> <<"101.5", "103.25", "99">>, prec |-> "0.001"],
        [op |-> "fit", ids |-> <<"i1", "i2", "i3">>, disc |-> "z", vd |-> O(u.k), pv |-> <<"101.5", "1000000", "99">>, prec |-> "0.001"]}

\* arm, call, disarm, call again; thorough goes for a second failure
TheDepth(u) == 4
TheMoves(u, g, hs) ==
    CASE Len(hs) = 0 -> {[op |-> "arm", n |-> n] : n \in Counts}
      [] Armed(g) /\ hs[Len(hs)].op = "arm" -> Acts(u)
      [] Armed(g) -> {[op |-> "disarm"]}
      [] OTHER -> {hs[Len(hs) - 1]}

TheProbes(u, g) ==
    IF Armed(g) THEN <<>>
    ELSE <<Ask("isspread", "z", "none"), Ask("isspread", "f", "none"), Ask("isspread", "w", "s"), At1("kw", "z", "0"), At1("kw", "f", "0"),
           At1("dom", "z", "0"), At1("org", "z", "0"), At1("dom", "f", "0"), At1("org", "f", "0"),
           All("calls", "z", u.d), All("calls", "f", u.d), All("calls", "w", u.d), At1("getrate", "l", "0"), At1("getrate", "e", "0"),
           All("cfgets", "l", u.d), All("cfgets", "e", u.d), All("cfgets", "q", u.d), At1("mvd", "m", "0"), At1("payoff", "l", u.d[2]),
           At1("payoff", "e", u.d[3])>>

TheLaws(u, g) ==
    LET spread(ids) == ParallelAll(g, ids, "0.01")
        none(ids) == FoldLeft(LAMBDA acc, id : SetSpread(acc, id, "none"), spread(ids), ids)
    IN Law("calls leave the objects", TRUE, \A e \in Acts(u) : Post(g, e) = g)
       \cup Law("spreads come off again", TRUE,
                \A ids \in {<<"z">>, <<"z", "f">>} : \A id \in {"z", "f", "w", "l", "m"} : none(ids).o[id] = g.o[id])
       \cup Law("rates come back", TRUE, \A id \in {"l", "e"} : SetRate(SetRate(g.o[id], "0.07"), RateOf(g.o[id])) = g.o[id])
       \cup Law("models come back", TRUE, LET h2 == AsOf(g, "m", Mid(u.k)) IN AsOf(h2, "m", g.o["m"].vd).o["m"] = g.o["m"])
       \cup Law("curve with a spread is refused", TRUE,
                \A e \in Acts(u) : e.op \in {"bpv", "bucket"} => (HasSpread(g, e.del) <=> "w" \in ToSet(e.del)))
=============================================================================
