------------------------------- MODULE MC_C19 -------------------------------
(* Basis point values and bucketed deltas. *)
EXTENDS MCBase

D(k) == CASE k = "f" -> <<"0.5", "1", "1.5", "2">> [] k = "d" -> <<"738091", "738182", "738273", "738364">>
          [] k = "b" -> <<"738090", "738181", "738276", "738500">>
O(k) == IF k = "f" THEN "0" ELSE "738000"
Far(k) == IF k = "f" THEN "3" ELSE "739000"
Farther(k) == IF k = "f" THEN "4" ELSE "739500"
Mid(k) == IF k = "f" THEN "1.25" ELSE "738200"
Ten(k) == IF k = "f" THEN "0.5" ELSE IF k = "d" THEN "91" ELSE "3M"
Su(k, dcls, fcls) ==
    LET d == D(k)
        o == O(k)
        rt(id, r, ref) == [op |-> "cfnew", id |-> id, cls |-> "RateCashFlowList", x |-> d, a |-> <<"100">>, scalar |-> TRUE, r |-> r, ref |-> ref, org |-> o]
        fx(id, a) == [op |-> "cfnew", id |-> id, cls |-> "FixedCashFlowList", x |-> d, a |-> a, org |-> o]
    IN [k |-> k, name |-> "sens-" \o dcls, d |-> d, dcls |-> dcls, fcls |-> fcls,
        pre |-> <<[ten |-> Ten(k)] @@ MkC("z", dcls, <<o, d[2], d[4]>>, <<"0.02", "0.03", "0.035">>, "none"),
                  [ten |-> Ten(k)] @@ MkC("f", fcls, <<o, d[3], Far(k)>>, <<"0.025", "0.02", "0.03">>, "none"),
                  MkC("s", "DateCurve", <<o>>, <<"0.005">>, "none"),
                  fx("a", <<"100", "-30", "20", "50">>), fx("a2", <<"200", "-60", "40", "100">>), fx("p", <<"5", "5", "5", "105">>),
                  rt("r", "0.04", "none"), rt("t", "0.001", "f"), rt("u", "0", "z"),
                  [op |-> "mnew", id |-> "m", cls |-> "NormalOptionPayOffModel", vd |-> o, fwd |-> "f", vol |-> "0.01"],
                  [op |-> "cfnew", id |-> "e", cls |-> "ContingentRateCashFlowList", x |-> d, a |-> <<"100">>, scalar |-> TRUE, r |-> "0.01",
                   cap |-> "0.0351", flr |-> "0.0151", ref |-> "m", org |-> o],
                  [op |-> "legs", id |-> "g", ids |-> <<"p", "t">>]>>]
Steps(u) == u.dcls = "ShortRateCurve"
TheSetups ==
    FlattenSeq(Cross(<<"f", "d", "b">>, <<"ZeroRateCurve", "CashRateCurve">>, LAMBDA k, c :
        <<Su(k, c, "ZeroRateCurve"), Su(k, c, "CashRateCurve")>>)) \o <<Su("b", "ShortRateCurve", "ZeroRateCurve")>>

TheDepth(u) == IF Steps(u) THEN 1 ELSE IF Thorough THEN 2 ELSE 1
TheMoves(u, g, hs) ==
    {[op |-> "set", id |-> "z", x |-> u.d[2], v |-> "0.045"], [op |-> "set", id |-> "f", x |-> u.d[1], v |-> "0.01"],
     [op |-> "setrate", id |-> "t", r |-> "0.015"]}
    \cup (IF g.o["z"].spr # "none" \/ g.o["f"].spr # "none" THEN {}
          ELSE {[op |-> "spread", id |-> "z", s |-> "s"], [op |-> "spread", id |-> "f", s |-> "s"]})

Ids(u) == IF Steps(u) THEN <<"p", "t">> ELSE <<"a", "p", "r", "t", "u", "g">>
Vds(u) == <<"none", Mid(u.k)>>
Dels == <<<<"z">>, <<"f">>, <<"z", "f">>, <<"f", "z">>>>
Grids(u) == <<<<u.d[2]>>, <<u.d[1], u.d[4]>>, <<u.d[1], u.d[2], Mid(u.k), Far(u.k)>>>>
TheProbes(u, g) ==
    LET b(id, vd) == [op |-> "bpv", id |-> id, disc |-> "z", vd |-> vd]
        full(id) == FlattenSeq(Cross(Vds(u), Dels, LAMBDA vd, dl : <<[del |-> dl] @@ b(id, vd)>>))
        few(id) == <<b(id, "none"), [shift |-> "0.01"] @@ b(id, O(u.k)), [shift |-> "-0.0001", del |-> <<"f">>, dlist |-> TRUE] @@ b(id, "none"),
                     b(id, u.d[4]), b(id, Far(u.k))>>
        k(id, gr, dl) == [op |-> "bucket", id |-> id, disc |-> "z", vd |-> "none", grid |-> gr, del |-> dl]
        own(id) == [op |-> "bucket", id |-> id, disc |-> "z", vd |-> Mid(u.k)]
        buckets(id) == FlattenSeq(Cross(Grids(u), Dels, LAMBDA gr, dl : <<k(id, gr, dl)>>))
        left == <<Ask("isspread", "z", g.o["z"].spr), Ask("isspread", "f", g.o["f"].spr)>>
    IN FlattenSeq(Each(Ids(u), LAMBDA id : full(id) \o few(id))) \o left
       \o (IF Steps(u) THEN <<>> ELSE buckets("t") \o buckets("g") \o <<own("p"), own("e"), own("u"), [shift |-> "0.001"] @@ own("t")>> \o <<b("e", "none"), b("e", Mid(u.k))>>)
       \o left \o <<[op |-> "pv", id |-> "g", disc |-> "z", vd |-> "none"]>>

TheLaws(u, g) ==
    LET s == "0.0001"
        bpv(id, vd, dl) == Bpv(g, id, "z", vd, dl, s)
        W == {O(u.k), Mid(u.k)}
        DL == ToSet(Dels)
        free == g.o["z"].spr = "none" /\ g.o["f"].spr = "none"
        zero == free /\ u.dcls = "ZeroRateCurve" /\ u.fcls = "ZeroRateCurve"
        eq(a, b) == Near(a, b, "1e-18", "1e-18")
        near(a, b) == Near(a, b, "1e-5", "1e-3")
        sens == free /\ ~Steps(u)
    IN Law("triangles add up to the parallel shift", sens,
           \A gr \in ToSet(Grids(u)), dl \in DL, id \in {"t", "g"} : near(RSum(Buckets(g, id, "z", O(u.k), dl, gr, s)), bpv(id, O(u.k), dl)))
       \cup Law("linear in amounts", sens, \A vd \in W, dl \in DL : eq(bpv("a2", vd, dl), Mul("2", bpv("a", vd, dl))))
       \cup Law("additive over legs", sens, \A vd \in W, dl \in DL : eq(bpv("g", vd, dl), Add(bpv("p", vd, dl), bpv("t", vd, dl))))
       \cup Law("curves one by one", sens, \A vd \in W, id \in {"t", "g"} : near(bpv(id, vd, <<"z", "f">>), Add(bpv(id, vd, <<"z">>), bpv(id, vd, <<"f">>))))
       \cup Law("in any order", sens, \A vd \in W, id \in {"t", "g"} : eq(bpv(id, vd, <<"z", "f">>), bpv(id, vd, <<"f", "z">>)))
       \cup Law("other curves do not matter", sens, \A vd \in W, id \in {"a", "p", "r"} : IsZero(bpv(id, vd, <<"f">>)))
       \cup Law("higher rates lower the value of payments", sens, \A vd \in W : Lt(bpv("p", vd, <<"z">>), Zero))
       \cup Law("higher forwards raise floating interest", sens, \A vd \in W : Pos(bpv("t", vd, <<"f">>)))
       \cup Law("one grid date", sens, \A dl \in DL : eq(Buckets(g, "g", "z", O(u.k), dl, <<u.d[2]>>, s)[1], bpv("g", O(u.k), dl)))
       \cup Law("no bucket beyond all payments", sens,
                IsZero(Buckets(g, "p", "z", O(u.k), <<"z">>, <<u.d[1], Far(u.k), Farther(u.k)>>, s)[3]))
       \cup Law("duration", zero,
                \* first order: - time * factor * amount
                \A vd \in {O(u.k)} : near(bpv("p", vd, <<"z">>),
                    Mul("-0.0001", RSum(Tuple([i \in 1..4 |-> Mul(Mul(Dc(g, "z", vd, u.d[i]), CF(g, "z", vd, u.d[i])), IF i = 4 THEN "105" ELSE "5")])))))
       \cup Law("insensitive par floater", zero /\ u.k # "b",
                \* interest on the discount curve: notional against the last factor
                near(bpv("u", O(u.k), <<"z">>), Mul("-100", Mul("0.0001", Neg(Mul(Dc(g, "z", O(u.k), u.d[4]), CF(g, "z", O(u.k), u.d[4])))))))
=============================================================================
