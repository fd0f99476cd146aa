------------------------------- MODULE MC_C14 -------------------------------
(* Cashflow lists are maps of dates and legs add up. *)
EXTENDS MCBase

D(k) == IF k = "f" THEN <<"0.5", "1", "1.75", "3">> ELSE <<"738031", "738122", "738300", "738700">>
Zeroth(k) == IF k = "f" THEN "0.25" ELSE "737990"
Other(k) == IF k = "f" THEN "2.25" ELSE "738500"
Ten(k) == IF k = "f" THEN "0.5" ELSE IF k = "d" THEN "91" ELSE "3M"
Pick(s, ix) == Tuple([i \in 1..Len(ix) |-> s[ix[i]]])
Fixed(id, cls, x, a, org, scalar) == [op |-> "cfnew", id |-> id, cls |-> cls, x |-> x, a |-> a, org |-> org, scalar |-> scalar]
Su(k, org, box) ==
    LET d == D(k)
        o == IF org = "before" THEN Zeroth(k) ELSE "none"
        vd == Zeroth(k)
    IN [k |-> k, name |-> "legs", d |-> d, org |-> org,
        pre |-> <<[ten |-> Ten(k)] @@ MkC("y", "ZeroRateCurve", <<vd, d[4]>>, <<"0.02", "0.03">>, "none"),
                  [op |-> "mnew", id |-> "m", cls |-> "NormalOptionPayOffModel", vd |-> vd, fwd |-> "0.03", vol |-> "0.01"],
                  [box |-> box] @@ Fixed("a", "FixedCashFlowList", Pick(d, <<1, 3>>), <<"100", "-20">>, o, FALSE),
                  [box |-> box] @@ Fixed("a1", "CashFlowList", Pick(d, <<2, 4>>), <<"7.5">>, "none", TRUE),
                  \* later payment first
                  Fixed("v", "FixedCashFlowList", Pick(d, <<3, 1>>), <<"-3", "9">>, Zeroth(k), FALSE),
                  [op |-> "cfnew", id |-> "b", cls |-> "RateCashFlowList", x |-> Pick(d, <<1, 2, 4>>), a |-> <<"100", "50", "80">>, org |-> o, r |-> "0.02",
                   ref |-> "y"],
                  [op |-> "cfnew", id |-> "c", cls |-> "OptionCashflowList", x |-> Pick(d, <<2, 3>>), a |-> <<"10", "-5">>, ks |-> <<"0.025", "0.035">>,
                   puts |-> <<FALSE, TRUE>>, ref |-> "m", org |-> "none"],
                  [op |-> "cfnew", id |-> "e", cls |-> "ContingentRateCashFlowList", x |-> Pick(d, <<3, 4>>), a |-> <<"100", "100">>, r |-> "0",
                   cap |-> "0.04", flr |-> "0.0125", ref |-> "m", org |-> d[2]],
                  \* refused
                  Fixed("w1", "FixedCashFlowList", d, <<"1", "2">>, o, FALSE), Fixed("w2", "CashFlowList", Pick(d, <<1, 2>>), <<"1", "2", "3">>, o, FALSE)>>]
TheSetups == FlattenSeq(Cross(<<"f", "d", "b">>, <<"none", "before">>, LAMBDA k, org : <<Su(k, org, "list"), Su(k, org, "tuple")>>))

TheDepth(u) == IF Thorough THEN 4 ELSE 3
LegsE(ids) == [op |-> "legs", id |-> "g", ids |-> ids]
CallE(src, ref) == [op |-> "cfcall", id |-> "k", src |-> src, ref |-> ref]
TheMoves(u, g, hs) ==
    ((IF Known(g, "g") THEN {} ELSE {LegsE(<<"a", "b">>), LegsE(<<"b", "c", "a">>), LegsE(<<"a1", "e">>), LegsE(<<"c">>), LegsE(<<"v", "b">>), LegsE(<<"a">>)})
     \cup (IF Known(g, "g") /\ ~Known(g, "n") THEN {[LegsE(<<"a1", "g">>) EXCEPT !.id = "n"]} ELSE {}))
    \cup {[op |-> "setrate", id |-> "b", r |-> "0.05"], [op |-> "setref", id |-> "b", ref |-> "0.01"]}
    \cup (IF Known(g, "k") THEN {} ELSE {CallE("b", "none"), CallE("b", "0.03"), CallE("c", "m"), CallE("a", "none")}
          \cup (IF Known(g, "g") THEN {CallE("g", "none"), CallE("g", "m")} ELSE {})
          \cup (IF Known(g, "n") THEN {CallE("n", "m")} ELSE {}))

Roots(g) == SelectSeq(<<"a", "a1", "v", "b", "c", "e", "g", "k", "n">>, LAMBDA i : Known(g, i))
Near3(u) == <<Zeroth(u.k), u.d[1], u.d[2], u.d[3], u.d[4], Other(u.k)>>
TheProbes(u, g) ==
    LET full(id) == <<At1("cforg", id, "0"), At1("cfdom", id, "0"), All("cfgets", id, DatesOf(g, id)), All("cfgets", id, Near3(u)),
                      [box |-> "tuple"] @@ All("cfgets", id, u.d), At1("cfget", id, u.d[1]), At1("cfget", id, Other(u.k)), At1("cftab", id, "0")>>
        own(id) == Each(u.d, LAMBDA x : At1("payoff", id, x))
        copy(id) == <<[op |-> "cfcopy", id |-> "z", src |-> id, org |-> IF id = "b" THEN "none" ELSE IF u.k = "f" THEN "0" ELSE Zeroth(u.k)], At1("cfdom", "z", "0"), At1("cforg", "z", "0"),
                      All("cfgets", "z", Near3(u)), At1("cftab", "z", "0")>>
    IN FlattenSeq(Each(Roots(g), full)) \o own("a") \o own("b") \o FlattenSeq(Each(Roots(g), copy))

TheLaws(u, g) ==
    LET N == ToSet(Near3(u))
        base == RunAll(EmptyHeap(u.k), u.pre)
        F(hp, id, x) == FlowAt("as", hp, id, x, "own")
        eq(a, b) == Near(a, b, "1e-20", "1e-20")
        calls == {i \in 1..Len(hist') : hist'[i].op = "cfcall"}
        one == CHOOSE i \in calls : TRUE
        then == RunAll(base, SubSeq(hist', 1, one))
    IN Law("flows on dates given", TRUE,
           /\ Eq(F(g, "a", u.d[1]), "100") /\ Eq(F(g, "a", u.d[3]), "-20")
           /\ Eq(F(g, "a1", u.d[2]), "7.5") /\ Eq(F(g, "a1", u.d[4]), "7.5"))
       \cup Law("zero on other dates", TRUE,
                \A id \in ToSet(Roots(g)) : \A x \in N : InSeq(DatesOf(g, id), x) \/ IsZero(F(g, id, x)))
       \cup Law("lists of wrong length are refused", TRUE, ~Known(g, "w1") /\ ~Known(g, "w2"))
       \cup Law("legs add up", Known(g, "g"),
                \A x \in N : eq(F(g, "g", x), RSum(Tuple([i \in 1..Len(g.o["g"].legs) |-> F(g, g.o["g"].legs[i], x)]))))
       \cup Law("legs of legs add up", Known(g, "n"), \A x \in N : eq(F(g, "n", x), Add(F(g, "a1", x), F(g, "g", x))))
       \cup Law("copies keep flows", TRUE,
                \A id \in ToSet(Roots(g)) : LET z == Post(g, [op |-> "cfcopy", id |-> "z", src |-> id, org |-> "none"])
                                             IN /\ \A x \in N : eq(F(z, "z", x), F(g, id, x))
                                                /\ Eq(CfOrigin(z, "z"), CfOrigin(g, id)))
       \cup Law("dates of the legs", Known(g, "g"),
                /\ ToSet(DatesOf(g, "g")) = UNION {ToSet(g.o[i].x) : i \in ToSet(g.o["g"].legs)}
                /\ \A i \in 1..(Len(DatesOf(g, "g")) - 1) : Lt(DatesOf(g, "g")[i], DatesOf(g, "g")[i + 1]))
       \cup Law("earliest origin", Known(g, "g"),
                /\ \A i \in ToSet(g.o["g"].legs) : Le(CfOrigin(g, "g"), CfOrigin(g, i))
                /\ \E i \in ToSet(g.o["g"].legs) : Eq(CfOrigin(g, "g"), CfOrigin(g, i)))
       \cup Law("roll out keeps the flows", Known(g, "k"),
                \A x \in N : eq(F(g, "k", x), FlowAt("as", then, hist'[one].src, x, ProjRef(then, hist'[one].src, hist'[one].ref))))
       \cup Law("roll out keeps the dates", Known(g, "k"),
                DatesOf(g, "k") = DatesOf(then, hist'[one].src) /\ Eq(CfOrigin(g, "k"), CfOrigin(then, hist'[one].src)))
       \cup Law("lists do not share rates", TRUE, \A x \in N : \A id \in {"a", "a1", "c", "e"} : F(g, id, x) = F(base, id, x))
=============================================================================
