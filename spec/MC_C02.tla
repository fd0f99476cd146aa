------------------------------- MODULE MC_C02 -------------------------------
(* Point updates: the curve is the map of points last assigned. *)
EXTENDS MCBase

NewC(cls, x, y, itp, org) == [op |-> "new", id |-> "c", cls |-> cls, x |-> x, y |-> y, itp |-> itp, org |-> org]
Day == <<"738000", "738100", "738200", "738300", "738400">>
Flt == <<"0", "1", "2", "3", "4">>
One3(cls, k, d, itp, org) ==
    [k |-> k, name |-> cls \o "-" \o itp, d |-> d, rate |-> cls \in RateCls,
     pre |-> <<NewC(cls, <<d[2], d[4]>>, <<"0.5", "0.25">>, itp, org)>>
             \o (IF cls \in RateCls
                 THEN <<[op |-> "new", id |-> "p", cls |-> "DateCurve", x |-> <<d[1]>>, y |-> <<"0.125">>, org |-> d[1]]>>
                 ELSE <<>>)]

TheSetups == <<
    One3("Curve", "f", Flt, "linear", "none"),
    One3("Curve", "f", Flt, "loglinear", "none"),
    One3("Curve", "f", Flt, "left", "none"),
    One3("Curve", "f", Flt, "right", "none"),
    One3("Curve", "f", Flt, "nearest", "none"),
    One3("Curve", "f", Flt, "no", "none"),
    One3("Curve", "f", Flt, "zero_linear_scheme", "none"),
    One3("Curve", "f", Flt, "log_linear_rate_scheme", "none"),
    One3("DateCurve", "d", Day, "linear_scheme", "none"),
    One3("DateCurve", "b", Day, "log_linear_scheme", "738050"),
    One3("ForwardCurve", "b", Day, "none", "none"),
    One3("DiscountFactorCurve", "b", Day, "none", "738000"),
    One3("ZeroRateCurve", "f", Flt, "none", "none"),
    One3("CashRateCurve", "d", Day, "none", "none"),
    One3("SurvivalProbabilityCurve", "b", Day, "none", "738000"),
    One3("HazardRateCurve", "d", Day, "none", "none"),
    One3("TerminalVolatilityCurve", "b", Day, "none", "none") >>

TheDepth(u) == IF Thorough THEN 3 ELSE 2
SetE(x, v) == [op |-> "set", id |-> "c", x |-> x, v |-> v]
TheMoves(u, g, hs) ==
    {SetE(x, v) : x \in ToSet(u.d), v \in {"0.75"}}
    \cup {SetE(u.d[3], "-0.5"), SetE(u.d[4], "0.125")}
    \cup (IF u.rate THEN {[op |-> "spread", id |-> "c", s |-> "p"], [op |-> "spread", id |-> "c", s |-> "none"],
                          [op |-> "fix", id |-> "c", x |-> u.d[2], v |-> "0.0625"]}
          ELSE {})
Mid(u) == IF u.k = "f" THEN "1.5" ELSE "738170"
TheProbes(u, g) ==
    <<[op |-> "dom", id |-> "c"], [op |-> "iter", id |-> "c"]>>
    \o Tuple([i \in 1..5 |-> [op |-> "in", id |-> "c", x |-> u.d[i]]])
    \o Tuple([i \in 1..5 |-> [op |-> "get", id |-> "c", x |-> u.d[i]]])
    \o <<[op |-> "call", id |-> "c", x |-> Mid(u)], [op |-> "calls", id |-> "c", xs |-> g.o["c"].x]>>

\* replay of the history on an abstract map of points
Points(g) == LET c == g.o["c"] IN Tuple([i \in 1..Len(c.x) |-> <<TimeOf(g.k, c, c.x[i]), c.x[i]>>])
TheLaws(u, g) ==
    LET c == g.o["c"]
        es == u.pre \o hist'
        ok == SelectSeq(es, LAMBDA e : e.op = "set" /\ e.id = "c" /\ (NeedsPositive(ItpOf(c)) => Pos(e.v)))
        lastOf(x) == LET q == SelectSeq(ok, LAMBDA e : Eq(e.x, x)) IN IF q = <<>> THEN "0" ELSE q[Len(q)].v
        initial(x) == IF Eq(x, u.d[2]) THEN "0.5" ELSE "0.25"
        given(x) == \E i \in 1..Len(ok) : Eq(ok[i].x, x)
        want(x) == IF given(x) THEN lastOf(x) ELSE initial(x)
        plain == ~u.rate \/ (c.spr = "none" /\ c.fix = <<>>)
        xs == ToSet(c.x)
    IN Law("dates are those assigned", TRUE,
           {x \in ToSet(u.d) : InSeq(c.x, x)} = {x \in ToSet(u.d) : Eq(x, u.d[2]) \/ Eq(x, u.d[4]) \/ given(x)})
       \cup Law("one point per date", TRUE, Len(c.x) = Len(c.ks) /\ Cardinality(xs) = Len(c.x))
       \cup Law("points ascend", TRUE, \A i \in 1..(Len(c.ks) - 1) : Lt(c.ks[i][1], c.ks[i + 1][1]))
       \cup Law("value last assigned", plain, \A x \in xs : Close(V(g, "c", x), want(x)))
       \cup Law("spread on top", u.rate /\ c.spr # "none" /\ c.fix = <<>>, \A x \in xs : Close(V(g, "c", x), Add(want(x), "0.125")))
       \cup Law("fixing on top", u.rate /\ c.fix # <<>>,
                Close(V(g, "c", u.d[2]), IF c.spr = "none" THEN "0.0625" ELSE "0.1875"))
=============================================================================
