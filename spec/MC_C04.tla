------------------------------- MODULE MC_C04 -------------------------------
(* Dated curves: origin, day count, fixings; kinds of dates agree. *)
EXTENDS MCBase

Flt == <<"0.5", "1", "2", "3">>
Day == <<"738031", "738150", "738400", "738765">>
Early(k) == IF k = "f" THEN "0" ELSE "737900"
Late(k) == IF k = "f" THEN "5.5" ELSE "739500"
Su(cls, k, itp, dc, org, order) ==
    LET d == IF k = "f" THEN Flt ELSE Day
        o == CASE org = "early" -> Early(k) [] org = "first" -> d[1] [] org = "mid" -> d[2] [] OTHER -> "none"
        y == IF cls \in RateCls THEN <<"0.01", "0.03", "0.02">> ELSE <<"0.5", "2", "1.25">>
        is == <<1, 2, 4>>
    IN [k |-> k, name |-> cls \o "-" \o itp, d |-> d, cls |-> cls, itp |-> itp,
        pre |-> <<[itp |-> itp, dc |-> dc] @@
                  MkC("c", cls, Tuple([i \in 1..3 |-> d[is[order[i]]]]), Tuple([i \in 1..3 |-> y[order[i]]]), o)>>]
Up == <<1, 2, 3>>
Mix == <<2, 3, 1>>
Dcs(k) == IF k = "f" THEN <<"none", "half">> ELSE <<"none", "act360", "act365">>
Itps == <<"none", "linear", "left", "right", "log_linear_scheme", "zero_linear_scheme">>
Orgs == <<"none", "early", "first", "mid">>
For(k) ==
    FlattenSeq(Tuple([a \in 1..Len(Dcs(k)) |-> FlattenSeq(Tuple([b \in 1..Len(Itps) |-> Tuple([c \in 1..Len(Orgs) |->
        Su("DateCurve", k, Itps[b], Dcs(k)[a], Orgs[c], IF (a + b + c) % 3 = 0 THEN Mix ELSE Up)])]))]))
TheSetups == For("f") \o For("d") \o For("b")
    \o <<Su("DateCurve", "b", "none", "d30360", "early", Up), Su("ForwardCurve", "d", "none", "none", "early", Up),
         Su("ForwardCurve", "b", "none", "act365", "none", Up), Su("ZeroRateCurve", "d", "none", "act360", "none", Up),
         Su("HazardRateCurve", "b", "none", "none", "early", Up)>>

TheDepth(u) == IF Thorough THEN 3 ELSE 2
Fix(x, v) == [op |-> "fix", id |-> "c", x |-> x, v |-> v]
Unfix(x) == [op |-> "unfix", id |-> "c", x |-> x]
TheMoves(u, g, hs) ==
    {Fix(u.d[2], "0.25"), Fix(u.d[3], "-1"), Fix(u.d[3], "0"), Unfix(u.d[2])}
    \cup (IF Thorough THEN {Fix(u.d[2], "0.375"), Unfix(u.d[3])} ELSE {})
Grid(u) == <<Early(u.k)>> \o u.d \o (IF u.cls = "ForwardCurve" THEN <<>> ELSE <<Late(u.k)>>)
Tabled(u, g) == u.cls = "DateCurve" /\ u.itp = "none" /\ u.k # "b" /\ Le(Org(g, "c"), u.d[1]) /\ Eq(g.o["c"].x[1], u.d[1])
Smooth(u) == u.cls = "DateCurve" /\ u.itp \in {"none", "linear"}
TheProbes(u, g) ==
    LET call(x) == At1("call", "c", x)
        dc(x) == Ask("dcnt", "c", x)
        dc2(x, y) == Ask2("dcnt", "c", x, y)
        int(x, y) == Ask2("integ", "c", x, y)
    IN <<At1("org", "c", "0"), At1("dom", "c", "0"), All("calls", "c", Grid(u))>>
       \o Each(Grid(u), call) \o Each(u.d, dc) \o Pairs(<<u.d[1], u.d[3], u.d[4]>>, dc2)
       \o (IF Smooth(u) THEN Pairs(<<u.d[1], u.d[2], u.d[3]>>, int) \o <<int(u.d[3], u.d[1])>> ELSE <<>>)
       \o (IF Tabled(u, g)
           THEN <<[op |-> "table", id |-> "c"],
                  [op |-> "table", id |-> "c", x |-> u.d,
                   y |-> IF u.k = "f" THEN <<"0", "0.25", "0.5", "0.75">> ELSE <<"0", "30", "60", "119", "200">>]>>
           ELSE <<>>)

TheLaws(u, g) ==
    LET c == g.o["c"]
        bare == [g EXCEPT !.o["c"].fix = <<>>]
        t(x) == Dc(g, "c", Org(g, "c"), x)
        other == [g EXCEPT !.k = IF @ = "b" THEN "d" ELSE "b"]
        e == IF hist' = <<>> THEN [op |-> "none"] ELSE hist'[Len(hist')]
        grid == ToSet(Grid(u))
        m(a, b) == Mul(Mean(g, "c", u.d[a], u.d[b]), Dc(g, "c", u.d[a], u.d[b]))
    IN Law("first date is the origin unless given", TRUE, Eq(Org(g, "c"), IF Has(u.pre[1], "org") /\ u.pre[1].org # "none" THEN u.pre[1].org ELSE c.x[1]))
       \cup Law("year fractions add up", c.dc # "d30360",
                \A x, y \in grid : Near(Add(t(x), Dc(g, "c", x, y)), t(y), "1e-20", "0"))
       \cup Law("curve at the year fraction", u.cls # "ForwardCurve",
                \A x \in grid : HasFix(c, x) \/ Eq(V(g, "c", x), Interpolate(ItpOf(c), c.ks, t(x))))
       \cup Law("fixing on its date", c.fix # <<>>, \A p \in ToSet(c.fix) : Eq(V(g, "c", p[1]), p[2]))
       \cup Law("fixing on its date only", c.fix # <<>>, \A x \in grid : HasFix(c, x) \/ Eq(V(g, "c", x), V(bare, "c", x)))
       \cup Law("removed fixing is gone", e.op = "unfix", Eq(V(g, "c", e.x), V(bare, "c", e.x)))
       \cup Law("points stay", hist' # <<>>, c.ks = RunAll(EmptyHeap(u.k), u.pre).o["c"].ks)
       \cup Law("plain dates and business dates agree", u.k # "f", \A x \in grid : Eq(V(g, "c", x), V(other, "c", x)))
       \cup Law("mean values add up", Smooth(u), Near(Add(m(1, 2), m(2, 4)), m(1, 4), "1e-20", "0"))
       \cup Law("mean value of the reversed interval", Smooth(u) /\ c.dc # "d30360",
                Near(Mean(g, "c", u.d[3], u.d[1]), Mean(g, "c", u.d[1], u.d[3]), "1e-20", "0"))
       \cup Law("mean value of a line", Smooth(u),
                Near(Mean(bare, "c", c.x[1], c.x[2]), Div(Add(V(bare, "c", c.x[1]), V(bare, "c", c.x[2])), "2"), "1e-20", "0")
                \/ \E i \in 1..3 : \/ Lt(c.x[1], c.x[i]) /\ Lt(c.x[i], c.x[2])
                                   \/ Lt(c.x[2], c.x[i]) /\ Lt(c.x[i], c.x[1]))
=============================================================================
