------------------------------- MODULE MC_C24 -------------------------------
(* Curves rebuilt from their description and copies of curves. *)
EXTENDS MCBase

D(k) == IF k = "f" THEN <<"1", "2.5", "4">> ELSE <<"738000", "738181", "738700">>
O(k) == IF k = "f" THEN "0.5" ELSE "737950"
Qs(k) == IF k = "f" THEN <<"0.75", "1", "1.75", "2.5", "3", "4", "5.5">> ELSE <<"737990", "738000", "738100", "738181", "738400", "738700", "738900">>
Inner(k) == IF k = "f" THEN <<"1.75", "3", "2.5">> ELSE <<"738100", "738400", "738181">>
\* times of the points of plain curves
Times == <<"0", "0.25", "1.125", "2.75">>
Ten(k) == IF k = "f" THEN "0.5" ELSE IF k = "d" THEN "182" ELSE "6M"
DcName(k) == IF k = "f" THEN "half" ELSE "act360"
Su(k, cls, itp, org, dc) ==
    [k |-> k, name |-> "copy-" \o cls, cls |-> cls, rate |-> cls \in RateCls, itp |-> itp,
     pre |-> <<(IF cls = "Curve" THEN <<>> ELSE [org |-> org, dc |-> dc] @@ (IF cls \in RateCls THEN [ten |-> Ten(k)] ELSE <<>>))
               @@ [op |-> "new", id |-> "c", cls |-> cls, x |-> <<D(k)[2], D(k)[1], D(k)[3]>>, y |-> <<"0.5", "0.75", "0.25">>, itp |-> itp],
               MkC("s", "DateCurve", <<D(k)[1]>>, <<"0.125">>, "none")>>]
Itps == <<"none", "linear", "left", "right", "nearest", "loglinear", "log_linear_scheme", "zero_linear_scheme", "constant">>
Rates == <<"DiscountFactorCurve", "ZeroRateCurve", "ShortRateCurve", "CashRateCurve", "SurvivalProbabilityCurve", "DefaultProbabilityCurve",
           "FlatIntensityCurve", "HazardRateCurve", "MarginalSurvivalProbabilityCurve", "MarginalDefaultProbabilityCurve",
           "InstantaneousVolatilityCurve", "TerminalVolatilityCurve">>
Kinds == <<"f", "d", "b">>
TheSetups ==
    Each(Itps, LAMBDA i : Su("f", "Curve", i, "none", "none"))
    \o FlattenSeq(Cross(Kinds, Itps, LAMBDA k, i : <<Su(k, "DateCurve", i, O(k), DcName(k)), Su(k, "DateCurve", i, "none", "none")>>))
    \o Each(Kinds, LAMBDA k : Su(k, "ForwardCurve", "none", "none", "none"))
    \o FlattenSeq(Cross(Kinds, Rates, LAMBDA k, c : <<Su(k, c, "none", O(k), DcName(k))>> \o (IF c \in FactorCls THEN <<>> ELSE <<Su(k, c, "none", "none", "none")>>)))

TheDepth(u) == IF Thorough THEN 3 ELSE 2
CopyE(cls) == [op |-> "cast", id |-> "q", cls |-> cls, src |-> "c"]
AsPlain(g) == Known(g, "q") /\ g.o["q"].cls = "Curve" /\ g.o["c"].cls # "Curve"
SetE(id, x, v) == [op |-> "set", id |-> id, x |-> x, v |-> v]
TheMoves(u, g, hs) ==
    IF ~Known(g, "q")
    THEN {[op |-> "clone", id |-> "q", src |-> "c"]}
         \cup (IF u.cls = "ForwardCurve" THEN {} ELSE {CopyE("Curve")} \cup (IF u.cls = "Curve" THEN {} ELSE {CopyE("DateCurve"), [via |-> "to_curve"] @@ CopyE("Curve")}))
         \cup (IF u.cls = "Curve" THEN {[op |-> "copyon", id |-> "q", cls |-> "Curve", src |-> "c", x |-> Inner(u.k)]} ELSE {})
         \cup (IF u.cls = "DateCurve" THEN {[op |-> "copyon", id |-> "q", cls |-> t, src |-> "c", x |-> Inner(u.k)] : t \in {"Curve", "DateCurve"}}
                                       \cup {[itp |-> "left", org |-> Qs(u.k)[2], op |-> "copyon", id |-> "q", cls |-> "DateCurve", src |-> "c", x |-> Inner(u.k)]} ELSE {})
         \cup (IF u.cls \in {"ForwardCurve", "Curve"} THEN {}
               ELSE {[itp |-> "left"] @@ CopyE("Curve"), [itp |-> "constant"] @@ CopyE("DateCurve"),
                     [dc |-> "act360", org |-> Qs(u.k)[2]] @@ CopyE("DateCurve")})
    ELSE {SetE("c", D(u.k)[2], "0.375"), SetE("c", Inner(u.k)[1], "0.4375")}
         \cup (IF AsPlain(g) THEN {SetE("q", "0.75", "0.375")} ELSE {SetE("q", D(u.k)[2], "0.3125"), SetE("q", Inner(u.k)[2], "0.4375")})
         \cup (IF u.cls # "Curve" /\ u.cls \notin FactorCls THEN {[op |-> "fix", id |-> "c", x |-> D(u.k)[1], v |-> "0.625"]} ELSE {})
         \cup (IF g.o["q"].cls \in RateCls /\ g.o["q"].spr = "none" THEN {Ask("spread", "q", "s")} ELSE {})
         \cup (IF u.rate /\ g.o["c"].spr = "none" THEN {Ask("spread", "c", "s")} ELSE {})

\* dates where curves are read: factors not at the origin, fixed forwards
TheProbes(u, g) ==
    LET qs == IF u.cls = "ForwardCurve" THEN SubSeq(Qs(u.k), 2, 6) ELSE Qs(u.k)
        basic(id) == <<At1("dom", id, "0")>>
        clone == Known(g, "q") /\ g.o["q"].cls = u.cls
        bare(id) == g.o[id].fix = <<>> /\ g.o[id].spr = "none"
    IN basic("c") \o <<All("calls", "c", qs)>> \o (IF bare("c") THEN <<At1("kw", "c", "0")>> ELSE <<>>)
       \o (IF u.cls = "Curve" THEN <<>> ELSE <<At1("org", "c", "0"), Ask("dcnt", "c", qs[4])>>)
       \o (IF ~Known(g, "q") THEN <<>>
           ELSE basic("q") \o <<All("calls", "q", IF AsPlain(g) THEN Times ELSE qs)>>
                \o (IF (clone \/ g.o["q"].cls = "DateCurve") /\ bare("q") THEN <<At1("kw", "q", "0")>> ELSE <<>>)
                \o (IF g.o["q"].cls = "Curve" THEN <<>> ELSE <<At1("org", "q", "0"), Ask("dcnt", "q", qs[4])>>)
                \o (IF clone /\ u.rate /\ u.k = "b" THEN <<At1("ten", "q", "0")>> ELSE <<>>))

TheLaws(u, g) ==
    LET made == Known(g, "q")
        fresh == made /\ Len(hist') = 1
        clone == fresh /\ hist'[1].op = "clone"
        eq(a, b) == Near(a, b, "1e-25", "1e-25")
        qs == ToSet(Qs(u.k))
        before == [g EXCEPT !.o = [id \in DOMAIN g.o \ {"q"} |-> g.o[id]]]
        others == SelectSeq(hist', LAMBDA e : e.id = "c")
        own == SelectSeq(hist', LAMBDA e : e.id = "q")
        base == RunAll(EmptyHeap(u.k), u.pre)
    IN Law("the same description", clone, [g.o["q"] EXCEPT !.ks = g.o["c"].ks, !.rough = "none"] = g.o["c"])
       \cup Law("the same values", clone, \A x \in qs : Near(V(g, "q", x), V(g, "c", x), "1e-9", "1e-9"))
       \cup Law("the same origin and day count", clone, u.cls = "Curve" \/ (Org(g, "q") = Org(g, "c") /\ g.o["q"].dc = g.o["c"].dc /\ g.o["q"].ten = g.o["c"].ten))
       \cup Law("a clone of a clone", clone, LET h2 == Put(g, "r", CloneOf(g, "q")) IN \A x \in qs : Near(V(h2, "r", x), V(g, "c", x), "1e-9", "1e-9"))
       \cup Law("copies keep the values at the points", fresh /\ hist'[1].op = "cast",
                \A x \in ToSet(g.o["c"].x) : eq(V(g, "q", IF AsPlain(g) THEN TimeOf(u.k, g.o["c"], x) ELSE x), V(g, "c", x)))
       \cup Law("copies on given dates", fresh /\ hist'[1].op = "copyon",
                /\ Len(g.o["q"].x) = Len(Inner(u.k))
                /\ \A x \in ToSet(Inner(u.k)) : eq(V(g, "q", IF AsPlain(g) THEN TimeOf(u.k, g.o["c"], x) ELSE x), V(g, "c", x)))
       \cup Law("what is given is taken", fresh,
                LET e == hist'[1] IN /\ Has(e, "itp") => g.o["q"].itp = e.itp
                                     /\ Has(e, "org") => Org(g, "q") = e.org
                                     /\ Has(e, "dc") => g.o["q"].dc = e.dc)
       \cup Law("the original does not see the copy", made, before.o["c"] = RunAll(base, others).o["c"])
       \cup Law("the copy does not see the original", made, g.o["q"] = RunAll(base, own).o["q"])
=============================================================================
