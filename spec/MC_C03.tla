------------------------------- MODULE MC_C03 -------------------------------
(* Curve arithmetic and shifts: pointwise, operands stay as they are. *)
EXTENDS MCBase

Flt == <<"0", "0.5", "1.25", "2", "3">>
Day == <<"738000", "738031", "738200", "738400", "738900">>
Su(cls, k, itp, dc, d, ia, ya, ib, yb) ==
    LET org == IF cls = "Curve" THEN "none" ELSE d[1]
        at(is) == Tuple([i \in 1..Len(is) |-> d[is[i]]])
        crv(id, is, ys, o) == [itp |-> itp, dc |-> dc] @@ MkC(id, cls, at(is), ys, o)
    IN [k |-> k, name |-> cls \o "-" \o itp, d |-> d, cls |-> cls,
        pos |-> itp \in {"loglinear", "log_linear_scheme"} \/ cls = "ForwardCurve",
        \* quotients of rates make sense for some classes only
        rate |-> cls \in RateCls,
        pre |-> <<crv("a", ia, ya, org), crv("b", ib, yb, IF cls = "Curve" THEN "none" ELSE IF ib[1] = 1 THEN "none" ELSE d[1])>>]
I1 == <<1, 3, 4>>
I2 == <<2, 3, 5>>
I3 == <<1>>
I4 == <<1, 2, 5>>
Y1 == <<"1.5", "-0.5", "2">>
Y2 == <<"0.5", "-1", "0.25">>
\* tiny yet no zero
Y2t == <<"0.0000000003", "0.0000000002", "0.0000000007">>
Y2z == <<"0.5", "0", "0.25">>
P1 == <<"1.5", "0.5", "2">>
P2 == <<"0.5", "1.25", "0.25">>
R1 == <<"0.03", "0.05", "0.04">>
R2 == <<"0.02", "0.025", "0.01">>
S1 == <<"0.97", "0.9", "0.8">>
S2 == <<"0.99", "0.85", "0.75">>
D1 == <<"0.03", "0.1", "0.2">>
D2 == <<"0.01", "0.15", "0.25">>
\* rates of another tenor than by default
Ten(u, t) == [u EXCEPT !.pre[1] = [ten |-> t] @@ @, !.pre[2] = [ten |-> t] @@ @]
\* operands of different interpolation and day count
Mix(cls, k, d, ia, ya, ita, dca, ib, yb, itb, dcb) ==
    LET u == Su(cls, k, ita, dca, d, ia, ya, ib, yb)
    IN [u EXCEPT !.pre[2] = [itp |-> itb, dc |-> dcb] @@ @]
TheSetups == <<
    Mix("Curve", "f", Flt, I1, Y1, "none", "none", I2, Y2, "left", "none"),
    Mix("Curve", "f", Flt, I1, Y1, "linear", "none", I4, Y2, "none", "none"),
    Mix("DateCurve", "d", Day, I1, Y1, "none", "none", I2, Y2, "left", "act360"),
    Mix("DateCurve", "b", Day, I2, Y1, "right", "act360", I4, Y2, "none", "none"),
    Mix("ZeroRateCurve", "b", Day, I1, R1, "none", "none", I2, R2, "none", "act365"),
    Su("Curve", "f", "none", "none", Flt, I1, Y1, I2, Y2),
    Su("Curve", "f", "left", "none", Flt, I1, Y1, I2, Y2z),
    Su("Curve", "f", "none", "none", Flt, I1, Y1, I4, Y2t),
    Su("DateCurve", "b", "none", "act365", Day, I1, Y1, I2, Y2t),
    Su("Curve", "f", "loglinear", "none", Flt, I1, P1, I4, P2),
    Su("DateCurve", "f", "linear", "half", Flt, I2, Y1, I4, Y2),
    Su("DateCurve", "d", "none", "act360", Day, I1, Y1, I2, Y2),
    Su("DateCurve", "b", "right", "none", Day, I2, Y1, I2, Y2z),
    Su("DateCurve", "b", "log_linear_scheme", "act365", Day, I1, P1, I4, P2),
    Su("ForwardCurve", "d", "none", "none", Day, I1, P1, I4, P2),
    Su("ZeroRateCurve", "b", "none", "act365", Day, I1, R1, I2, R2),
    Su("ZeroRateCurve", "f", "none", "none", Flt, I1, R1, I3, <<"0.02">>),
    Su("FlatIntensityCurve", "b", "none", "none", Day, I1, R1, I2, R2),
    Ten(Su("ZeroRateCurve", "b", "none", "none", Day, I1, R1, I4, R2), "6M"),
    Su("SurvivalProbabilityCurve", "b", "none", "act365", Day, I1, S1, I2, S2),
    Su("DefaultProbabilityCurve", "b", "none", "none", Day, I1, D1, I4, D2),
    Ten(Su("MarginalDefaultProbabilityCurve", "b", "none", "none", Day, I1, D1, I2, D2), "1Y"),
    Su("ShortRateCurve", "b", "none", "none", Day, I1, R1, I4, R2),
    Su("HazardRateCurve", "b", "none", "act360", Day, I4, R1, I1, R2),
    Su("TerminalVolatilityCurve", "b", "none", "none", Day, I1, <<"0.1", "0.2", "0.25">>, I2, <<"0.2", "0.21", "0.22">>) >>

TheDepth(u) == IF Thorough THEN 3 ELSE 2
Ar(id, a, b, fn) == [op |-> "arith", id |-> id, a |-> a, b |-> b, fn |-> fn]
\* of probabilities the product (of independent events)
Fns(u) == IF u.cls \in ProbCls THEN {"mul"} ELSE {"add", "mul", "div"} \cup (IF u.pos \/ u.cls = "TerminalVolatilityCurve" THEN {} ELSE {"sub"})
R(n) == "r" \o ToString(n)
\* a third curve shares origin with the results
TheMoves(u, g, hs) ==
    LET n == Len(hs) + 1
        r == IF R(n - 1) \in DOMAIN g.o THEN R(n - 1) ELSE "a"
        \* sums of a common origin
        same(e) == e.op # "arith" \/ u.cls = "Curve" \/ Eq(Org(g, e.a), Org(g, e.b))
    IN {e \in
       {Ar(R(n), "a", "b", fn) : fn \in Fns(u)}
       \cup {Ar(R(n), "b", "a", fn) : fn \in ({"add", "sub"} \cap Fns(u)) \cup ({"mul"} \cap (IF u.cls \in ProbCls THEN Fns(u) ELSE {}))}
       \cup {Ar(R(n), r, "b", fn) : fn \in {"mul"} \cup (Fns(u) \cap {"sub"})}
       \cup {Ar(R(n), r, r, fn) : fn \in IF u.cls \in ProbCls THEN {"mul"} ELSE {"add"}}
       \cup {[op |-> "set", id |-> "a", x |-> u.d[3], v |-> "0.75"]}
       \cup {[op |-> "shift", id |-> R(n), src |-> r, by |-> IF u.k = "b" THEN "1M" ELSE IF u.k = "d" THEN "30" ELSE "-0.5"]}
       : same(e)}
Ids(g) == SelectSeq(<<"a", "b", "r1", "r2", "r3">>, LAMBDA i : i \in DOMAIN g.o)
TheProbes(u, g) ==
    LET of(id) == <<At1("dom", id, "0"), All("calls", id, IF u.cls = "ForwardCurve" THEN g.o[id].x ELSE g.o[id].x \o <<u.d[2], u.d[4]>>), At1("kw", id, "0")>>
                  \o (IF u.cls = "Curve" THEN <<>> ELSE <<At1("org", id, "0"), Ask("dcnt", id, u.d[5])>>)
    IN FlattenSeq(Each(Ids(g), of))

TheLaws(u, g) ==
    LET e == IF hist' = <<>> THEN [op |-> "none"] ELSE hist'[Len(hist')]
        ar == e.op = "arith" /\ e.id \in DOMAIN g.o
        sh == e.op = "shift"
        c == IF ar \/ sh THEN g.o[e.id] ELSE g.o["a"]
        l == IF ar THEN g.o[e.a] ELSE IF sh THEN g.o[e.src] ELSE c
        both == IF ar THEN SortReals(l.x \o g.o[e.b].x) ELSE <<>>
        own == e.op \in {"arith", "shift"}
        cast == u.rate
        undo == Len(hist') >= 2 /\ hist'[1] = Ar("r1", "a", "b", "add") /\ hist'[2] = Ar("r2", "r1", "b", "sub")
                /\ \A i \in 1..Len(hist') : hist'[i].op # "set"
    IN Law("dates of both", ar /\ ~cast, \A x \in ToSet(c.x \o both) : InSeq(c.x, x) /\ InSeq(both, x))
       \cup Law("at least the dates of both", ar /\ cast, \A x \in ToSet(both) : InSeq(c.x, x))
       \cup Law("pointwise", ar, \A x \in ToSet(both) : Close(V(g, e.id, x), Calc(e.fn, V(g, e.a, x), V(g, e.b, x))))
       \cup Law("left operand decides", ar, c.cls = l.cls /\ c.dc = l.dc /\ (u.cls = "Curve" \/ Eq(OrgOf(c), OrgOf(l))) /\ (cast \/ c.itp = l.itp))
       \cup Law("sum commutes", ar /\ e.fn = "add" /\ ~cast,
                LET h2 == Put(g, "t", ArithOf(g, e.b, e.a, "add")) IN \A x \in ToSet(both) : Close(V(h2, "t", x), V(g, e.id, x)))
       \cup Law("subtraction undoes addition", undo /\ "r2" \in DOMAIN g.o, \A x \in ToSet(g.o["a"].x) : Near(V(g, "r2", x), V(g, "a", x), "1e-20", "0"))
       \cup Law("operands are left alone", own /\ Len(hist') = 1,
                LET h0 == RunAll(EmptyHeap(u.k), u.pre) IN g.o["a"] = h0.o["a"] /\ g.o["b"] = h0.o["b"])
       \cup Law("quotient by zero is refused", e.op = "arith" /\ ~ar, e.fn = "div" /\ \E x \in ToSet(g.o[e.a].x \o g.o[e.b].x) : IsZero(V(g, e.b, x)))
       \cup Law("shift keeps values", sh, Len(c.x) = Len(l.x) /\ \A i \in 1..Len(l.x) : Close(V(g, e.id, c.x[i]), V(g, e.src, l.x[i])))
       \cup Law("shift moves dates and origin", sh,
                LET mv(x) == Plus(u.k, x, e.by)
                IN (\A i \in 1..Len(l.x) : Eq(c.x[i], mv(l.x[i]))) /\ (u.cls = "Curve" \/ Eq(OrgOf(c), mv(OrgOf(l)))))
=============================================================================
