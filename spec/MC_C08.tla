------------------------------- MODULE MC_C08 -------------------------------
(* Volatilities: variance between dates, mean values. *)
EXTENDS MCBase

Flt == <<"0.25", "0.75", "1.5", "3">>
Day == <<"738031", "738150", "738400", "739000">>
Early(k) == IF k = "f" THEN "0" ELSE "737900"
Before(k) == IF k = "f" THEN "-0.5" ELSE "737800"
Late(k) == IF k = "f" THEN "3.5" ELSE "739200"
Vols == << <<"0.2", "0.21", "0.19", "0.25">>, <<"0.3", "0.3", "0.3", "0.3">>, <<"0.5", "0.2", "0.1", "0.4">>, <<"0.1", "0.2", "0.05", "0.3">> >>
Su(cls, k, itp, dc, org, v, n) ==
    LET d == IF k = "f" THEN Flt ELSE Day
    IN [k |-> k, name |-> cls \o "-" \o itp, d |-> d, cls |-> cls,
        pre |-> <<[itp |-> itp, dc |-> dc] @@
                  MkC("c", cls, SubSeq(d, 1, n), SubSeq(Vols[v], 1, n), IF org = "early" THEN Early(k) ELSE "none")>>]
Dcs(k) == IF k = "f" THEN <<"none">> ELSE <<"none", "act360">>
Orgs == <<"none", "early">>
Of(cls, itp, k, ns) ==
    FlattenSeq(Tuple([a \in 1..4 |-> FlattenSeq(Tuple([b \in 1..Len(Dcs(k)) |-> FlattenSeq(Tuple([c \in 1..2 |->
        Tuple([n \in 1..Len(ns) |-> Su(cls, k, itp, Dcs(k)[b], Orgs[c], a, ns[n])])]))]))]))
Floored(us) == Tuple([i \in 1..Len(us) |-> [us[i] EXCEPT !.pre = <<[floor |-> "0.15"] @@ @[1]>>, !.name = @ \o "-floor"]])
T == "TerminalVolatilityCurve"
I == "InstantaneousVolatilityCurve"
TheSetups ==
    Of(T, "none", "b", <<1, 2, 4>>) \o Of(T, "none", "f", <<1, 4>>) \o Of(T, "none", "d", <<3>>) \o Of(T, "constant", "b", <<3>>)
    \o Floored(Of(T, "none", "b", <<2, 4>>) \o Of(T, "none", "f", <<4>>))
    \o Of(I, "none", "b", <<1, 2, 4>>) \o Of(I, "none", "f", <<1, 4>>) \o Of(I, "none", "d", <<3>>)

TheDepth(u) == IF Thorough THEN 2 ELSE 1
SetE(x, v) == [op |-> "set", id |-> "c", x |-> x, v |-> v]
TheMoves(u, g, hs) == {SetE(u.d[4], "0.28"), SetE(u.d[3], "0.215")}

Froms(u, g) == LET o == Org(g, "c") IN SelectSeq(SortReals(<<o>> \o u.d \o <<Late(u.k)>>), LAMBDA x : Le(o, x))
\* kinks far enough apart for quadrature
Smooth(u, g, x, y) ==
    u.cls = T \/ LET b == SortReals(<<x, y>> \o SelectSeq(g.o["c"].x, LAMBDA z : Lt(x, z) /\ Lt(z, y)))
                 IN Len(b) <= 4 /\ \A i \in 1..(Len(b) - 1) : Le(Div(Sub(y, x), "12"), Sub(b[i + 1], b[i]))
TheProbes(u, g) ==
    LET fr == Froms(u, g)
        o == Org(g, "c")
        call(x) == At1("call", "c", x)
        tv(x) == Ask("tvol", "c", x)
        tv2(x, y) == Ask2("tvol", "c", x, y)
        rev(x, y) == Ask2("tvol", "c", y, x)
        tv1(x) == Ask2("tvol", "c", x, x)
        iv(x) == Ask("ivol", "c", x)
        fine(es) == SelectSeq(es, LAMBDA e : Smooth(u, g, e.s, e.e))
        \* empty periods are looked at with the next day
        day == u.k = "b" \/ u.cls = I
    IN Each(fr, call) \o Each(SelectSeq(fr, LAMBDA x : Smooth(u, g, o, x)), tv) \o fine(Pairs(fr, tv2)) \o Pairs(Tail(fr), rev)
       \o (IF u.cls = T THEN Each(fr, LAMBDA x : Ask2("tvol", "c", Before(u.k), x)) \o (IF u.k = "b" THEN <<Ask("ivol", "c", Before(u.k))>> ELSE <<>>) ELSE <<>>)
       \o (IF day THEN Each(fr, tv1) \o Each(fr, iv) ELSE <<>>)

TheLaws(u, g) ==
    LET c == g.o["c"]
        o == Org(g, "c")
        F == ToSet(Froms(u, g))
        eq(a, b) == Near(a, b, "1e-20", "1e-18")
        t(x, y) == Dc(g, "c", x, y)
        tv(x, y) == TermVol(g, "c", x, y)
        good(x, y) == tv(x, y) # "ZeroDivisionError"
        var(x, y) == Mul(Sq(tv(x, y)), t(x, y))
        sum(x, y) == Mul(tv(x, y), t(x, y))
        free == u.cls = T /\ "floor" \notin DOMAIN c
        flat == \A i \in 1..Len(c.ks) : Eq(c.ks[i][2], c.ks[1][2])
    IN Law("variances add up", free,
           \A x, y, z \in F : Lt(x, y) /\ Lt(y, z) /\ good(x, y) /\ good(y, z) /\ good(x, z) => eq(Add(var(x, y), var(y, z)), var(x, z)))
       \cup Law("decreasing variance is refused", free,
                \A x, y \in F : Lt(o, x) /\ Lt(x, y) => (good(x, y) <=> Le(Mul(t(o, x), Sq(V(g, "c", x))), Mul(t(o, y), Sq(V(g, "c", y))))))
       \cup Law("variance at the floor or as before", u.cls = T /\ ~free,
                \A x, y \in F : Lt(o, x) /\ Lt(x, y) => Le(Mul(Sq(c.floor), "0.999999999"), Sq(tv(x, y)))
                    /\ (eq(tv(x, y), c.floor) \/ eq(Mul(Sq(tv(x, y)), t(x, y)), Sub(Mul(t(o, y), Sq(V(g, "c", y))), Mul(t(o, x), Sq(V(g, "c", x)))))))
       \cup Law("terminal volatility curve", u.cls = T, \A x \in F : eq(TermVol0(g, "c", x), V(g, "c", x)))
       \cup Law("means add up", u.cls = I, \A x, y, z \in F : Lt(x, y) /\ Lt(y, z) => eq(Add(sum(x, y), sum(y, z)), sum(x, z)))
       \cup Law("mean between extremes", u.cls = I,
                \A x, y \in F : Lt(x, y) => LET vs == Tuple([i \in 1..Len(c.ks) |-> c.ks[i][2]])
                                            IN Le(Sub(MinOf(vs), "1e-20"), tv(x, y)) /\ Le(tv(x, y), Add(MaxOf(vs), "1e-20")))
       \cup Law("instantaneous volatility curve", u.cls = I, \A x \in F : eq(InstVol(g, "c", x), V(g, "c", x)) /\ eq(tv(x, x), V(g, "c", x)))
       \cup Law("empty periods are looked at with the next day", u.cls = T /\ u.k = "b",
                \A x \in F : Lt(o, x) => LET a == tv(x, x) b == tv(x, NextDay(g, x)) IN a = b)
       \cup Law("reversed periods have no volatility", TRUE, \A x, y \in F : Lt(o, x) /\ Lt(x, y) => IsZero(tv(y, x)))
       \cup Law("flat volatility is flat", flat, \A x, y \in F : Lt(x, y) => eq(tv(x, y), c.ks[1][2]))
=============================================================================
