------------------------------- MODULE MC_C10 -------------------------------
(* Forward curves and currency containers. *)
EXTENDS MCBase

Flt == <<"0.5", "1", "2.5">>
Day == <<"738031", "738150", "738600">>
Late(k) == IF k = "f" THEN <<"3", "4.25", "7.5">> ELSE <<"738700", "739000", "740000">>
Mid(k) == IF k = "f" THEN "1.75" ELSE "738400"
Early(k) == IF k = "f" THEN "0.25" ELSE "737900"
Pre(k) == IF k = "f" THEN "-0.5" ELSE "737900"
Ys == <<"100", "95.5", "104">>
Pick(s, ix) == Tuple([i \in 1..Len(ix) |-> s[ix[i]]])
\* yield: number, none or a curve
Yield(k, w, o) ==
    CASE w = "DiscountFactorCurve" -> <<MkC("y", w, <<o, Late(k)[1], Late(k)[2]>>, <<"1", "0.95", "0.91">>, "none")>>
      [] w = "ForwardCurve" -> <<[yc |-> "0.03"] @@ MkC("y", w, <<o, Late(k)[1]>>, <<"1", "0.9">>, "none")>>
      [] w \in IrCls -> <<[ten |-> IF k = "f" THEN "0.5" ELSE IF k = "d" THEN "91" ELSE "3M"]
                          @@ MkC("y", w, <<o, Late(k)[1], Late(k)[2]>>, <<"0.02", "0.035", "0.03">>, "none")>>
      [] OTHER -> <<>>
Fw(k, ix, org, w) ==
    LET d == IF k = "f" THEN Flt ELSE Day
        x == Pick(d, ix)
        o == CASE org = "early" -> Early(k) [] org = "first" -> MinOf(x) [] OTHER -> "none"
        y == Yield(k, w, IF o = "none" THEN x[1] ELSE o)
    IN [k |-> k, name |-> "forward-" \o w, typ |-> "fwd", x |-> x, w |-> w,
        pre |-> y \o <<(IF y # <<>> THEN [yc |-> "y"] ELSE IF w = "default" THEN <<>> ELSE [yc |-> w]) @@ MkC("f", "ForwardCurve", x, Pick(Ys, ix), o)>>]
Fx(k, base, kinds) ==
    LET o == IF k = "f" THEN "0" ELSE "738000"
        x == <<o, Late(k)[1], Late(k)[2]>>
        c(id, cls, v) == IF cls = "DiscountFactorCurve"
                         THEN MkC(id, cls, x, <<"1", Exp(Neg(Mul(v, "2"))), Exp(Neg(Mul(v, "3")))>>, "none")
                         ELSE MkC(id, cls, x, <<v, Add(v, "0.01"), v>>, "none")
        fx(id, f, v) == [dom |-> "zE", fgn |-> f] @@ MkC(id, "FxForwardCurve", <<IF id = "qE" THEN Pre(k) ELSE o, Late(k)[1]>>, <<v, Add(v, "0.125")>>, "none")
    IN [k |-> k, name |-> "fx-" \o kinds, typ |-> "fx", o |-> o,
        pre |-> <<c("zE", "ZeroRateCurve", "0.01"), c("zU", IF kinds = "zero" THEN "ZeroRateCurve" ELSE "DiscountFactorCurve", "0.03"),
                  c("zG", "ZeroRateCurve", "0.02"), c("yU", "ZeroRateCurve", "0.045"),
                  fx("qU", "zU", "1.25"), fx("qG", "zG", "0.8"), fx("qE", "zG", "0.75"),
                  [op |-> "fxnew", id |-> "x", cur |-> "EUR", dom |-> "zE"]>>]
Ix == <<<<1>>, <<1, 2>>, <<1, 2, 3>>, <<3, 1, 2>>>>
Kinds == <<"f", "d", "b">>
Yields == <<"default", "none", "0.04", "-0.01", "DiscountFactorCurve", "ZeroRateCurve", "CashRateCurve", "ForwardCurve">>
\* dates out of order need an origin not to depend on the first one
OrgsOf(ix) == IF ix = <<3, 1, 2>> THEN <<"early", "first">> ELSE <<"none", "early">>
TheSetups ==
    FlattenSeq(Cross(Kinds, Ix, LAMBDA k, ix : Cross(Yields, OrgsOf(ix), LAMBDA w, org : Fw(k, ix, org, w))))
    \o <<Fw("b", <<1, 2>>, "none", "ShortRateCurve")>>
    \o Cross(Kinds, <<"zero", "factor">>, LAMBDA k, q : Fx(k, "EUR", q))

TheDepth(u) == IF u.typ = "fwd" THEN (IF Thorough THEN 2 ELSE 1) ELSE IF Thorough THEN 4 ELSE 3
SetE(id, x, v) == [op |-> "set", id |-> id, x |-> x, v |-> v]
AddE(c, crv, s) == [op |-> "fxadd", id |-> "x", cur |-> c, crv |-> crv, spot |-> s]
TheMoves(u, g, hs) ==
    IF u.typ = "fwd"
    THEN {SetE("f", u.x[1], "101.5"), SetE("f", Late(u.k)[1], "120")}
         \cup (IF u.w \in {"DiscountFactorCurve", "ZeroRateCurve"} THEN {SetE("y", Late(u.k)[2], "0.9")} ELSE {})
    ELSE {AddE("USD", "zU", "1.25"), AddE("USD", "yU", "1.1"), AddE("GBP", "zG", "0.85"), AddE("JPY", "zU", "130"),
          [op |-> "fxsetcur", id |-> "x", cur |-> "USD", crv |-> "qU"],
          [op |-> "fxsetcur", id |-> "x", cur |-> "GBP", crv |-> "qG"],
          \* quoted from an earlier date on
          [op |-> "fxsetcur", id |-> "x", cur |-> "GBP", crv |-> "qE"]}
         \cup (IF Len(hs) = TheDepth(u) - 1 /\ "USD" \in g.o["x"].curs
               THEN {[op |-> "fxsetpair", id |-> "x", d |-> "EUR", f |-> "USD", crv |-> "qU"]} ELSE {})

Curs(g) == SetToSeq(g.o["x"].curs)
FxDates(u) == <<u.o, Late(u.k)[1], Late(u.k)[2]>>
Vias == <<"get", "item", "row">>
TheProbes(u, g) ==
    IF u.typ = "fwd"
    THEN LET fw(x) == At1("fwd", "f", x)
             ca(x) == At1("call", "f", x)
         IN Each(SortReals(u.x) \o <<Mid(u.k)>>, fw) \o Each(Late(u.k), ca) \o Each(Late(u.k), fw)
            \o <<All("calls", "f", SortReals(u.x) \o Late(u.k))>>
    ELSE LET q(d, f) == Tuple([i \in 1..2 |-> [op |-> "fxfwd", id |-> "x", d |-> d, f |-> f, x |-> FxDates(u)[i * 2 - 1], via |-> Vias[i]]])
                        \o <<[op |-> "fxfwd", id |-> "x", d |-> d, f |-> f, x |-> FxDates(u)[2], via |-> "row"]>>
             row(c) == [op |-> "fxrow", id |-> "x", cur |-> c]
         IN FlattenSeq(Cross(Curs(g), Curs(g), LAMBDA d, f : IF d = f /\ d # "EUR" THEN <<>> ELSE q(d, f))) \o <<row("EUR")>>

TheLaws(u, g) ==
    LET eq(a, b) == Near(a, b, "1e-20", "1e-20")
        lastSpot(c) == LET ix == {i \in 1..Len(hist') : hist'[i].op \in {"fxadd", "fxsetcur"} /\ hist'[i].cur = c}
                           i == CHOOSE i \in ix : \A j \in ix : j <= i
                       IN IF hist'[i].op = "fxadd" THEN hist'[i].spot ELSE V(g, hist'[i].crv, u.o)
    IN IF u.typ = "fwd"
       THEN LET f == g.o["f"]
                last == MaxOf(f.x)
                L == {x \in ToSet(Late(u.k)) : Le(last, x)}
                v(x) == V(g, "f", x)
            IN Law("points up to the last date", TRUE,
                   \A x \in ToSet(f.x) : Eq(v(x), Bare(u.k, f, x)))
               \cup Law("no yield no growth", u.w \in {"default", "none"}, \A x \in L : Eq(v(x), v(last)))
               \cup Law("constant yield", u.w \in {"0.04", "-0.01"},
                        \A x \in L : eq(v(x), Mul(v(last), Exp(Mul(u.w, Dc(g, "f", last, x))))))
               \cup Law("growth by the yield curve", u.w \in IrCls, \A x \in L : eq(Mul(v(x), CF(g, "y", last, x)), v(last)))
               \cup Law("growth goes on", u.w \in IrCls \ {"CashRateCurve"},
                        \A x, y \in L : Lt(x, y) => eq(Div(v(y), v(x)), Div(One, CF(g, "y", x, y))))
       ELSE LET C == g.o["x"].curs
                D == ToSet(FxDates(u))
                v(d, f, x) == V(g, PairId("x", d, f), x)
                odd == \E i \in 1..Len(hist') : hist'[i].op = "fxsetpair"
            IN Law("every pair is quoted", TRUE, \A d, f \in C : d # f => Known(g, PairId("x", d, f)))
               \cup Law("reversed pair is the reciprocal", ~odd, \A d, f \in C : d # f => \A x \in D : eq(Mul(v(d, f, x), v(f, d, x)), One))
               \cup Law("crosses over the base", ~odd,
                        \A d, f \in C \ {"EUR"} : d # f => \A x \in D : eq(v(d, f, x), Mul(v(d, "EUR", x), v("EUR", f, x))))
               \cup Law("latest spot counts", ~odd, \A c \in C \ {"EUR"} : eq(v("EUR", c, u.o), lastSpot(c)))
               \cup Law("covered interest", ~odd /\ Len(hist') > 0 /\ Last(hist').op = "fxadd",
                        LET e == Last(hist') IN \A x \in D :
                            eq(v("EUR", e.cur, x), Div(Mul(e.spot, CF(g, "zE", u.o, x)), CF(g, e.crv, u.o, x))))
               \cup Law("base is one", TRUE, \A x \in D : eq(v("EUR", "EUR", x), One))
               \cup Law("only added currencies", TRUE, C = {"EUR"} \cup {hist'[i].cur : i \in {i \in 1..Len(hist') : hist'[i].op # "fxsetpair"}})
=============================================================================
