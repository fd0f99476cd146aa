------------------------------- MODULE MC_C16 -------------------------------
(* Option prices, parity and sensitivities. *)
EXTENDS MCBase

Vd(k) == IF k = "f" THEN "0" ELSE "738000"
Near1(k) == IF k = "f" THEN "0.25" ELSE "738091"
Mid(k) == IF k = "f" THEN "1.5" ELSE "738500"
Far(k) == IF k = "f" THEN "4" ELSE "739500"
Past(k) == IF k = "f" THEN "-0.25" ELSE "737900"
Ten(k) == IF k = "f" THEN "0.5" ELSE IF k = "d" THEN "91" ELSE "3M"
\* the last two are for models which can do without logarithms
Strikes(lv) == <<Mul(lv, "0.8011"), Mul(lv, "1.0013"), Mul(lv, "1.2017"), Zero, Mul(lv, "-0.25")>>
\* other differences and units than usual
Other(lv, scale) == [dsh |-> Mul(lv, "0.01"), dsc |-> "1", vsh |-> Mul(scale, "0.005"), vsc |-> "0.1", tsh |-> "0.0625", tsc |-> "0.25"]
Su(k, cls, lv, ref, var) ==
    LET inner == CASE cls = "BinaryOptionPayOffModel" -> var [] OTHER -> cls
        norm == inner \in NormalCls \cup IntrinsicCls \cup {"UserOptionPayOffModel"}
        scale == IF norm THEN lv ELSE One
        x == <<Vd(k), Far(k)>>
        y == IF lv = "0.03" THEN <<[ten |-> Ten(k)] @@ MkC("y", "ZeroRateCurve", x, <<"0.03", "0.035">>, "none")>>
             ELSE <<[yc |-> "0.02"] @@ MkC("y", "ForwardCurve", <<Vd(k), Mid(k)>>, <<lv, Mul(lv, "1.0625")>>, "none")>>
        v == IF ref = "flat" THEN MkC("v", "DateCurve", x, <<Mul(scale, "0.25"), Mul(scale, "0.5")>>, "none")
             ELSE MkC("v", "TerminalVolatilityCurve", x, <<Mul(scale, "0.25"), Mul(scale, "0.375")>>, "none")
        m == [op |-> "mnew", id |-> "m", cls |-> cls, vd |-> Vd(k), fwd |-> IF ref = "number" THEN lv ELSE "y",
              vol |-> IF ref = "number" THEN Mul(scale, "0.3") ELSE "v", dc |-> IF ref = "flat" /\ k # "f" THEN "act365" ELSE "none"]
    IN [k |-> k, name |-> cls, cls |-> cls, lv |-> lv, ref |-> ref, var |-> var, scale |-> scale,
        pre |-> y \o <<v, m @@ (IF inner \in DisplacedCls THEN [disp |-> Mul(lv, "0.125")] ELSE <<>>)
                            @@ (IF cls = "BinaryOptionPayOffModel" THEN [inner |-> inner, sshift |-> Mul(lv, "0.001"), carry |-> ref = "number"] ELSE <<>>)
                            @@ (IF var \in {"bump", "units-bump"} THEN [bump |-> TRUE] ELSE <<>>)
                            @@ (IF var \in {"units", "units-bump"} THEN [un |-> Other(lv, scale)] ELSE <<>>)>>]
Kinds == <<"f", "d", "b">>
Levels == <<"0.03", "1", "100">>
Refs == <<"number", "term", "flat">>
Vanilla == <<"IntrinsicOptionPayOffModel", "NormalOptionPayOffModel", "LogNormalOptionPayOffModel", "DisplacedLogNormalOptionPayOffModel">>
Binary == <<"BinaryIntrinsicOptionPayOffModel", "BinaryNormalOptionPayOffModel", "BinaryLogNormalOptionPayOffModel", "BinaryDisplacedLogNormalOptionPayOffModel">>
TheSetups ==
    FlattenSeq(Cross(Kinds, Levels, LAMBDA k, lv : FlattenSeq(Cross(Refs, Vanilla, LAMBDA ref, c : <<Su(k, c, lv, ref, "closed"), Su(k, c, lv, ref, "bump")>>))))
    \o FlattenSeq(Cross(Kinds, Levels, LAMBDA k, lv : Cross(Refs, Binary, LAMBDA ref, c : Su(k, c, lv, ref, "closed"))))
    \o FlattenSeq(Cross(Kinds, <<"0.03", "100">>, LAMBDA k, lv : FlattenSeq(Cross(<<"number", "term">>, Vanilla, LAMBDA ref, c :
            <<Su(k, c, lv, ref, "units"), Su(k, c, lv, ref, "units-bump")>>))))
    \o FlattenSeq(Cross(Kinds, Levels, LAMBDA k, lv : Cross(Refs, <<"UserOptionPayOffModel">>, LAMBDA ref, c : Su(k, c, lv, ref, "user"))))
    \o Cross(Kinds, Levels, LAMBDA k, lv : Su(k, "BinaryOptionPayOffModel", lv, "number", "UserOptionPayOffModel"))
    \o FlattenSeq(Cross(Kinds, <<"1", "100">>, LAMBDA k, lv : Cross(<<"number", "term">>, Tail(Vanilla), LAMBDA ref, c : Su(k, "BinaryOptionPayOffModel", lv, ref, c))))

IsBinary(u) == u.cls \in BinaryCls
TheDepth(u) == IF Thorough THEN 2 ELSE 1
TheMoves(u, g, hs) ==
    {[op |-> "mset", id |-> "m", field |-> "vd", v |-> Near1(u.k)]}
    \cup (IF IsBinary(u) THEN {}
          ELSE {[op |-> "mset", id |-> "m", field |-> "vol", v |-> IF u.ref = "number" THEN "none" ELSE Mul(u.scale, "0.15")],
                [op |-> "mset", id |-> "m", field |-> "fwd", v |-> Mul(u.lv, "0.9")]}
               \* a forward below zero, with a strike at zero
               \cup IF u.cls \in {"IntrinsicOptionPayOffModel", "NormalOptionPayOffModel", "UserOptionPayOffModel"}
                    THEN {[op |-> "mset", id |-> "m", field |-> "fwd", v |-> Mul(u.lv, "-0.5")]} ELSE {})

Fns == <<"call_value", "put_value", "call_delta", "put_delta", "call_gamma", "put_gamma", "call_vega", "put_vega", "call_theta", "put_theta">>
Cases0(u) == IF IsBinary(u) THEN <<<<Mid(u.k), 1>>, <<Mid(u.k), 2>>, <<Far(u.k), 3>>>>
            ELSE <<<<Mid(u.k), 1>>, <<Mid(u.k), 2>>, <<Mid(u.k), 3>>, <<Far(u.k), 2>>, <<Near1(u.k), 1>>, <<Past(u.k), 1>>, <<Past(u.k), 3>>>>
Cases(u) == Cases0(u) \o (IF u.cls \in {"IntrinsicOptionPayOffModel", "NormalOptionPayOffModel", "UserOptionPayOffModel", "BinaryIntrinsicOptionPayOffModel",
                                          "BinaryNormalOptionPayOffModel"}
                           THEN <<<<Mid(u.k), 4>>, <<Far(u.k), 5>>, <<Past(u.k), 4>>>> ELSE <<>>)
TheProbes(u, g) ==
    LET val(fn, c) == [op |-> "mval", id |-> "m", fn |-> fn, x |-> c[1], k |-> Strikes(u.lv)[c[2]]]
        one(c) == IF IsBinary(u) THEN <<val("call_value", c)>> ELSE Tuple([i \in 1..Len(Fns) |-> val(Fns[i], c)])
        det(c) == [op |-> "mdet", id |-> "m", x |-> c[1], k |-> Strikes(u.lv)[c[2]]]
        atm(fn) == [op |-> "mval", id |-> "m", fn |-> fn, x |-> Mid(u.k), k |-> "none"]
    IN FlattenSeq(Each(Cases(u), one)) \o Each(Cases(u), det)
       \o (IF IsBinary(u) \/ u.cls = "IntrinsicOptionPayOffModel" THEN <<>> ELSE Each(SubSeq(Fns, 1, 8), atm))
       \o <<At1("mvd", "m", "0")>>

TheLaws(u, g) ==
    LET m == g.o["m"]
        C == ToSet(Cases(u))
        K(c) == Strikes(u.lv)[c[2]]
        inp(c) == Inputs(g, m, c[1], K(c))
        call(c) == CallValue("ex", g, m, c[1], K(c))
        put(c) == PutValue("ex", g, m, c[1], K(c))
        gr(w, c) == Greek("ex", g, m, w, c[1], K(c))
        live(c) == ~Expired(inp(c))
        P(i) == Price("ex", m, i.t, i.k, i.f, i.v)
        e == Mul(u.lv, "1e-7")
        ev == "1e-8"
        up(i) == [i EXCEPT !.f = Add(@, e)]
        dn(i) == [i EXCEPT !.f = Sub(@, e)]
        delta(i) == Div(Sub(P(up(i)), P(dn(i))), Mul("2", e))
        gamma(i) == Div(Add(Sub(P(up(i)), Mul("2", P(i))), P(dn(i))), Sq(e))
        vega(i) == Div(Sub(P([i EXCEPT !.v = Add(@, ev)]), P([i EXCEPT !.v = Sub(@, ev)])), Mul("2", ev))
        eq(a, b) == Near(a, b, "1e-18", "1e-18")
        vanilla == ~IsBinary(u)
        closed == u.cls \in {"NormalOptionPayOffModel", "LogNormalOptionPayOffModel", "DisplacedLogNormalOptionPayOffModel"} /\ u.var = "closed"
        strikes == {Strikes(u.lv)[i] : i \in 1..3}
    IN Law("call minus put is forward minus strike", vanilla, \A c \in C : eq(Sub(call(c), put(c)), Sub(inp(c).f, inp(c).k)))
       \cup Law("intrinsic at or past expiry", vanilla,
                \A c \in C : live(c) \/ (Eq(call(c), RMax(Sub(inp(c).f, inp(c).k), Zero)) /\ Eq(put(c), RMax(Sub(inp(c).k, inp(c).f), Zero))))
       \cup Law("at least intrinsic", vanilla, \A c \in C : Le(Sub(inp(c).f, inp(c).k), Add(call(c), "1e-18")) /\ Le(Zero, Add(call(c), "1e-18")))
       \cup Law("call falls with strike", vanilla \/ u.cls # "BinaryOptionPayOffModel",
                \A c \in C : \A a, b \in strikes : Lt(a, b) =>
                    Le(CallValue("ex", g, m, c[1], b), Add("1e-18", CallValue("ex", g, m, c[1], a))))
       \cup Law("delta is the slope in the forward", closed, \A c \in C : live(c) => Near(gr("call_delta", c), Mul(delta(inp(c)), m.un.dsc), "1e-14", "1e-9"))
       \cup Law("gamma is the curvature", closed /\ u.cls = "NormalOptionPayOffModel",
                \A c \in C : live(c) => Near(gr("call_gamma", c), Mul(gamma(inp(c)), Sq(m.un.dsc)), "1e-16", "1e-7"))
       \cup Law("vega is the slope in volatility", closed, \A c \in C : live(c) => Near(gr("call_vega", c), Mul(vega(inp(c)), m.un.vsc), "1e-12", "1e-9"))
       \cup Law("bumped greeks are close to slopes", u.var = "bump" /\ u.cls = "NormalOptionPayOffModel" /\ u.lv = "100",
                \A c \in C : live(c) => Near(gr("call_delta", c), Mul(delta(inp(c)), m.un.dsc), "1e-8", "1e-4"))
       \cup Law("parity of greeks", vanilla,
                \A c \in C : /\ eq(Sub(gr("call_delta", c), gr("put_delta", c)), m.un.dsc)
                             /\ Eq(gr("call_gamma", c), gr("put_gamma", c)) /\ Eq(gr("call_vega", c), gr("put_vega", c))
                             /\ Eq(gr("call_theta", c), gr("put_theta", c)))
       \cup Law("greeks of expired options", vanilla,
                \A c \in C : live(c) \/ (IsZero(gr("call_gamma", c)) /\ IsZero(gr("call_vega", c)) /\ IsZero(gr("call_theta", c))
                                         /\ gr("call_delta", c) \in {Zero, m.un.dsc, "0.0000", Mul(One, m.un.dsc), Mul(Zero, m.un.dsc)}))
       \cup Law("binary pays one at most", u.cls \in ToSet(Binary), \A c \in C : live(c) => Le(Zero, call(c)) /\ Le(call(c), One))
       \cup Law("binary is the slope in the strike", u.cls = "BinaryNormalOptionPayOffModel",
                \A c \in C : live(c) =>
                    LET i == inp(c)
                        n(k) == CallFormula("ex", "NormalOptionPayOffModel", Zero, i.t, k, i.f, i.v)
                    IN Near(call(c), Div(Sub(n(Sub(i.k, e)), n(Add(i.k, e))), Mul("2", e)), "1e-9", "1e-9"))
       \cup Law("call spread is the slope in the strike", u.cls = "BinaryOptionPayOffModel",
                \A c \in C : live(c) =>
                    LET i == inp(c)
                        n(k) == CallFormula("ex", u.var, m.disp, i.t, k, i.f, i.v)
                    IN Near(call(c), Div(Sub(n(Sub(i.k, e)), n(Add(i.k, e))), Mul("2", e)), "1e-5", "1e-4"))
       \cup Law("polynomial normal distribution", TRUE,
                \A c \in C : live(c) => LET d == Div(Sub(inp(c).f, inp(c).k), Mul(Mul(u.lv, inp(c).v), Sqrt(inp(c).t)))
                                        IN Near(CdfPoly(d), CdfExact(d), "7.6e-8", "0"))
       \cup Law("valuation date is the last one set", TRUE,
                LET S == {i \in 1..Len(hist') : hist'[i].field = "vd"} IN
                Eq(m.vd, IF S = {} THEN Vd(u.k) ELSE Near1(u.k)))
=============================================================================
