------------------------------- MODULE Models -------------------------------
(***************************************************************************)
(* Option pricing models.  A model is a record                             *)
(*   cls, vd valuation date, fwd / vol reference ("none", number, curve),  *)
(*   dc day count or "none", bump, disp displacement, inner (class of the  *)
(*   vanilla model of a binary call spread)                                *)
(* The normal distribution comes in two variants: "as" is the polynomial   *)
(* of Abramowitz and Stegun the program documents, "ex" is exact.          *)
(***************************************************************************)
EXTENDS Curves

InvSqrt2Pi == "0.398942280401432677939946059934381868476"
Pdf(x) == Mul(InvSqrt2Pi, Exp(Neg(Div(Sq(x), "2"))))
\* 1/2 + pdf(x) (x + x^3/3 + x^5/15 + ...)
RECURSIVE CdfSeries(_, _, _, _)
CdfSeries(x2, term, n, acc) ==
    LET t == Div(Mul(term, x2), Real(n))
        a == Add(acc, t)
    IN IF n > 400 \/ Le(Abs(t), "1e-24") THEN a ELSE CdfSeries(x2, t, n + 2, a)
CdfExact(x) ==
    IF Le("8.5", x) THEN One ELSE IF Le(x, "-8.5") THEN Zero
    ELSE Add("0.5", Mul(Pdf(x), CdfSeries(Sq(x), x, 3, x)))
CdfPoly(x) ==
    LET a == Abs(x)
        r == Div(One, Add(One, Mul("0.2316419", a)))
        p == Mul(r, Add("0.31938153", Mul(r, Add("-0.356563782", Mul(r, Add("1.781477937",
                 Mul(r, Add("-1.821255978", Mul(r, "1.330274429")))))))))
        tail == Mul("0.398942280401433", Mul(Exp(Neg(Div(Sq(x), "2"))), p))
    IN IF Le(Zero, x) THEN Sub(One, tail) ELSE tail
Cdf(var, x) == IF var = "as" THEN CdfPoly(x) ELSE CdfExact(x)

IntrinsicCls == {"IntrinsicOptionPayOffModel", "BinaryIntrinsicOptionPayOffModel"}
NormalCls == {"NormalOptionPayOffModel", "BinaryNormalOptionPayOffModel"}
LogCls == {"LogNormalOptionPayOffModel", "BinaryLogNormalOptionPayOffModel"}
DisplacedCls == {"DisplacedLogNormalOptionPayOffModel", "BinaryDisplacedLogNormalOptionPayOffModel"}
SpreadCls == {"BinaryOptionPayOffModel"}
BinaryCls == {"BinaryIntrinsicOptionPayOffModel", "BinaryNormalOptionPayOffModel",
              "BinaryLogNormalOptionPayOffModel", "BinaryDisplacedLogNormalOptionPayOffModel"} \cup SpreadCls
VanillaCls == {"IntrinsicOptionPayOffModel", "NormalOptionPayOffModel", "LogNormalOptionPayOffModel",
               "DisplacedLogNormalOptionPayOffModel"}

\* undiscounted call on forward f, strike k, time t > 0, volatility v > 0
RECURSIVE CallFormula(_, _, _, _, _, _, _)
CallFormula(var, cls, disp, t, k, f, v) ==
    LET s == Mul(v, Sqrt(t))
        dn == Div(Sub(f, k), s)
        dl == Div(Add(Ln(Div(f, k)), Div(Sq(s), "2")), s)
    IN
    CASE cls = "IntrinsicOptionPayOffModel" -> RMax(Sub(f, k), Zero)
      [] cls = "BinaryIntrinsicOptionPayOffModel" -> IF Le(f, k) THEN Zero ELSE One
      [] cls = "NormalOptionPayOffModel" -> Add(Mul(Sub(f, k), Cdf(var, dn)), Mul(s, Pdf(dn)))
      [] cls = "BinaryNormalOptionPayOffModel" -> Cdf(var, dn)
      \* a formula of the user
      [] cls = "UserOptionPayOffModel" -> Add(Div(Sub(f, k), "2"), Sqrt(Add(Sq(Div(Sub(f, k), "2")), Mul(Sq(v), t))))
      [] cls = "LogNormalOptionPayOffModel" -> Sub(Mul(f, Cdf(var, dl)), Mul(k, Cdf(var, Sub(dl, s))))
      [] cls = "BinaryLogNormalOptionPayOffModel" -> Cdf(var, dl)
      [] cls = "DisplacedLogNormalOptionPayOffModel" ->
            CallFormula(var, "LogNormalOptionPayOffModel", Zero, t, Add(k, disp), Add(f, disp), v)
      [] cls = "BinaryDisplacedLogNormalOptionPayOffModel" ->
            CallFormula(var, "BinaryLogNormalOptionPayOffModel", Zero, t, Add(k, disp), Add(f, disp), v)

\* size and unit of finite differences, constants of the model class
Units == [dsh |-> "0.0001", dsc |-> "0.0001", vsh |-> "0.01", vsc |-> "0.01", tsh |-> Div(One, "365.25"), tsc |-> Div(One, "365.25")]

\* inputs of the formula, (time, strike, forward, volatility)
RefForward(h, ref, d) ==
    IF ref = "none" THEN Zero
    ELSE IF Known(h, ref) THEN (IF h.o[ref].cls \in IrCls THEN CashT(h, ref, d) ELSE V(h, ref, d))
    ELSE ref
RefVol(h, ref, d) ==
    IF ref = "none" THEN Zero
    ELSE IF Known(h, ref) THEN (IF h.o[ref].cls \in VolCls THEN TermVol0(h, ref, d) ELSE V(h, ref, d))
    ELSE ref
HasDayCount(h, ref) == ref # "none" /\ Known(h, ref) /\ h.o[ref].cls # "Curve"
ModelTime(h, m, d) ==
    IF m.dc # "none" THEN DayCount(h.k, m.dc, m.vd, d)
    ELSE IF HasDayCount(h, m.vol) THEN Dc(h, m.vol, m.vd, d)
    ELSE IF HasDayCount(h, m.fwd) THEN Dc(h, m.fwd, m.vd, d)
    ELSE DayCount(h.k, "none", m.vd, d)
Inputs(h, m, d, strike) ==
    LET f == RefForward(h, m.fwd, d)
    IN [t |-> ModelTime(h, m, d), k |-> IF strike = "none" THEN f ELSE strike, f |-> f, v |-> RefVol(h, m.vol, d)]

Price(var, m, t, k, f, v) ==
    IF m.cls \in SpreadCls
    THEN Div(Sub(CallFormula(var, m.inner, m.disp, t, Sub(k, Div(m.sshift, "2")), f, v),
                 CallFormula(var, m.inner, m.disp, t, Add(k, Div(m.sshift, "2")), f, v)), m.sshift)
    ELSE CallFormula(var, m.cls, m.disp, t, k, f, v)
Expired(i) == IsZero(i.v) \/ Le(i.t, Zero)

CallValue(var, h, m, d, strike) ==
    LET i == Inputs(h, m, d, strike)
    IN IF Expired(i) THEN RMax(Sub(i.f, i.k), Zero) ELSE Price(var, m, i.t, i.k, i.f, i.v)
PutValue(var, h, m, d, strike) ==
    LET i == Inputs(h, m, d, strike)
    IN IF Expired(i) THEN RMax(Sub(i.k, i.f), Zero)
       ELSE Add(Sub(i.k, i.f), Price(var, m, i.t, i.k, i.f, i.v))

\* closed formulas, "none" where the program falls back to differences
ClosedDelta(var, m, i) ==
    LET s == Mul(i.v, Sqrt(i.t))
        x == IF m.cls \in DisplacedCls THEN m.disp ELSE Zero
        f == Add(i.f, x)
        k == Add(i.k, x)
    IN CASE m.cls = "IntrinsicOptionPayOffModel" -> IF Lt(f, k) THEN Zero ELSE One
         [] m.cls = "NormalOptionPayOffModel" -> Cdf(var, Div(Sub(f, k), s))
         [] m.cls \in {"LogNormalOptionPayOffModel", "DisplacedLogNormalOptionPayOffModel"} ->
               Cdf(var, Div(Add(Ln(Div(f, k)), Div(Sq(s), "2")), s))
         [] OTHER -> "none"
ClosedGamma(m, i) ==
    LET s == Mul(i.v, Sqrt(i.t))
    IN CASE m.cls = "IntrinsicOptionPayOffModel" -> Zero
         [] m.cls = "NormalOptionPayOffModel" -> Div(Pdf(Div(Sub(i.f, i.k), s)), s)
         [] OTHER -> "none"
ClosedVega(m, i) ==
    LET s == Mul(i.v, Sqrt(i.t))
        x == IF m.cls \in DisplacedCls THEN m.disp ELSE Zero
        f == Add(i.f, x)
        k == Add(i.k, x)
        d == Div(Add(Ln(Div(f, k)), Div(Sq(s), "2")), s)
    IN CASE m.cls = "IntrinsicOptionPayOffModel" -> Zero
         [] m.cls = "NormalOptionPayOffModel" -> Mul(Sqrt(i.t), Pdf(Div(Sub(i.f, i.k), s)))
         [] m.cls \in {"LogNormalOptionPayOffModel", "DisplacedLogNormalOptionPayOffModel"} ->
               Mul(f, Mul(Sqrt(i.t), Pdf(d)))
         [] OTHER -> "none"
\* deviation of the program: density at d - s instead of d
DeviantVega(m, i) ==
    LET s == Mul(i.v, Sqrt(i.t))
        x == IF m.cls \in DisplacedCls THEN m.disp ELSE Zero
        f == Add(i.f, x)
        k == Add(i.k, x)
        d == Div(Add(Ln(Div(f, k)), Div(Sq(s), "2")), s)
    IN Mul(f, Mul(Sqrt(i.t), Pdf(Sub(d, s))))

BumpDelta(var, m, i, shift) ==
    Div(Sub(Price(var, m, i.t, i.k, Add(i.f, shift), i.v), Price(var, m, i.t, i.k, i.f, i.v)), shift)
BumpGamma(var, m, i, shift) ==
    Div(Add(Sub(Price(var, m, i.t, i.k, Add(i.f, shift), i.v), Mul("2", Price(var, m, i.t, i.k, i.f, i.v))),
            Price(var, m, i.t, i.k, Sub(i.f, shift), i.v)), Sq(shift))
BumpVega(var, m, i, shift) ==
    Div(Sub(Price(var, m, i.t, i.k, i.f, Add(i.v, shift)), Price(var, m, i.t, i.k, i.f, i.v)), shift)
BumpTheta(var, m, i, shift) ==
    Div(Sub(Price(var, m, Add(i.t, shift), i.k, i.f, i.v), Price(var, m, i.t, i.k, i.f, i.v)), shift)

\* sensitivities per scale (basis point, volatility point, day)
Greek(var, h, m, what, d, strike) ==
    LET i == Inputs(h, m, d, strike)
        exp == Expired(i)
        cd == ClosedDelta(var, m, i)
        cg == ClosedGamma(m, i)
        cv == ClosedVega(m, i)
        delta == IF exp THEN (IF Lt(i.f, i.k) THEN Zero ELSE One)
                 ELSE IF m.bump \/ cd = "none" THEN BumpDelta(var, m, i, m.un.dsh) ELSE cd
        gamma == IF exp THEN Zero ELSE IF m.bump \/ cg = "none" THEN BumpGamma(var, m, i, m.un.dsh) ELSE cg
        vega == IF exp THEN Zero ELSE IF m.bump \/ cv = "none" THEN BumpVega(var, m, i, m.un.vsh) ELSE cv
        theta == IF exp THEN Zero ELSE BumpTheta(var, m, i, m.un.tsh)
    IN CASE what = "call_delta" -> Mul(delta, m.un.dsc)
         [] what = "put_delta" -> Mul(Sub(delta, One), m.un.dsc)
         [] what \in {"call_gamma", "put_gamma"} -> Mul(gamma, Sq(m.un.dsc))
         [] what \in {"call_vega", "put_vega"} -> Mul(vega, m.un.vsc)
         [] what \in {"call_theta", "put_theta"} -> Mul(theta, m.un.tsc)
=============================================================================
