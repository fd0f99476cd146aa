------------------------------- MODULE Curves -------------------------------
(***************************************************************************)
(* Curves: construction, evaluation, rates, factors, probabilities and     *)
(* volatilities.                                                           *)
(*                                                                         *)
(* The heap h holds the kind of dates h.k and the objects h.o.  A curve is *)
(* a record                                                                *)
(*   cls  its class            x    dates as given                         *)
(*   ks   points <<t, y>>, t time since origin, ascending                  *)
(*   itp  interpolation ("none": default of the class)                     *)
(*   org  origin ("none": first date)       dc  day count                  *)
(*   ten  forward tenor        fix  fixings <<date, value>>                *)
(*   spr  id of the spread curve or "none"                                 *)
(*   yc   forward curves: yield ("none", number or curve id)               *)
(*   dom, fgn  fx forward curves: domestic and foreign curve id            *)
(***************************************************************************)
EXTENDS Calendar, Interp, TLC

EmptyHeap(k) == [k |-> k, o |-> <<>>]
Put(h, id, obj) == [h EXCEPT !.o = (id :> obj) @@ h.o]
Known(h, id) == id \in DOMAIN h.o

ForwardCls == {"ForwardCurve", "FxForwardCurve"}
IrCls == {"DiscountFactorCurve", "ZeroRateCurve", "ShortRateCurve", "CashRateCurve"}
MarginalCls == {"MarginalSurvivalProbabilityCurve", "MarginalDefaultProbabilityCurve"}
SurvCls == {"SurvivalProbabilityCurve", "DefaultProbabilityCurve"}
DefaultCls == {"DefaultProbabilityCurve", "MarginalDefaultProbabilityCurve"}
ProbCls == SurvCls \cup MarginalCls
CreditCls == ProbCls \cup {"FlatIntensityCurve", "HazardRateCurve"}
VolCls == {"InstantaneousVolatilityCurve", "TerminalVolatilityCurve"}
RateCls == IrCls \cup CreditCls \cup VolCls
LinearRateCls == {"ZeroRateCurve", "FlatIntensityCurve"}          \* rates from origin
FactorCls == {"DiscountFactorCurve"} \cup SurvCls                 \* factors from origin
PieceCls == {"ShortRateCurve", "HazardRateCurve"}                 \* instantaneous rates

DefaultItp(cls) ==
    CASE cls \in {"DiscountFactorCurve"} \cup SurvCls -> "log_linear_rate_scheme"
      [] cls \in ForwardCls \cup MarginalCls -> "log_linear_scheme"
      [] cls \in PieceCls -> "constant"
      [] OTHER -> "linear_scheme"
DefaultTenor(cls) == IF cls \in CreditCls THEN "1Y" ELSE "3M"
ItpOf(c) == IF c.itp = "none" THEN DefaultItp(c.cls) ELSE c.itp
TenorOf(c) == IF c.ten = "none" THEN DefaultTenor(c.cls) ELSE c.ten
OrgOf(c) == IF c.org # "none" THEN c.org ELSE IF c.x = <<>> THEN "none" ELSE c.x[1]

Tiny == "2.2250738585072014e-308"
\* what is kept of the data handed over by the user
Kept(cls, y) ==
    LET s == IF cls \in DefaultCls THEN Sub(One, y) ELSE y
    IN IF cls \in ProbCls THEN RMax(Tiny, RMin(s, One)) ELSE s

TimeOf(k, c, x) == IF c.cls = "Curve" THEN x ELSE DayCount(k, c.dc, OrgOf(c), x)

\* a curve from kept data
Raw(k, cls, x, y, itp, org, dc, ten) ==
    LET c == [ty |-> "curve", cls |-> cls, x |-> x, ks |-> <<>>, itp |-> itp, org |-> org, dc |-> dc,
              ten |-> ten, fix |-> <<>>, spr |-> "none", rough |-> "none",
              yc |-> IF cls = "ForwardCurve" THEN Zero ELSE "none", dom |-> "none", fgn |-> "none"]
        ps == SortPoints(Tuple([i \in 1..Len(x) |-> <<TimeOf(k, c, x[i]), y[i]>>]))
    IN IF cls = "Curve" THEN [c EXCEPT !.ks = ps, !.x = Tuple([i \in 1..Len(ps) |-> ps[i][1]])]
       ELSE [c EXCEPT !.ks = ps]
New(k, cls, x, y, itp, org, dc, ten) ==
    Raw(k, cls, x, Tuple([i \in 1..Len(y) |-> Kept(cls, y[i])]), itp, org, dc, ten)

-----------------------------------------------------------------------------
(* Evaluation *)
FixAt(c, x) == c.fix[CHOOSE i \in 1..Len(c.fix) : Eq(c.fix[i][1], x)][2]
HasFix(c, x) == \E i \in 1..Len(c.fix) : Eq(c.fix[i][1], x)
Bare(k, c, x) == Interpolate(ItpOf(c), c.ks, TimeOf(k, c, x))
FixedOr(k, c, x) == IF HasFix(c, x) THEN FixAt(c, x) ELSE Bare(k, c, x)

RECURSIVE V(_, _, _), CF(_, _, _, _), CR(_, _, _, _), CashLoop(_, _, _, _, _), MargLoop(_, _, _, _, _),
          Daily(_, _, _, _, _)
HasDf(h, id) == h.o[id].ty = "curve" /\ h.o[id].cls \in IrCls

V(h, id, x) ==
    LET c == h.o[id] IN
    CASE c.cls = "Curve" -> Bare(h.k, c, x)
      [] c.cls \in ForwardCls ->
            LET last == MaxOf(c.x) IN
            IF Le(x, last) THEN FixedOr(h.k, c, x)
            ELSE IF c.cls = "FxForwardCurve"
                 THEN Mul(Div(FixedOr(h.k, c, last), CF(h, c.fgn, last, x)), CF(h, c.dom, last, x))
                 ELSE Div(FixedOr(h.k, c, last),
                          IF c.yc = "none" THEN One
                          ELSE IF Known(h, c.yc)
                               THEN IF HasDf(h, c.yc) THEN CF(h, c.yc, last, x)
                                    ELSE Div(V(h, c.yc, x), V(h, c.yc, last))
                               ELSE Exp(Neg(Mul(c.yc, Sub(TimeOf(h.k, c, x), TimeOf(h.k, c, last))))))
      [] c.cls \in RateCls ->
            IF c.spr = "none" THEN FixedOr(h.k, c, x) ELSE Add(FixedOr(h.k, c, x), V(h, c.spr, x))
      [] OTHER -> FixedOr(h.k, c, x)

Dc(h, id, s, e) == DayCount(h.k, h.o[id].dc, s, e)
Org(h, id) == OrgOf(h.o[id])
NextDay(h, x) == Plus(h.k, x, "1D")
PrevDay(h, x) == Minus(h.k, x, "1D")

\* products of simply compounded rates / marginal probabilities, tenor by tenor
CashLoop(h, id, cur, stop, acc) ==
    LET nxt == Plus(h.k, cur, TenorOf(h.o[id]))
        f(e) == Div(One, Add(One, Mul(V(h, id, cur), Dc(h, id, cur, e))))
    IN IF Lt(nxt, stop) THEN CashLoop(h, id, nxt, stop, Mul(acc, f(nxt))) ELSE Mul(acc, f(stop))
\* the value kept for a probability of zero: nothing survives
Dead(v) == Lt(v, Mul("2", Tiny))
MargLoop(h, id, cur, stop, acc) ==
    LET nxt == Plus(h.k, cur, TenorOf(h.o[id]))
    IN IF Dead(V(h, id, cur)) THEN Zero
       ELSE IF Lt(nxt, stop) THEN MargLoop(h, id, nxt, stop, Mul(acc, V(h, id, cur)))
       ELSE Mul(acc, Exp(Div(Mul(Ln(V(h, id, cur)), Dc(h, id, cur, stop)), Dc(h, id, cur, nxt))))
\* day by day sum of an instantaneous rate
Daily(h, id, cur, stop, acc) ==
    LET nxt == NextDay(h, cur)
    IN IF Lt(nxt, stop) THEN Daily(h, id, nxt, stop, Add(acc, Mul(V(h, id, cur), Dc(h, id, cur, nxt))))
       ELSE Add(acc, Mul(V(h, id, cur), Dc(h, id, cur, stop)))
\* integral of a piecewise constant instantaneous rate
Pieces(h, id, s, e) ==
    LET c == h.o[id]
        b == <<s>> \o SelectSeq(SortReals(c.x), LAMBDA d : Lt(s, d) /\ Lt(d, e)) \o <<e>>
    IN RSum(Tuple([i \in 1..(Len(b) - 1) |-> Mul(V(h, id, b[i]), Dc(h, id, b[i], b[i + 1]))]))
FlatSpread(h, c) == c.spr = "none" \/ Len(h.o[c.spr].x) = 1
StepRate(h, id, s, e) ==
    LET c == h.o[id]
        i == IF ItpOf(c) = "constant" /\ FlatSpread(h, c) /\ c.fix = <<>>
             THEN Pieces(h, id, s, e) ELSE Daily(h, id, s, e, Zero)
    IN Div(i, Dc(h, id, s, e))

\* compounding factor between two dates
CF(h, id, s, e) ==
    LET c == h.o[id] IN
    IF c.cls \in FactorCls
    THEN IF Eq(s, Org(h, id)) THEN V(h, id, e)
         ELSE IF Eq(s, e) THEN IF c.cls \in SurvCls /\ Dead(V(h, id, s)) THEN Zero ELSE One
         ELSE Div(V(h, id, e), V(h, id, s))
    ELSE IF c.cls \in MarginalCls
    THEN IF Eq(s, e) THEN IF Dead(V(h, id, s)) THEN Zero ELSE One ELSE MargLoop(h, id, s, e, One)
    ELSE IF c.cls = "CashRateCurve"
    THEN IF Eq(s, e) THEN One ELSE CashLoop(h, id, s, e, One)
    ELSE IF Eq(s, e) THEN One ELSE Exp(Neg(Mul(CR(h, id, s, e), Dc(h, id, s, e))))

\* continuously compounded rate between two dates
CR(h, id, s, e) ==
    LET c == h.o[id]
        o == Org(h, id)
        log(a, b) == Neg(Div(Ln(CF(h, id, a, b)), Dc(h, id, a, b)))
    IN
    IF c.cls \in LinearRateCls
    THEN IF Eq(s, e) THEN (IF Eq(s, o) THEN V(h, id, o) ELSE CR(h, id, s, NextDay(h, s)))
         ELSE IF Eq(s, o) THEN V(h, id, e)
         ELSE Div(Sub(Mul(V(h, id, e), Dc(h, id, o, e)), Mul(V(h, id, s), Dc(h, id, o, s))), Dc(h, id, s, e))
    ELSE IF c.cls \in PieceCls
    THEN IF Eq(s, e) THEN V(h, id, s) ELSE StepRate(h, id, s, e)
    ELSE IF c.cls = "CashRateCurve"
    THEN IF Eq(s, e) THEN V(h, id, s) ELSE log(s, e)
    ELSE IF ~Eq(s, e) THEN log(s, e)
    ELSE IF c.cls \in FactorCls /\ Eq(s, o)
         THEN log(s, MinOf(SelectSeq(c.x, LAMBDA d : Lt(o, d))))
         ELSE log(s, NextDay(h, s))

\* rate of the interval of grid dates around s
RECURSIVE Inst(_, _, _)
Inst(h, id, s) ==
    LET c == h.o[id]
        mn == MinOf(c.x)
        mx == MaxOf(c.x)
    IN
    IF c.cls \in PieceCls THEN V(h, id, s)
    ELSE IF c.cls \in MarginalCls
    THEN IF Lt(s, mn) THEN Inst(h, id, mn)
         ELSE IF Le(mx, s) THEN CR(h, id, mx, NextDay(h, mx))
         ELSE CR(h, id, MaxOf(SelectSeq(c.x, LAMBDA d : Le(d, s))), MinOf(SelectSeq(c.x, LAMBDA d : Lt(s, d))))
    ELSE IF Eq(mn, mx) THEN CR(h, id, s, NextDay(h, s))
    ELSE IF Lt(s, mn) THEN Inst(h, id, mn)
    ELSE IF Le(mx, s) THEN Inst(h, id, PrevDay(h, mx))
    ELSE CR(h, id, MaxOf(SelectSeq(c.x, LAMBDA d : Le(d, s))), MinOf(SelectSeq(c.x, LAMBDA d : Lt(s, d))))

\* simply compounded rate
SimpleRate(df, t) == Div(Sub(Div(One, df), One), t)
Cash(h, id, s, e) ==
    LET c == h.o[id] IN
    IF c.cls = "CashRateCurve" /\ Eq(e, Plus(h.k, s, TenorOf(c))) THEN V(h, id, s)
    ELSE SimpleRate(CF(h, id, s, e), Dc(h, id, s, e))
CashT(h, id, s) == Cash(h, id, s, Plus(h.k, s, TenorOf(h.o[id])))
Annuity(h, id, ds) ==
    RSum(Tuple([i \in 1..(Len(ds) - 1) |-> Mul(CF(h, id, Org(h, id), ds[i + 1]), Dc(h, id, ds[i], ds[i + 1]))]))

(* volatilities *)
\* integral of a piecewise linear or piecewise constant curve over time, spread and fixings do not take part
LinInt(h, id, s, e) ==
    LET c == h.o[id]
        a == TimeOf(h.k, c, s)
        b == TimeOf(h.k, c, e)
        lo == RMin(a, b)
        hi == RMax(a, b)
        ts == <<lo>> \o SelectSeq(Tuple([i \in 1..Len(c.ks) |-> c.ks[i][1]]), LAMBDA t : Lt(lo, t) /\ Lt(t, hi)) \o <<hi>>
        f(t) == Interpolate(ItpOf(c), c.ks, t)
        tot == RSum(Tuple([i \in 1..(Len(ts) - 1) |->
                     Mul(IF ItpOf(c) = "constant" THEN f(ts[i]) ELSE Div(Add(f(ts[i]), f(ts[i + 1])), "2"),
                         Sub(ts[i + 1], ts[i]))]))
    IN IF Le(a, b) THEN tot ELSE Neg(tot)
Mean(h, id, s, e) == Div(LinInt(h, id, s, e), Dc(h, id, s, e))

RECURSIVE TermVol(_, _, _, _)
\* "!" marks negative variance
TermVol(h, id, s, e) ==
    LET c == h.o[id]
        o == Org(h, id)
    IN
    IF c.cls = "InstantaneousVolatilityCurve"
    THEN IF Eq(s, e) THEN V(h, id, s) ELSE IF Lt(e, s) THEN Zero ELSE Mean(h, id, s, e)
    ELSE IF Eq(s, o) THEN V(h, id, e)
    ELSE IF Eq(s, e) THEN TermVol(h, id, s, NextDay(h, s))
    ELSE IF Lt(e, s) THEN Zero
    ELSE LET var == Div(Sub(Mul(Dc(h, id, o, e), Sq(V(h, id, e))), Mul(Dc(h, id, o, s), Sq(V(h, id, s)))),
                        Dc(h, id, s, e))
         IN IF "floor" \in DOMAIN c THEN Sqrt(RMax(var, Sq(c.floor)))     \* a class of the user
            ELSE IF Lt(var, Zero) THEN "ZeroDivisionError" ELSE Sqrt(var)
TermVol0(h, id, e) ==
    IF h.o[id].cls = "TerminalVolatilityCurve" THEN V(h, id, e) ELSE TermVol(h, id, Org(h, id), e)
InstVol(h, id, s) ==
    IF h.o[id].cls = "InstantaneousVolatilityCurve" THEN V(h, id, s) ELSE TermVol(h, id, s, NextDay(h, s))

-----------------------------------------------------------------------------
(* Construction from other curves *)
Stored(h, cls, src, ten, x) ==
    LET o == Org(h, src) IN
    CASE cls \in FactorCls -> CF(h, src, o, x)
      [] cls \in LinearRateCls -> CR(h, src, o, x)
      [] cls \in PieceCls -> Inst(h, src, x)
      [] cls = "CashRateCurve" -> Cash(h, src, x, Plus(h.k, x, ten))
      [] cls \in MarginalCls -> CF(h, src, x, Plus(h.k, x, ten))
      [] cls = "InstantaneousVolatilityCurve" -> InstVol(h, src, x)
      [] cls = "TerminalVolatilityCurve" -> TermVol0(h, src, x)

RECURSIVE BackSteps(_, _, _, _)
BackSteps(k, org, x, ten) == IF Lt(org, x) THEN <<x>> \o BackSteps(k, org, Minus(k, x, ten), ten) ELSE <<>>

\* dates of a curve made from another curve
CastDates(h, cls, src, org, ten) ==
    LET x == h.o[src].x
        mx == MaxOf(x)
        p(d, t) == Plus(h.k, d, t)
    IN
    CASE cls = "DiscountFactorCurve" -> SortReals(x \o <<p(org, "1D"), p(mx, "1D")>>)
      [] cls \in ProbCls -> SortReals(x \o <<p(org, "1D"), p(mx, "1Y")>>)
      [] cls \in {"FlatIntensityCurve", "HazardRateCurve"} -> SortReals(x \o <<p(mx, "1Y")>>)
      [] cls = "CashRateCurve" ->
            SortReals(x \o FlattenSeq(Tuple([i \in 1..Len(x) |-> BackSteps(h.k, org, x[i], ten)])))
      [] cls = "InstantaneousVolatilityCurve" ->
            SortReals(FlattenSeq(Tuple([i \in 1..(Len(x) + 1) |->
                LET d == IF i > Len(x) THEN org ELSE x[i] IN <<PrevDay(h, d), d, NextDay(h, d)>>])))
      [] cls = "TerminalVolatilityCurve" -> SortReals(x \o <<p(org, "1D"), p(mx, "10Y")>>)
      [] OTHER -> x

\* classes which keep the resolved origin of the source, others keep it as given
ResolvesOrigin == {"DiscountFactorCurve", "CashRateCurve"} \cup ProbCls \cup VolCls
KeepsTenor == {"CashRateCurve"} \cup MarginalCls

\* values which the program has from numerical integration, with few digits if the curve jumps from date to date
Digits(c) == IF c.cls # "InstantaneousVolatilityCurve" THEN "1e-6" ELSE IF ItpOf(c) = "constant" THEN "2e-3" ELSE "1e-5"
Roughly(h, cls, src, c) ==
    [c EXCEPT !.rough = IF h.o[src].rough # "none" THEN h.o[src].rough
                        ELSE IF cls # "TerminalVolatilityCurve" \/ h.o[src].cls # "InstantaneousVolatilityCurve" THEN "none"
                        ELSE IF ItpOf(h.o[src]) = "constant" THEN "2e-3" ELSE "1e-6"]
\* cls(src)
CastOf(h, cls, src, orgArg, dcArg, tenArg) ==
    LET s == h.o[src]
        org == IF orgArg # "none" THEN orgArg
               ELSE IF cls \in ResolvesOrigin THEN OrgOf(s) ELSE s.org
        dc == IF dcArg # "none" THEN dcArg ELSE s.dc
        ten == IF tenArg # "none" THEN tenArg
               ELSE IF cls \in KeepsTenor THEN TenorOf(s) ELSE "none"
        x == CastDates(h, cls, src, org, ten)
    IN Roughly(h, cls, src, Raw(h.k, cls, x, Tuple([i \in 1..Len(x) |-> Stored(h, cls, src, ten, x[i])]), "none", org, dc, ten))
\* cls(dates, src)
CastOn(h, cls, src, x, orgArg, dcArg, tenArg) ==
    LET s == h.o[src]
        org == IF orgArg # "none" THEN orgArg ELSE s.org
        dc == IF dcArg # "none" THEN dcArg ELSE s.dc
    IN Roughly(h, cls, src, Raw(h.k, cls, x, Tuple([i \in 1..Len(x) |-> Stored(h, cls, src, TenorOf(s), x[i])]), "none", org, dc, tenArg))
\* Curve(src), DateCurve(src), ForwardCurve(src): the points are copied
Values(h, id) == LET x == h.o[id].x IN Tuple([i \in 1..Len(x) |-> V(h, id, x[i])])
CopyOf(h, cls, src, org, dc) ==
    LET s == h.o[src] IN
    IF cls = "Curve"
    THEN Raw(h.k, cls, Tuple([i \in 1..Len(s.x) |-> TimeOf(h.k, s, s.x[i])]), Values(h, src), s.itp, "none", "none", "none")
    ELSE Raw(h.k, cls, s.x, Values(h, src), s.itp, IF org # "none" THEN org ELSE s.org, IF dc # "none" THEN dc ELSE s.dc, "none")
\* Curve(dates, src) and DateCurve(dates, src): the points are read on other dates
CopyOn(h, cls, src, x, org, dc) ==
    LET s == h.o[src]
        y == Tuple([i \in 1..Len(x) |-> V(h, src, x[i])]) IN
    IF cls = "Curve"
    THEN Raw(h.k, cls, Tuple([i \in 1..Len(x) |-> TimeOf(h.k, s, x[i])]), y, s.itp, "none", "none", "none")
    ELSE Raw(h.k, cls, x, y, s.itp, IF org # "none" THEN org ELSE s.org, IF dc # "none" THEN dc ELSE s.dc, "none")
CastTo(h, cls, src, org, dc, ten) ==
    IF cls \in RateCls THEN CastOf(h, cls, src, org, dc, ten) ELSE CopyOf(h, cls, src, org, dc)
\* cls(**kwargs)
CloneOf(h, src) ==
    LET s == h.o[src] IN
    Roughly(h, s.cls, src, Raw(h.k, s.cls, s.x, Values(h, src), s.itp, s.org, s.dc, s.ten))

Calc(op, a, b) ==
    CASE op = "add" -> Add(a, b) [] op = "sub" -> Sub(a, b) [] op = "mul" -> Mul(a, b) [] op = "div" -> Div(a, b)
Merge(h, a, b, op, org) ==
    LET x == SortReals(h.o[a].x \o h.o[b].x)
        c == h.o[a]
    IN Raw(h.k, c.cls, x, Tuple([i \in 1..Len(x) |-> Calc(op, V(h, a, x[i]), V(h, b, x[i]))]), c.itp,
           IF c.cls = "Curve" THEN "none" ELSE org, c.dc, "none")
\* a op b on curves of one class and origin
ArithOf(h, a, b, op) ==
    LET c == h.o[a] IN
    IF c.cls \in RateCls
    THEN LET h1 == Put(h, "b'", CastOf(h, c.cls, b, "none", "none", "none"))
             h2 == Put(h1, "m'", Merge(h1, a, "b'", op, OrgOf(c)))
         IN CastOf(h2, c.cls, "m'", "none", "none", c.ten)
    ELSE Merge(h, a, b, op, OrgOf(c))
DivByZero(h, a, b) ==
    \E x \in ToSet(h.o[a].x \o h.o[b].x) : IsZero(V(h, b, x))
\* all dates and the origin moved, values kept
ShiftOf(h, a, delta) ==
    LET c == h.o[a]
        mv(x) == Plus(h.k, x, delta)
    IN Raw(h.k, c.cls, Tuple([i \in 1..Len(c.x) |-> mv(c.x[i])]), Values(h, a), c.itp,
           IF c.cls = "Curve" THEN "none" ELSE mv(OrgOf(c)), c.dc, c.ten)

-----------------------------------------------------------------------------
(* Mutation *)
SetPoint(h, id, x, v) ==
    LET c == h.o[id]
        t == TimeOf(h.k, c, x)
        ks == InsertPoint(c.ks, <<t, v>>)
        xs == IF InSeq(c.x, x) THEN c.x ELSE Append(c.x, x)
    IN Put(h, id, [c EXCEPT !.ks = ks, !.x = IF c.cls = "Curve" THEN Tuple([i \in 1..Len(ks) |-> ks[i][1]]) ELSE xs])
SetFix(h, id, x, v) ==
    Put(h, id, [h.o[id] EXCEPT !.fix = SelectSeq(@, LAMBDA p : ~Eq(p[1], x)) \o <<<<x, v>>>>])
DelFix(h, id, x) == Put(h, id, [h.o[id] EXCEPT !.fix = SelectSeq(@, LAMBDA p : ~Eq(p[1], x))])
SetSpread(h, id, s) == Put(h, id, [h.o[id] EXCEPT !.spr = s])
=============================================================================
