------------------------------ MODULE Cashflows ------------------------------
(***************************************************************************)
(* Cashflow lists and payoffs.                                             *)
(*                                                                         *)
(* A cashflow list is a record                                             *)
(*   cls, x payment dates, pay payoffs (one per date), org origin,         *)
(*   ref  what projects the flows: "none", a number, a curve or a model    *)
(* Payoffs are records with field p:                                       *)
(*   "fix"   a                                amount                       *)
(*   "rate"  s, e, a, dc, fo, r               interest on a in [s, e)      *)
(*   "opt"   ex, a, k, put                    option                       *)
(*   "strat" opts                             options                      *)
(*   "crate" rate plus cap, flr               collared interest            *)
(*   "fn"    a, b                             any function of the user     *)
(* A leg list is a record with the ids of its legs.                        *)
(***************************************************************************)
EXTENDS Models

IsModel(h, ref) == ref # "none" /\ Known(h, ref) /\ h.o[ref].ty = "model"
ForwardRef(h, ref) == IF IsModel(h, ref) THEN h.o[ref].fwd ELSE ref
FixingDate(h, p) == IF p.fo = "none" THEN p.s ELSE Minus(h.k, p.s, p.fo)
YearFraction(h, p) == DayCount(h.k, p.dc, p.s, p.e)
\* flows are projected with cash rates or values of the forward curve
Projected(h, p, ref) == RefForward(h, ForwardRef(h, ref), FixingDate(h, p))
Interest(h, p, ref) == Mul(Mul(Add(p.r, Projected(h, p, ref)), YearFraction(h, p)), p.a)
OptionFlow(var, h, o, ref) ==
    IF ref = "none" THEN Zero
    ELSE LET m == h.o[ref]
         IN Mul(o.a, IF o.put THEN PutValue(var, h, m, o.ex, o.k) ELSE CallValue(var, h, m, o.ex, o.k))

Flow(var, h, p, ref) ==
    CASE p.p = "fix" -> IF var = "ex" /\ "ax" \in DOMAIN p THEN p.ax ELSE p.a
      [] p.p = "fn" -> IF ref = "none" THEN p.a ELSE p.b
      [] p.p = "rate" -> Interest(h, p, ref)
      [] p.p = "opt" -> OptionFlow(var, h, p, ref)
      [] p.p = "strat" -> RSum(Tuple([i \in 1..Len(p.opts) |-> OptionFlow(var, h, p.opts[i], ref)]))
      [] p.p = "crate" ->
            LET base == Interest(h, p, ref)
                m == h.o[ref]
                n == Mul(YearFraction(h, p), p.a)
                d == FixingDate(h, p)
                flr == IF p.flr = "none" THEN Zero ELSE Mul(PutValue(var, h, m, d, p.flr), n)
                cap == IF p.cap = "none" THEN Zero ELSE Mul(CallValue(var, h, m, d, p.cap), n)
            IN IF IsModel(h, ref) THEN Sub(Add(base, flr), cap) ELSE base

PayAt(cf, d) == cf.pay[IndexIn(cf.x, d)]
RECURSIVE FlowAt(_, _, _, _, _)
\* flow of list id at date d, projected with ref ("own": what the list carries)
FlowAt(var, h, id, d, ref) ==
    LET o == h.o[id] IN
    IF o.ty = "legs"
    THEN RSum(Tuple([i \in 1..Len(o.legs) |-> FlowAt(var, h, o.legs[i], d, ref)]))
    ELSE IF ~InSeq(o.x, d) THEN Zero
    ELSE Flow(var, h, PayAt(o, d), IF ref = "own" THEN o.ref ELSE ref)

\* legs may be lists of legs themselves
RECURSIVE Leaves(_, _)
Leaves(h, id) ==
    LET o == h.o[id]
    IN IF o.ty = "legs" THEN FlattenSeq(Tuple([i \in 1..Len(o.legs) |-> Leaves(h, o.legs[i])])) ELSE <<id>>
DatesOf(h, id) ==
    LET o == h.o[id]
        l == Leaves(h, id)
    IN IF o.ty = "legs" THEN SortReals(FlattenSeq(Tuple([i \in 1..Len(l) |-> h.o[l[i]].x]))) ELSE o.x
CfOrigin(h, id) ==
    LET l == Leaves(h, id)
        one(c) == IF c.org # "none" THEN c.org ELSE c.x[1]
    IN MinOf(Tuple([i \in 1..Len(l) |-> one(h.o[l[i]])]))

-----------------------------------------------------------------------------
(* Construction *)
At(s, i) == IF Len(s) = 1 THEN s[1] ELSE s[i]       \* a single entry counts for all dates
Back(k, d, off) == IF off = "none" THEN d ELSE Minus(k, d, off)

\* a moved back by the distance from a to b; between business dates this is in months and days
Distance(a, b) ==
    LET ca == Civil(a)
        cb == Civil(b)
        m == 12 * (cb[1] - ca[1]) + cb[2] - ca[2] - (IF cb[3] < ca[3] THEN 1 ELSE 0)
    IN <<m, IF cb[3] < ca[3] THEN b - AddMonths(a, m) ELSE cb[3] - ca[3]>>
BackBy(k, a, b) ==
    IF k # "b" THEN Sub(a, Sub(b, a))
    ELSE LET d == Distance(ToInt(a), ToInt(b)) IN Real(AddMonths(ToInt(a), -d[1]) - d[2])
\* interest periods: from the previous payment date (or the origin) to the payment date
PeriodStart(k, x, org, i) ==
    IF i > 1 THEN x[i - 1]
    ELSE IF org # "none" THEN org
    ELSE IF Len(x) > 1 THEN BackBy(k, x[1], x[2]) ELSE x[1]

FixedList(x, amounts, org) ==
    [ty |-> "cf", cls |-> "FixedCashFlowList", x |-> x, org |-> org, ref |-> "none",
     pay |-> Tuple([i \in 1..Len(x) |-> [p |-> "fix", a |-> At(amounts, i)]])]
RateList(k, x, amounts, org, dc, fo, po, r, ref) ==
    [ty |-> "cf", cls |-> "RateCashFlowList", x |-> x, org |-> org, ref |-> ref,
     pay |-> Tuple([i \in 1..Len(x) |->
        [p |-> "rate", s |-> Back(k, PeriodStart(k, x, org, i), po), e |-> Back(k, x[i], po),
         a |-> At(amounts, i), dc |-> dc, fo |-> fo, r |-> r]])]
CollarList(k, x, amounts, org, dc, fo, po, r, cap, flr, ref) ==
    [ty |-> "cf", cls |-> "ContingentRateCashFlowList", x |-> x, org |-> org, ref |-> ref,
     pay |-> Tuple([i \in 1..Len(x) |->
        [p |-> "crate", s |-> Back(k, PeriodStart(k, x, org, i), po), e |-> Back(k, x[i], po),
         a |-> At(amounts, i), dc |-> dc, fo |-> fo, r |-> r, cap |-> cap, flr |-> flr]])]
OptionList(k, x, amounts, strikes, puts, fo, po, org, ref) ==
    [ty |-> "cf", cls |-> "OptionCashflowList", x |-> x, org |-> org, ref |-> ref,
     pay |-> Tuple([i \in 1..Len(x) |->
        [p |-> "opt", ex |-> Back(k, Back(k, x[i], po), fo), a |-> At(amounts, i),
         k |-> At(strikes, i), put |-> At(puts, i)]])]
StrategyList(k, x, ca, ck, pa, pk, fo, po, org, ref) ==
    [ty |-> "cf", cls |-> "OptionStrategyCashflowList", x |-> x, org |-> org, ref |-> ref,
     pay |-> Tuple([i \in 1..Len(x) |->
        LET ex == Back(k, Back(k, x[i], po), fo)
        IN [p |-> "strat", opts |->
              Tuple([j \in 1..Len(pk) |-> [p |-> "opt", ex |-> ex, a |-> At(pa, j), k |-> pk[j], put |-> TRUE]])
           \o Tuple([j \in 1..Len(ck) |-> [p |-> "opt", ex |-> ex, a |-> At(ca, j), k |-> ck[j], put |-> FALSE]])]])]
LegList(ids) == [ty |-> "legs", cls |-> "CashFlowLegList", legs |-> ids]

HasRate(p) == p.p \in {"rate", "crate"}
SetRate(cf, r) == [cf EXCEPT !.pay = Tuple([i \in 1..Len(cf.pay) |->
                     IF HasRate(cf.pay[i]) THEN [cf.pay[i] EXCEPT !.r = r] ELSE cf.pay[i]])]
\* a single payment changed
SetPay(cf, d, field, v) ==
    LET i == IndexIn(cf.x, d)
    IN [cf EXCEPT !.pay[i] = IF field = "fixed_rate" THEN [@ EXCEPT !.r = v] ELSE [@ EXCEPT !.a = v]]
\* common fixed rate or "none"
RateOf(cf) == IF \A i \in 1..Len(cf.pay) : Eq(cf.pay[i].r, cf.pay[1].r) THEN cf.pay[1].r ELSE "none"

-----------------------------------------------------------------------------
(* Products *)
\* coupon dates stepped back from the end date, for float and plain dates
RECURSIVE StepBack(_, _, _, _, _)
StepBack(start, end, period, n, acc) ==
    LET last == acc[1]
        nxt == Sub(end, Mul(period, Real(n)))
    IN IF Lt(Add(start, period), last) THEN StepBack(start, end, period, n + 1, <<nxt>> \o acc) ELSE acc
CouponDates(start, end, period) == StepBack(start, end, period, 1, <<end>>)

\* business dates: months stepped from the end date, start added, moved to business days
\* (neither weekends nor one of the holidays)
Working(n, hol) == Weekday(n) < 5 /\ ~\E i \in 1..Len(hol) : ToInt(hol[i]) = n
RECURSIVE Roll(_, _, _)
Roll(n, step, hol) == IF Working(n, hol) THEN n ELSE Roll(n + step, step, hol)
SameMonth(n, m) == Civil(n)[2] = Civil(m)[2]
Modified(n, step, hol) == LET m == Roll(n, step, hol) IN IF SameMonth(m, n) THEN m ELSE Roll(n, -step, hol)
Adjust(conv, n, hol) == CASE conv = "no" -> n [] conv = "follow" -> Roll(n, 1, hol) [] conv = "previous" -> Roll(n, -1, hol)
                          [] conv = "mod_follow" -> Modified(n, 1, hol) [] conv = "mod_previous" -> Modified(n, -1, hol)
RECURSIVE BizSteps(_, _, _, _)
BizSteps(start, end, months, n) ==
    LET d == AddMonths(end, -months * n)
    IN IF d <= start THEN <<>> ELSE BizSteps(start, end, months, n + 1) \o <<d>>
BizCoupons(start, end, months, conv, hol) ==
    LET ds == BizSteps(start, end, months, 0)
    IN Tuple([i \in 1..Len(ds) |-> Real(Adjust(conv, ds[i], hol))])
=============================================================================
