------------------------------- MODULE Machine -------------------------------
(***************************************************************************)
(* The program as a state machine: Post(h, e) is the heap after event e,   *)
(* Bad(h, e) the clauses which the recorded outcome e.out of e breaks.     *)
(* Queries leave the heap as it is: that they do so in the program, too,   *)
(* is what later queries on the same objects verify.                       *)
(***************************************************************************)
EXTENDS Pricer, Compounding, Rating

Has(r, f) == f \in DOMAIN r
Opt(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d

\* ------------------------------------------------------------------ verdicts
Fail(c, w) == {[c |-> c, want |-> w]}
IsNum(o) == o.t = "n"
\* beyond the range of doubles
Huge(v) == v # "nan" /\ Lt("1e290", Abs(v))
NumTol(o, v, abs, rel) ==
    IF Huge(v) THEN {} ELSE IF ~IsNum(o) THEN Fail("kind", v) ELSE IF Near(o.v, v, abs, rel) THEN {} ELSE Fail("value", v)
Num(o, v) == NumTol(o, v, "1e-12", "1e-9")
Raises(o, names) ==
    IF o.t # "x" THEN Fail("no-exception", ToString(names))
    ELSE IF \E i \in 1..Len(o.mro) : o.mro[i] \in names THEN {} ELSE Fail("exception", ToString(names))
Errors == {"OverflowError", "IndexError", "ZeroDivisionError", "KeyError", "ValueError", "TypeError", "AssertionError"}
Value(o, v) ==
    IF v = "None" THEN (IF o.t = "none" THEN {} ELSE Fail("not-none", "None"))
    ELSE IF v \in Errors THEN Raises(o, {v}) ELSE Num(o, v)
Bool(o, b) == IF o.t = "b" /\ o.v = b THEN {} ELSE Fail("truth", ToString(b))
Str(o, s) == IF o.t = "str" /\ o.v = s THEN {} ELSE Fail("string", s)
NumsTol(o, s, abs, rel) ==
    IF o.t = "x" /\ \E i \in 1..Len(s) : Huge(s[i]) THEN {}
    ELSE IF o.t # "s" THEN Fail("kind", ToString(s))
    ELSE IF Len(o.v) # Len(s) THEN Fail("length", ToString(Len(s)))
    ELSE LET bad == {i \in 1..Len(s) : ~Huge(s[i]) /\ ~(o.v[i] # "nan" /\ Near(o.v[i], s[i], abs, rel))}
         IN IF bad = {} THEN {} ELSE LET i == CHOOSE i \in bad : \A j \in bad : i <= j IN Fail("value", s[i])
Nums(o, s) == NumsTol(o, s, "1e-12", "1e-9")
\* values of a curve
AtCurve(h, id, o, s) == IF h.o[id].rough # "none" THEN NumsTol(o, s, "1e-7", h.o[id].rough) ELSE Nums(o, s)
CurveNum(h, id, o, v) == IF h.o[id].rough # "none" THEN NumTol(o, v, "1e-7", h.o[id].rough) ELSE Num(o, v)
Done(o) == IF o.t = "none" THEN {} ELSE Fail("outcome", "none")
Built(o, errs) == IF errs = {} THEN Done(o) ELSE Raises(o, errs)

\* ------------------------------------------------------------------ creation of curves
Org0(e) == Opt(e, "org", "none")
Dc0(e) == Opt(e, "dc", "none")
Ten0(e) == Opt(e, "ten", "none")
Itp0(e) == Opt(e, "itp", "none")
NewOf(h, e) ==
    LET c == New(h.k, e.cls, e.x, e.y, Itp0(e), Org0(e), Dc0(e), Ten0(e))
        d == [c EXCEPT !.yc = Opt(e, "yc", @), !.dom = Opt(e, "dom", @), !.fgn = Opt(e, "fgn", @)]
    IN IF Has(e, "floor") THEN d @@ [floor |-> e.floor] ELSE d
NewErrors(h, e) ==
    IF Len(e.x) # Len(e.y) THEN {"ValueError"}
    ELSE LET f == IF Itp0(e) = "none" THEN DefaultItp(e.cls) ELSE Itp0(e)
         IN DataError(f, Tuple([i \in 1..Len(e.x) |-> <<e.x[i], Kept(e.cls, e.y[i])>>]))
SetErrors(h, e) ==
    IF NeedsPositive(ItpOf(h.o[e.id])) /\ ~Pos(e.v) THEN {"ValueError"} ELSE {}
ArithErrors(h, e) ==
    IF e.fn = "div" /\ DivByZero(h, e.a, e.b) THEN {"ZeroDivisionError"}
    ELSE IF h.o[e.a].cls \notin RateCls /\ NeedsPositive(ItpOf(h.o[e.a]))
            /\ \E x \in ToSet(h.o[e.a].x \o h.o[e.b].x) : ~Pos(Calc(e.fn, V(h, e.a, x), V(h, e.b, x)))
    THEN {"ValueError"} ELSE {}

\* ------------------------------------------------------------------ fx container
PairId(id, d, f) == id \o ":" \o d \o "/" \o f
FxSpot(h, id, d, f, spot, dc, fc) ==
    Put(h, PairId(id, d, f),
        [New(h.k, "FxForwardCurve", <<Org(h, h.o[id].dom)>>, <<spot>>, "none", "none", "none", "none")
            EXCEPT !.dom = dc, !.fgn = fc])
RECURSIVE FxCross(_, _, _, _, _, _)
\* all other currencies against the new one
FxCross(h, id, others, f, fc, spot) ==
    IF others = {} THEN h
    ELSE LET d == CHOOSE d \in others : TRUE
             o == h.o[id]
             p == h.o[PairId(id, d, o.cur)]
             t == Mul(V(h, PairId(id, d, o.cur), Org(h, o.dom)), spot)
             h1 == FxSpot(h, id, d, f, t, p.dom, fc)
             h2 == FxSpot(h1, id, f, d, Div(One, t), fc, p.dom)
         IN FxCross(h2, id, others \ {d}, f, fc, spot)
FxAdd(h, id, f, fc, spot) ==
    LET o == h.o[id]
        h1 == FxSpot(h, id, o.cur, f, spot, o.dom, fc)
        h2 == FxSpot(h1, id, f, o.cur, Div(One, spot), fc, o.dom)
        h3 == FxCross(h2, id, (o.curs \ {f, o.cur}), f, fc, spot)
    IN Put(h3, id, [o EXCEPT !.curs = @ \cup {f}])
FxNew(h, e) ==
    FxAdd(Put(h, e.id, [ty |-> "fxc", cur |-> e.cur, dom |-> e.dom, curs |-> {}]), e.id, e.cur, e.dom, One)
\* what a container of exchange rates does not take: a rate which is no float, a curve which is no rate curve, and
\* forwards against another curve than its own
FxErrors(h, e) ==
    IF Has(e, "bad") \/ (e.op = "fxsetcur" /\ h.o[e.crv].dom # h.o[e.id].dom) THEN {"AssertionError"} ELSE {}
\* container[currency] = fx forward curve
FxSetCur(h, e) == FxAdd(h, e.id, e.cur, h.o[e.crv].fgn, V(h, e.crv, Org(h, h.o[e.id].dom)))

\* ------------------------------------------------------------------ cashflow lists
Ref0(e) == Opt(e, "ref", "none")
CfOf(h, e) ==
    CASE e.cls = "FixedCashFlowList" -> FixedList(e.x, e.a, Org0(e))
      [] e.cls = "CashFlowList" -> [FixedList(e.x, e.a, Org0(e)) EXCEPT !.cls = "CashFlowList"]
      [] e.cls = "RateCashFlowList" ->
            RateList(h.k, e.x, e.a, Org0(e), Dc0(e), Opt(e, "fo", "none"), Opt(e, "po", "none"), Opt(e, "r", Zero), Ref0(e))
      [] e.cls = "ContingentRateCashFlowList" ->
            CollarList(h.k, e.x, e.a, Org0(e), Dc0(e), Opt(e, "fo", "none"), Opt(e, "po", "none"), Opt(e, "r", Zero),
                       Opt(e, "cap", "none"), Opt(e, "flr", "none"), Ref0(e))
      [] e.cls = "OptionCashflowList" ->
            OptionList(h.k, e.x, e.a, e.ks, e.puts, Opt(e, "fo", "none"), Opt(e, "po", "none"), Org0(e), Ref0(e))
      [] e.cls = "OptionStrategyCashflowList" ->
            StrategyList(h.k, e.x, e.ca, e.ck, e.pa, e.pk, Opt(e, "fo", "none"), Opt(e, "po", "none"), Org0(e), Ref0(e))
\* a list made of payoffs of other lists, of numbers and of functions of the user (a without, b with something to project by)
Payoff(h, q) == CASE q[1] = "num" -> [p |-> "fix", a |-> q[2]] [] q[1] = "fn" -> [p |-> "fn", a |-> q[2], b |-> q[3]]
                  [] OTHER -> PayAt(h.o[q[1]], q[2])
MixOf(h, e) ==
    [ty |-> "cf", cls |-> e.cls, x |-> e.x, org |-> Org0(e), ref |-> Ref0(e),
     pay |-> Tuple([i \in 1..Len(e.x) |-> Payoff(h, e.of[i])])]
Plain == {"CashFlowList", "ContingentCashFlowList"}
CfErrors(h, e) ==
    IF Len(e.x) = 0 THEN {}
    ELSE LET each(f) == Opt(e, "scalar", FALSE) \/ Len(e[f]) = Len(e.x)
             some(f) == Len(e[f]) \in {1, Len(e.x)}
             opts(a, k) == Opt(e, "scalar", FALSE) \/ Len(e[a]) = Len(e[k])
         IN CASE e.cls = "OptionStrategyCashflowList" ->
                    IF 10 < Len(e.ck) + Len(e.pk) THEN {"KeyError"}
                    ELSE IF opts("ca", "ck") /\ opts("pa", "pk") THEN {} ELSE {"ValueError"}
              [] e.cls = "OptionCashflowList" -> IF each("a") /\ some("ks") /\ some("puts") THEN {} ELSE {"ValueError"}
              [] OTHER -> IF each("a") THEN {} ELSE {"ValueError"}
ProjRef(h, id, ref) == IF ref = "none" THEN "own" ELSE ref
\* rounding of doubles: size of what is added up in a flow
OptScale(h, o, ref) ==
    IF ~IsModel(h, ref) THEN Abs(o.a)
    ELSE LET m == h.o[ref]
             i == Inputs(h, m, o.ex, o.k)
         IN Mul(Abs(o.a), Mul(RMax(One, Add(Abs(i.f), Abs(i.k))), IF m.cls \in SpreadCls THEN Div("1e-2", m.sshift) ELSE One))
RECURSIVE FlowScale(_, _, _, _)
FlowScale(h, id, d, ref) ==
    LET o == h.o[id] IN
    IF o.ty = "legs" THEN RSum(Tuple([i \in 1..Len(o.legs) |-> FlowScale(h, o.legs[i], d, ref)]))
    ELSE IF ~InSeq(o.x, d) THEN Zero
    ELSE LET p == PayAt(o, d)
             r == IF ref = "own" THEN o.ref ELSE ref
         IN CASE p.p = "opt" -> OptScale(h, p, r)
              [] p.p = "strat" -> RSum(Tuple([i \in 1..Len(p.opts) |-> OptScale(h, p.opts[i], r)]))
              [] p.p = "fix" /\ "size" \in DOMAIN p -> p.size
              [] p.p = "fn" -> RMax(Abs(p.a), Abs(p.b))
              [] OTHER -> Abs(p.a)
\* the list of projected flows
CalledOf(h, e) ==
    LET x == DatesOf(h, e.src)
    IN [ty |-> "cf", cls |-> "CashFlowList", x |-> x, org |-> IF h.o[e.src].ty = "legs" THEN CfOrigin(h, e.src) ELSE h.o[e.src].org,
        ref |-> "none",
        pay |-> LET r == ProjRef(h, e.src, Ref0(e))
                IN Tuple([i \in 1..Len(x) |-> [p |-> "fix", a |-> FlowAt("as", h, e.src, x[i], r), ax |-> FlowAt("ex", h, e.src, x[i], r),
                                               size |-> FlowScale(h, e.src, x[i], r)]])]
\* a list of fixed flows made from any other list, as projected by its own reference
CopiedOf(h, e) ==
    LET c == CalledOf(h, [src |-> e.src])
    IN [c EXCEPT !.cls = "FixedCashFlowList", !.org = IF Org0(e) = "none" THEN @ ELSE e.org]
Leg(e, i) == e.id \o (IF i = 1 THEN ".0" ELSE ".1")
\* the end of a swap is given as date or as time from the start
EndOf(h, e) == IF Opt(e, "len", "none") = "none" THEN e.e ELSE Plus(h.k, e.s, e.len)
Coupons(h, e, period) ==
    IF h.k = "b" THEN BizCoupons(ToInt(e.s), ToInt(EndOf(h, e)), Tenor[period][1], e.conv, Opt(e, "hol", <<>>))
    ELSE CouponDates(e.s, e.e, period)
\* notional before each redemption
Declining(h, plan) ==
    Tuple([i \in 1..Len(plan) |-> RSum(SubSeq(plan, i, Len(plan)))])
BondOf(h, e) ==
    LET x == Coupons(h, e, e.per)
        flat == Len(e.a) = 1 /\ Opt(e, "scalar", TRUE)
        nx == IF flat THEN <<e.s, e.e>> ELSE <<e.s>> \o x
        na == IF flat THEN <<Neg(e.a[1]), e.a[1]>> ELSE <<Neg(RSum(e.a))>> \o e.a
        ia == IF flat THEN Tuple([i \in 1..Len(x) |-> e.a[1]]) ELSE Declining(h, e.a)
        h1 == Put(h, Leg(e, 1), FixedList(nx, na, e.s))
        h2 == Put(h1, Leg(e, 2), RateList(h.k, x, ia, e.s, Dc0(e), Opt(e, "fo", "none"), Opt(e, "po", "none"), e.r, Ref0(e)))
    IN Put(h2, e.id, LegList(<<Leg(e, 1), Leg(e, 2)>>))
BondErrors(h, e) ==
    IF Opt(e, "scalar", TRUE) \/ Len(e.a) = Len(Coupons(h, e, e.per)) THEN {} ELSE {"ValueError"}
SwapOf(h, e) ==
    LET px == Coupons(h, e, e.per)
        rx == Coupons(h, e, e.rper)
        l(x, a, dc, r, ref) == RateList(h.k, x, a, e.s, dc, Opt(e, "fo", "none"), Opt(e, "po", "none"), r, ref)
        h1 == Put(h, Leg(e, 1), l(px, Tuple([i \in 1..Len(px) |-> Neg(e.a[1])]), Dc0(e), e.r, Ref0(e)))
        h2 == Put(h1, Leg(e, 2), l(rx, Tuple([i \in 1..Len(rx) |-> e.a[1]]), Opt(e, "rdc", "none"), e.rr, Opt(e, "rref", "none")))
    IN Put(h2, e.id, LegList(<<Leg(e, 1), Leg(e, 2)>>))

ModelOf(e) ==
    [ty |-> "model", cls |-> e.cls, vd |-> e.vd, fwd |-> Opt(e, "fwd", "none"), vol |-> Opt(e, "vol", "none"),
     dc |-> Dc0(e), bump |-> Opt(e, "bump", FALSE), disp |-> Opt(e, "disp", Zero), inner |-> Opt(e, "inner", "none"),
     sshift |-> Opt(e, "sshift", "0.0001"),
     un |-> [f \in DOMAIN Units |-> IF Has(e, "un") /\ Has(e.un, f) THEN e.un[f] ELSE Units[f]]]

ScaleFrom(e) == IF Has(e, "pairs") THEN SortScale(e.pairs) ELSE SortScale(ScaleOf(e.names, Opt(e, "first", "none")))

\* a curve made from another one under another interpolation, or refused since points are given as well
WithItp(e, c) == IF Has(e, "itp") THEN [c EXCEPT !.itp = e.itp] ELSE c
CastErrors(e) == IF Opt(e, "via", "none") = "points" THEN {"TypeError"} ELSE {}

\* ------------------------------------------------------------------ transitions
Ops == {"new", "cast", "caston", "copyon", "clone", "shift", "arith", "set", "fix", "unfix", "spread",
        "fxnew", "fxadd", "fxsetcur", "fxsetpair", "cfnew", "cfmix", "legs", "cfcall", "cfcopy", "setrate", "setpay", "setref", "bond", "swap",
        "mnew", "mset", "scale", "rset", "arm", "disarm"}
Post(h, e) ==
    CASE e.op = "new" -> IF NewErrors(h, e) = {} THEN Put(h, e.id, NewOf(h, e)) ELSE h
      [] e.op = "cast" -> IF CastErrors(e) = {} THEN Put(h, e.id, WithItp(e, CastTo(h, e.cls, e.src, Org0(e), Dc0(e), Ten0(e)))) ELSE h
      [] e.op = "caston" -> Put(h, e.id, WithItp(e, CastOn(h, e.cls, e.src, e.x, Org0(e), Dc0(e), Ten0(e))))
      [] e.op = "copyon" -> Put(h, e.id, WithItp(e, CopyOn(h, e.cls, e.src, e.x, Org0(e), Dc0(e))))
      [] e.op = "clone" -> Put(h, e.id, CloneOf(h, e.src))
      [] e.op = "shift" -> Put(h, e.id, ShiftOf(h, e.src, e.by))
      [] e.op = "arith" -> IF ArithErrors(h, e) = {} THEN Put(h, e.id, ArithOf(h, e.a, e.b, e.fn)) ELSE h
      [] e.op = "set" -> IF SetErrors(h, e) = {} THEN SetPoint(h, e.id, e.x, e.v) ELSE h
      [] e.op = "fix" -> SetFix(h, e.id, e.x, e.v)
      [] e.op = "unfix" -> DelFix(h, e.id, e.x)
      [] e.op = "spread" -> IF e.s # "none" /\ h.o[e.id].spr # "none" THEN h ELSE SetSpread(h, e.id, e.s)
      [] e.op = "fxnew" -> FxNew(h, e)
      [] e.op = "fxadd" -> IF FxErrors(h, e) = {} THEN FxAdd(h, e.id, e.cur, e.crv, e.spot) ELSE h
      [] e.op = "fxsetcur" -> IF FxErrors(h, e) = {} THEN FxSetCur(h, e) ELSE h
      [] e.op = "fxsetpair" -> Put(h, PairId(e.id, e.d, e.f), h.o[e.crv])
      [] e.op = "cfnew" -> IF CfErrors(h, e) = {} THEN Put(h, e.id, CfOf(h, e)) ELSE h
      [] e.op = "cfmix" -> Put(h, e.id, MixOf(h, e))
      [] e.op = "legs" -> IF Has(e, "bad") THEN h ELSE Put(h, e.id, LegList(e.ids))
      [] e.op = "cfcall" -> Put(h, e.id, CalledOf(h, e))
      [] e.op = "cfcopy" -> Put(h, e.id, CopiedOf(h, e))
      [] e.op = "setrate" -> Put(h, e.id, SetRate(h.o[e.id], e.r))
      [] e.op = "setpay" -> Put(h, e.id, SetPay(h.o[e.id], e.x, e.field, e.v))
      [] e.op = "setref" -> Put(h, e.id, [h.o[e.id] EXCEPT !.ref = e.ref])
      [] e.op = "bond" -> IF BondErrors(h, e) = {} THEN BondOf(h, e) ELSE h
      [] e.op = "swap" -> SwapOf(h, e)
      [] e.op = "mnew" -> Put(h, e.id, ModelOf(e))
      [] e.op = "mset" -> Put(h, e.id, [h.o[e.id] EXCEPT ![e.field] = e.v])
      [] e.op = "scale" -> Put(h, e.id, [ty |-> "scale", ms |-> ScaleFrom(e)])
      [] e.op = "rset" -> [h EXCEPT !.o[e.id].ms = SortScale(SelectSeq(@, LAMBDA q : q[1] # e.name) \o <<<<e.name, e.v>>>>)]
      [] e.op = "arm" -> [h EXCEPT !.o = ("armed" :> TRUE) @@ @]
      [] e.op = "disarm" -> [h EXCEPT !.o = ("armed" :> FALSE) @@ @]
      [] OTHER -> h
Armed(h) == "armed" \in DOMAIN h.o /\ h.o["armed"]

\* ------------------------------------------------------------------ queries on curves
EndOr(h, e) == Opt(e, "e", "none")
\* factor and rate queries with optional end date
From(h, e) == IF EndOr(h, e) = "none" THEN Org(h, e.id) ELSE e.s
To(h, e) == IF EndOr(h, e) = "none" THEN e.s ELSE e.e
CashEnd(h, e) ==
    IF EndOr(h, e) # "none" THEN e.e
    ELSE Plus(h.k, e.s, IF Opt(e, "step", "none") = "none" THEN TenorOf(h.o[e.id]) ELSE e.step)
CashClash(h, e) ==
    EndOr(h, e) # "none" /\ Opt(e, "step", "none") # "none" /\ ~Eq(Plus(h.k, e.s, e.step), e.e)

CallBad(h, e) ==
    IF Opt(e, "eager", FALSE) THEN {}
    ELSE IF h.o[e.id].rough # "none" THEN CurveNum(h, e.id, e.out, V(h, e.id, e.x)) ELSE Value(e.out, V(h, e.id, e.x))
\* rows of the table are the curve at row date plus column offset
TableBad(h, e) ==
    IF e.out.t # "tab" THEN Fail("kind", "table")
    ELSE LET hd == e.out.head
             cols == Opt(e, "y", hd)
             own == h.o[e.id].x
             org == Org(h, e.id)
             rows == Opt(e, "x", IF InSeq(own, org) THEN own ELSE <<org>> \o own)
         IN IF Len(e.out.rows) # Len(rows) THEN Fail("rows", ToString(Len(rows)))
            ELSE IF Len(hd) # Len(cols) \/ \E j \in 1..Len(cols) : ~Eq(hd[j], cols[j]) THEN Fail("columns", ToString(cols))
            ELSE UNION { LET r == e.out.rows[i] IN
                 IF ~Eq(r.x, rows[i]) THEN Fail("row", rows[i])
                 ELSE UNION { NumTol([t |-> "n", v |-> r.v[j]], V(h, e.id, Add(rows[i], hd[j])), "1e-12", "1e-9")
                              : j \in 1..Len(r.v) }
                      \cup (IF i < Len(rows) /\ Len(r.v) # Len(SelectSeq(hd, LAMBDA y : Lt(Add(rows[i], y), rows[i + 1])))
                            THEN Fail("row-length", rows[i]) ELSE {})
                 : i \in 1..Len(rows) }
IsPlain(t) == t # "none" /\ ~IsTenorName(t)
KwBad(h, e) ==
    LET c == h.o[e.id]
        o == e.out
        d == Values(h, e.id)
    IN IF o.t # "kw" THEN Fail("kind", "kwargs")
       ELSE IF o.dom.t # "s" \/ Nums(o.dom, c.x) # {} THEN Fail("kw-domain", ToString(c.x))
       ELSE IF AtCurve(h, e.id, o.data, IF c.cls \in DefaultCls THEN Tuple([i \in 1..Len(d) |-> Sub(One, d[i])]) ELSE d) # {}
       THEN Fail("kw-data", ToString(d))
       ELSE IF o.itp # c.itp THEN Fail("kw-interpolation", c.itp)
       ELSE IF c.cls # "Curve" /\ ~(IF c.org = "none" THEN o.org = "none" ELSE o.org # "none" /\ Eq(o.org, c.org))
       THEN Fail("kw-origin", c.org)
       ELSE IF o.dc # c.dc THEN Fail("kw-day-count", c.dc)
       ELSE IF c.cls \in RateCls /\ o.ten # c.ten /\ ~(IsPlain(o.ten) /\ IsPlain(c.ten) /\ Eq(o.ten, c.ten)) THEN Fail("kw-tenor", c.ten)
       ELSE {}

\* ------------------------------------------------------------------ queries on cashflows and models
Either(o, a, b) == IF a = {} \/ b = {} THEN {} ELSE a
\* value with either variant of the normal distribution
Vary(o, Op(_), abs) ==
    IF NumTol(o, Op("as"), abs, "5e-9") = {} THEN {}
    ELSE IF NumTol(o, Op("ex"), abs, "5e-9") = {} THEN {}
    ELSE NumTol(o, Op("as"), abs, "5e-9")
\* rounding of doubles: differences of prices lose digits
Rounding(m, i, fn) ==
    LET s == RMax(One, Add(Abs(i.f), Abs(i.k)))
        spread == IF m.cls \in SpreadCls THEN Div("1e-15", m.sshift) ELSE "1e-13"
        closed(v) == ~m.bump /\ v # "none"
        u == m.un
        bumped(sc, sh) == Mul(Mul(s, "1e-14"), Div(Abs(sc), Abs(sh)))
    IN IF fn \in {"call_value", "put_value"} THEN Mul(s, spread)
       ELSE IF fn \in {"call_delta", "put_delta"} THEN (IF closed(ClosedDelta("as", m, i)) THEN Mul("1e-11", u.dsc) ELSE bumped(u.dsc, u.dsh))
       ELSE IF fn \in {"call_gamma", "put_gamma"} THEN (IF closed(ClosedGamma(m, i)) THEN Mul("1e-12", Sq(u.dsc)) ELSE bumped(Sq(u.dsc), Sq(u.dsh)))
       ELSE IF fn \in {"call_vega", "put_vega"} THEN (IF closed(ClosedVega(m, i)) THEN Mul(s, Mul("1e-14", u.vsc)) ELSE bumped(u.vsc, u.vsh))
       ELSE bumped(u.tsc, u.tsh)
MvalBad(h, e) ==
    LET m == h.o[e.id]
        k == Opt(e, "k", "none")
        i == Inputs(h, m, e.x, k)
        abs == Rounding(m, i, e.fn)
        call(var) == CallValue(var, h, m, e.x, k)
        put(var) == PutValue(var, h, m, e.x, k)
        greek(var) == Greek(var, h, m, e.fn, e.x, k)
    IN IF e.fn = "call_value" THEN Vary(e.out, call, abs)
       ELSE IF e.fn = "put_value" THEN Vary(e.out, put, abs)
       ELSE IF Vary(e.out, greek, abs) = {} THEN {}
       ELSE IF e.fn \in {"call_vega", "put_vega"} /\ ~m.bump /\ ~Expired(i)
               /\ m.cls \in {"LogNormalOptionPayOffModel", "DisplacedLogNormalOptionPayOffModel"}
               /\ NumTol(e.out, Mul(DeviantVega(m, i), m.un.vsc), abs, "1e-9") = {}
            THEN Fail("KF:lognormal-vega", Greek("as", h, m, e.fn, e.x, k))
       ELSE IF e.fn \in {"call_theta", "put_theta"} /\ ~Expired(i)
               /\ LET dev(var) == Mul(Greek(var, h, m, e.fn, e.x, k), m.un.tsh) IN Vary(e.out, dev, Mul(abs, m.un.tsh)) = {}
            THEN Fail("KF:bump-theta", Greek("as", h, m, e.fn, e.x, k))
       ELSE Vary(e.out, greek, abs)
DetailsBad(h, e) ==
    LET m == h.o[e.id]
        i == Inputs(h, m, e.x, Opt(e, "k", "none"))
        o == e.out
        f(n, v) == IF n \in DOMAIN o.v THEN (IF Close(o.v[n], v) THEN {} ELSE Fail(n, v)) ELSE IF IsZero(v) THEN {} ELSE Fail(n, v)
    IN IF o.t # "r" THEN Fail("kind", "details")
       ELSE f("time to expiry", i.t) \cup f("strike", i.k) \cup f("forward", i.f) \cup f("volatility", i.v)
            \cup f("valuation date", m.vd)

FlowBad(o, h, id, d, ref) ==
    LET f(var) == FlowAt(var, h, id, d, ref)
        fits(abs) == NumTol(o, f("as"), abs, "1e-9") = {} \/ NumTol(o, f("ex"), abs, "1e-9") = {}
    IN IF fits("1e-12") THEN {}
       ELSE IF IsNum(o) /\ fits(Add("1e-12", Mul("1e-13", FlowScale(h, id, d, ref)))) THEN {}
       ELSE NumTol(o, f("as"), "1e-12", "1e-9")
FlowsBad(o, h, id, ds, ref) ==
    IF o.t # "s" THEN Fail("kind", "flows")
    ELSE IF Len(o.v) # Len(ds) THEN Fail("length", ToString(Len(ds)))
    ELSE UNION {FlowBad([t |-> IF o.v[i] = "nan" THEN "nan" ELSE "n", v |-> o.v[i]], h, id, ds[i], ref) : i \in 1..Len(ds)}
\* columns of options: present, or not given if nothing is to tell
Column(r, f, v) ==
    IF f \in DOMAIN r /\ r[f] # "nan" THEN (IF Close(r[f], v) THEN {} ELSE Fail("table-" \o f, v))
    ELSE IF IsZero(v) THEN {} ELSE Fail("table-" \o f, v)
OptionRow(h, r, p, ref) ==
    LET side == [f \in {"put/call", "long/short"} |-> IF f = "put/call" THEN (IF p.put THEN "put" ELSE "call") ELSE IF Pos(p.a) THEN "long" ELSE "short"]
    IN UNION {IF f \in DOMAIN r /\ r[f] = side[f] THEN {} ELSE Fail("table-" \o f, side[f]) : f \in DOMAIN side}
       \cup Column(r, "notional", p.a) \cup Column(r, "expiry date", p.ex)
       \cup (IF p.k = "none" THEN {} ELSE Column(r, "strike", p.k))
       \cup (IF ~IsModel(h, ref) THEN {}
             ELSE LET m == h.o[ref]
                      i == Inputs(h, m, p.ex, p.k)
                  IN Column(r, "strike", i.k) \cup Column(r, "forward", i.f) \cup Column(r, "volatility", i.v)
                     \cup Column(r, "time to expiry", i.t) \cup Column(r, "valuation date", m.vd))
\* worth of the caplets and floorlets
CollarRow(h, r, p, m) ==
    LET d == FixingDate(h, p)
        size == Mul(YearFraction(h, p), p.a)
        i == Inputs(h, m, d, Zero)
        worth(f, val(_)) ==
            LET fits(var) == NumTol([t |-> "n", v |-> r[f]], Mul(size, val(var)), Add("1e-12", Mul("1e-13", Abs(p.a))), "1e-9") = {}
            IN IF f \in DOMAIN r /\ r[f] # "nan" /\ (fits("as") \/ fits("ex")) THEN {} ELSE Fail("table-" \o f, Mul(size, val("as")))
    IN (IF p.flr = "none" THEN {}
        ELSE worth("floorlet", LAMBDA var : PutValue(var, h, m, d, p.flr)) \cup Column(r, "floorlet strike", p.flr) \cup Column(r, "floorlet volatility", i.v))
       \cup (IF p.cap = "none" THEN {}
             ELSE worth("caplet", LAMBDA var : CallValue(var, h, m, d, p.cap)) \cup Column(r, "caplet strike", p.cap) \cup Column(r, "caplet volatility", i.v))
       \cup (IF p.flr = "none" /\ p.cap = "none" THEN {} ELSE Column(r, "time to expiry", i.t))
\* rows of a cashflow table: date, flow and the data of the period
TabBad(h, e) ==
    LET ds == DatesOf(h, e.id)
        o == e.out
        cf == h.o[e.id]
        n(r, f, v) == IF ~(f \in DOMAIN r) THEN Fail("table-" \o f, v)
                      ELSE IF r[f] # "nan" /\ Close(r[f], v) THEN {} ELSE Fail("table-" \o f, v)
    IN IF o.t # "rows" THEN Fail("kind", "table")
       ELSE IF Len(o.v) # Len(ds) THEN Fail("table-rows", ToString(Len(ds)))
       ELSE UNION { LET r == o.v[i] IN
            n(r, "pay date", ds[i])
            \cup (IF "cashflow" \in DOMAIN r /\ r["cashflow"] # "nan"
                  THEN {[b EXCEPT !.c = "table-cashflow"] : b \in FlowBad([t |-> "n", v |-> r["cashflow"]], h, e.id, ds[i], "own")}
                  ELSE Fail("table-cashflow", "number"))
            \cup (IF cf.ty = "cf" /\ cf.cls \in Plain THEN {}
                  ELSE IF cf.ty = "cf" /\ HasRate(cf.pay[i])
                  THEN LET p == cf.pay[i]
                       IN n(r, "start date", p.s) \cup n(r, "end date", p.e) \cup n(r, "year fraction", YearFraction(h, p))
                          \cup n(r, "fixed rate", p.r) \cup n(r, "notional", p.a)
                          \cup (IF ForwardRef(h, cf.ref) # "none"
                                THEN n(r, "forward rate", Projected(h, p, cf.ref)) \cup n(r, "fixing date", FixingDate(h, p))
                                ELSE {})
                          \cup (IF p.p = "crate" /\ IsModel(h, cf.ref) THEN CollarRow(h, r, p, h.o[cf.ref]) ELSE {})
                  ELSE IF cf.ty = "cf" /\ cf.pay[i].p = "opt" THEN OptionRow(h, r, cf.pay[i], cf.ref)
                  ELSE {})
            : i \in 1..Len(ds) }
RECURSIVE PayoffBad(_, _)
PayoffBad(h, e) ==
    LET cf == h.o[e.id] IN
    IF Has(e, "xs")
    THEN IF e.out.t # "payoffs" \/ Len(e.out.v) # Len(e.xs) THEN Fail("kind", "payoffs")
         ELSE UNION {PayoffBad(h, [id |-> e.id, x |-> e.xs[i], out |-> e.out.v[i]]) : i \in 1..Len(e.xs)}
    ELSE IF ~InSeq(cf.x, e.x) THEN Done(e.out)
    ELSE LET p == PayAt(cf, e.x)
             o == e.out
             n(f, v) == IF f \in DOMAIN o.v /\ Close(o.v[f], v) THEN {} ELSE Fail("payoff-" \o f, v)
         IN IF o.t # "r" THEN Fail("kind", "payoff")
            ELSE CASE p.p = "fix" -> n("amount", p.a)
                   [] HasRate(p) -> n("amount", p.a) \cup n("start", p.s) \cup n("end", p.e) \cup n("fixed_rate", p.r)
                   [] p.p = "opt" -> n("amount", p.a) \cup n("expiry", p.ex)
                   [] OTHER -> {}

\* ------------------------------------------------------------------ valuation
VdOf(h, e) == IF Opt(e, "vd", "none") # "none" THEN e.vd ELSE Org(h, e.disc)
\* rounding of doubles in what is added up in flows, in terms of present value
PvScale(h, e) ==
    LET ds == SelectSeq(DatesOf(h, e.id), LAMBDA d : Le(VdOf(h, e), d))
    IN RSum(Tuple([i \in 1..Len(ds) |-> Mul(Abs(CF(h, e.disc, VdOf(h, e), ds[i])), FlowScale(h, e.id, ds[i], "own"))]))
PvTol(o, h, e, v) ==
    LET g == Gross("as", h, e.id, e.disc, VdOf(h, e))
        abs == Add("1e-12", Mul(g, "1e-11"))
    IN IF NumTol(o, v, abs, "1e-9") = {} THEN {} ELSE NumTol(o, v, Add(abs, Mul("1e-13", PvScale(h, e))), "1e-9")
PvBad(h, e) ==
    LET a == PvTol(e.out, h, e, PV("as", h, e.id, e.disc, VdOf(h, e)))
    IN IF a = {} THEN {} ELSE IF PvTol(e.out, h, e, PV("ex", h, e.id, e.disc, VdOf(h, e))) = {} THEN {} ELSE a
Lo(e) == IF Has(e, "bounds") THEN e.bounds[1] ELSE "-0.1"
Hi(e) == IF Has(e, "bounds") THEN e.bounds[2] ELSE "0.2"
Prec(e) == Opt(e, "prec", "1e-7")
\* a root of F within precision of r; F(lo) and F(hi) must have opposite signs, otherwise AssertionError
RootBad(o, e, F(_), scale) ==
    LET fl == F(Lo(e))
        fh == F(Hi(e))
        eps == Mul("1e-9", RMax(scale, "1e-3"))
        opposite(a, b) == (Le(a, Zero) /\ Le(Zero, b)) \/ (Le(b, Zero) /\ Le(Zero, a))
        edge == Le(Abs(fl), eps) \/ Le(Abs(fh), eps)
        p == Mul(Prec(e), "1.01")
    IN IF ~opposite(fl, fh)
       THEN (IF edge THEN {} ELSE Raises(o, {"AssertionError"}))
       ELSE IF ~IsNum(o) THEN (IF edge THEN {} ELSE Fail("kind", "root"))
       ELSE LET a == F(Sub(o.v, p))
                b == F(Add(o.v, p))
            IN IF opposite(a, b) \/ Le(Abs(a), eps) \/ Le(Abs(b), eps) THEN {}
               ELSE Fail("not-a-root", "f(r-p)=" \o a \o " f(r+p)=" \o b)
YtmBad(h, e) ==
    LET vd == IF Opt(e, "vd", "none") # "none" THEN e.vd ELSE CfOrigin(h, e.id)
        dc == Opt(e, "dc", "none")
        f(r) == Sub(PvAtYieldBy(h, e.id, vd, r, dc), e.pv)
    IN RootBad(e.out, e, f, Add(Abs(e.pv), Gross("as", FlatZero(h, vd, Zero, dc), e.id, "z'", vd)))
FairBad(h, e) ==
    LET f(r) == Sub(PvAtRate(h, e.id, e.disc, VdOf(h, e), r), e.pv)
    IN RootBad(e.out, e, f, Add(Abs(e.pv), Gross("as", h, e.id, e.disc, VdOf(h, e))))
Numbers(n) == Tuple([i \in 1..n |-> i])
\* curve fit: with the fitted values on the grid the instruments maturing up to a grid date reprice
FitBad(h, e) ==
    LET fc == IF Opt(e, "fitc", "none") = "none" THEN e.disc ELSE e.fitc
        c == h.o[fc]
        grid == IF Has(e, "grid") THEN e.grid ELSE c.x
        o == e.out
        vd == VdOf(h, e)
        base == Tuple([i \in 1..Len(grid) |-> V(h, fc, grid[i])])
        last(id) == MaxOf(DatesOf(h, id))
        pvs(i) == IF Len(e.pv) = 1 THEN e.pv[1] ELSE e.pv[i]
        err(i, data) ==
            LET s == Raw(h.k, c.cls, grid, Tuple([j \in 1..Len(grid) |-> Sub(data[j], base[j])]), "none",
                         IF c.cls \in ResolvesOrigin THEN OrgOf(c) ELSE c.org, c.dc, "none")
                h2 == SetSpread(Put(h, "f'", s), fc, "f'")
                due == SelectSeq(Tuple([j \in 1..Len(e.ids) |-> j]), LAMBDA j : Le(last(e.ids[j]), grid[i]))
            IN RSum(Tuple([j \in 1..Len(due) |-> Sub(PV("as", h2, e.ids[due[j]], e.disc, vd), pvs(due[j]))]))
        opposite(a, b) == (Le(a, Zero) /\ Le(Zero, b)) \/ (Le(b, Zero) /\ Le(Zero, a))
        p == Mul(Prec(e), "1.01")
        bumped(i, d) == [o.v EXCEPT ![i] = Add(@, d)]
        \* bootstrapping by bisection; none if there is a date without root
        halve(i, data) ==
            LET f(x) == err(i, [data EXCEPT ![i] = x])
                up == Lt(f(Add(base[i], Lo(e))), f(Add(base[i], Hi(e))))
                cut(ab) == LET m == Div(Add(ab[1], ab[2]), "2") IN IF (Lt(f(m), Zero)) = up THEN <<m, ab[2]>> ELSE <<ab[1], m>>
            IN FoldLeft(LAMBDA ab, n : cut(ab), <<Add(base[i], Lo(e)), Add(base[i], Hi(e))>>, Numbers(36))[1]
        found(i, data) ==
            opposite(err(i, [data EXCEPT ![i] = Add(base[i], Lo(e))]), err(i, [data EXCEPT ![i] = Add(base[i], Hi(e))]))
        boot == FoldLeft(LAMBDA data, i : IF data = <<>> \/ ~found(i, data) THEN <<>> ELSE [data EXCEPT ![i] = halve(i, data)], base, Numbers(Len(grid)))
    IN IF o.t = "x" THEN (IF boot = <<>> THEN Raises(o, {"AssertionError"}) ELSE Fail("kind", "fit"))
       ELSE IF o.t # "s" THEN Fail("kind", "fit")
       ELSE IF Len(o.v) # Len(grid) THEN Fail("length", ToString(Len(grid)))
       ELSE UNION { LET a == err(i, bumped(i, Neg(p)))
                        b == err(i, bumped(i, p))
                    IN IF opposite(a, b) \/ Le(Abs(a), "1e-9") \/ Le(Abs(b), "1e-9") THEN {} ELSE Fail("fit", grid[i])
                    : i \in 1..Len(grid) }
Deltas(e) == IF Has(e, "del") THEN e.del ELSE <<e.disc>>
Shift0(e) == Opt(e, "shift", "0.0001")
SensTol(h, e) == Add("1e-12", Mul(Add(Gross("as", h, e.id, e.disc, VdOf(h, e)), PvScale(h, e)), Div("1e-18", Abs(Shift0(e)))))
BpvBad(h, e) ==
    IF HasSpread(h, Deltas(e)) THEN Raises(e.out, {"TypeError"})
    ELSE NumTol(e.out, Bpv(h, e.id, e.disc, VdOf(h, e), Deltas(e), Shift0(e)), SensTol(h, e), "1e-7")
BucketBad(h, e) ==
    LET g == IF Has(e, "grid") THEN e.grid ELSE h.o[e.disc].x
        w == Buckets(h, e.id, e.disc, VdOf(h, e), Deltas(e), g, Shift0(e))
    IN IF HasSpread(h, Deltas(e)) THEN Raises(e.out, {"TypeError"})
       ELSE IF e.out.t # "s" THEN Fail("kind", "buckets")
       ELSE IF Len(e.out.v) # Len(g) THEN Fail("length", ToString(Len(g)))
       ELSE UNION {NumTol([t |-> IF e.out.v[i] = "nan" THEN "nan" ELSE "n", v |-> e.out.v[i]], w[i], SensTol(h, e), "1e-7") : i \in 1..Len(g)}

\* ------------------------------------------------------------------ ratings
\* classes without scale have nothing to decompose into; names must be known
Scaled(h, e) == e.ms # "none"
Unknown(h, e) == Has(e, "name") /\ (~Scaled(h, e) \/ ~InScale(h.o[e.ms].ms, e.name))
Rated(h, e) == IF Has(e, "name") THEN ValueOf(h.o[e.ms].ms, e.name) ELSE e.v
VecBad(h, e) ==
    LET ms == h.o[e.ms].ms
        v == Rated(h, e)
        want == IF Embraced(ms, v) THEN Weights(ms, v) ELSE Sloppy(ms, v)
    IN IF Unknown(h, e) THEN Raises(e.out, {"TypeError"})
       ELSE IF ~Scaled(h, e) THEN Nums(e.out, <<>>)
       ELSE IF ~Embraced(ms, v) /\ ~Opt(e, "sloppy", FALSE) THEN Raises(e.out, {"ValueError"})
       ELSE IF e.out.t # "s" THEN Fail("kind", "vector")
       ELSE IF Len(e.out.v) # Len(ms) THEN Fail("length", ToString(Len(ms)))
       ELSE UNION {NumTol([t |-> "n", v |-> e.out.v[i]], want[i], "1.5e-7", "1e-7") : i \in 1..Len(ms)}
RvalBad(h, e) == IF Unknown(h, e) THEN Raises(e.out, {"TypeError"}) ELSE Num(e.out, Rated(h, e))
ScaleBad(h, e) ==
    LET ms == h.o[e.id].ms
        o == e.out
    IN IF o.t # "scale" THEN Fail("kind", "scale")
       ELSE IF Len(o.keys) # Len(ms) THEN Fail("length", ToString(Len(ms)))
       ELSE UNION {(IF o.keys[i] = ms[i][1] THEN {} ELSE Fail("scale-name", ms[i][1]))
                   \cup NumTol([t |-> "n", v |-> o.vals[i]], ms[i][2], "1e-13", "1e-9") : i \in 1..Len(ms)}
\* name of the class or the weighted names of the classes
NameBad(h, e) ==
    LET ms == h.o[e.ms].ms
        v == Rated(h, e)
        o == e.out
        ns == NamesAt(ms, v)
        w == Weights(ms, v)
        kept == SelectSeq(Numbers(Len(ms)), LAMBDA i : Lt("1e-7", w[i]))
    IN IF Unknown(h, e) THEN Raises(o, {"TypeError"})
       ELSE IF ~Scaled(h, e) THEN (IF o.t = "str" THEN {} ELSE Fail("kind", "name"))
       ELSE IF ns # {} THEN (IF o.t = "str" /\ o.v \in ns THEN {} ELSE Fail("name", ToString(ns)))
       ELSE IF ~Embraced(ms, v) THEN Raises(o, {"ValueError"})
       ELSE IF o.t # "str" THEN Fail("kind", "name")
       ELSE IF o.names # Tuple([i \in 1..Len(kept) |-> ms[kept[i]][1]]) THEN Fail("mix", ToString(kept))
       ELSE UNION {NumTol([t |-> "n", v |-> o.weights[i]], w[kept[i]], "1.5e-7", "1e-7") : i \in 1..Len(kept)}

InterpBad(e) ==
    LET ps == SortPoints(Tuple([i \in 1..Len(e.xs) |-> <<e.xs[i], e.ys[i]>>]))
    IN IF Has(e, "ask") THEN Bool(e.out, HasX(ps, e.x))
       ELSE Value(e.out, IF Has(e, "parts") THEN EvalParts(e.parts, ps, e.x) ELSE Interpolate(e.f, ps, e.x))
InterpNewErrors(e) ==
    LET ps == Tuple([i \in 1..Len(e.xs) |-> <<e.xs[i], e.ys[i]>>])
    IN IF Has(e, "parts")
       THEN IF \E i, j \in 1..Len(ps) : i # j /\ Eq(ps[i][1], ps[j][1]) THEN {"AssertionError"}
            ELSE IF (\E i \in 1..3 : e.parts[i] \in LogLike) /\ \E i \in 1..Len(ps) : ~Pos(ps[i][2]) THEN {"ValueError"} ELSE {}
       ELSE DataError(e.f, ps)

\* ------------------------------------------------------------------ verdict on an event
Bad0(h, e) ==
    LET o == e.out IN
    CASE e.op = "new" -> Built(o, NewErrors(h, e))
      \* a zero divisor might be tiny in floating point arithmetic
      [] e.op = "arith" -> IF ArithErrors(h, e) = {"ZeroDivisionError"} /\ o.t = "none" THEN {} ELSE Built(o, ArithErrors(h, e))
      [] e.op = "set" -> Built(o, SetErrors(h, e))
      [] e.op = "spread" -> Built(o, IF e.s # "none" /\ h.o[e.id].spr # "none" THEN {"TypeError"} ELSE {})
      [] e.op = "cast" -> Built(o, CastErrors(e))
      [] e.op \in {"caston", "copyon", "clone", "shift", "fix", "unfix", "fxnew", "fxsetpair", "cfmix",
                   "setrate", "setpay", "setref", "swap", "mnew", "mset", "scale", "rset", "arm", "disarm"} -> Done(o)
      [] e.op \in {"fxadd", "fxsetcur"} -> Built(o, FxErrors(h, e))
      [] e.op = "cfnew" -> Built(o, CfErrors(h, e))
      [] e.op = "legs" -> Built(o, IF Has(e, "bad") THEN {"ValueError"} ELSE {})
      [] e.op = "bond" -> Built(o, BondErrors(h, e))
      [] e.op = "call" -> CallBad(h, e)
      [] e.op = "calls" -> AtCurve(h, e.id, o, Tuple([i \in 1..Len(e.xs) |-> V(h, e.id, e.xs[i])]))
      [] e.op = "in" -> Bool(o, InSeq(h.o[e.id].x, e.x))
      [] e.op = "get" -> IF InSeq(h.o[e.id].x, e.x) THEN CurveNum(h, e.id, o, V(h, e.id, e.x)) ELSE Raises(o, {"KeyError"})
      [] e.op \in {"dom", "iter"} -> Nums(o, h.o[e.id].x)
      [] e.op = "org" -> Num(o, Org(h, e.id))
      [] e.op = "kw" -> KwBad(h, e)
      [] e.op = "ten" -> Str(o, TenorOf(h.o[e.id]))
      [] e.op = "isspread" -> Bool(o, h.o[e.id].spr = e.s)
      [] e.op = "dcnt" -> Num(o, Dc(h, e.id, From(h, e), To(h, e)))
      [] e.op = "integ" -> NumTol(o, Mean(h, e.id, e.s, e.e), "2e-6", IF ItpOf(h.o[e.id]) = "constant" THEN "2e-3" ELSE "1e-4")
      [] e.op = "deriv" -> NumTol(o, Div(Sub(V(h, e.id, NextDay(h, e.x)), V(h, e.id, e.x)), Dc(h, e.id, e.x, NextDay(h, e.x))), "1e-8", "1e-6")
      [] e.op = "table" -> TableBad(h, e)
      [] e.op \in {"df", "surv"} -> Num(o, CF(h, e.id, From(h, e), To(h, e)))
      [] e.op \in {"zero", "intens"} -> Num(o, CR(h, e.id, From(h, e), To(h, e)))
      [] e.op \in {"short", "hazard"} -> Num(o, Inst(h, e.id, e.s))
      [] e.op = "cash" -> IF CashClash(h, e) THEN Raises(o, {"AssertionError"}) ELSE Num(o, Cash(h, e.id, e.s, CashEnd(h, e)))
      [] e.op = "annuity" -> Num(o, Annuity(h, e.id, e.xs))
      [] e.op = "ivol" -> LET v == InstVol(h, e.id, e.s)
                          IN IF v = "ZeroDivisionError" THEN Raises(o, {v}) ELSE NumTol(o, v, "1e-7", "1e-6")
      [] e.op = "tvol" -> LET v == IF EndOr(h, e) = "none" THEN TermVol0(h, e.id, e.s) ELSE TermVol(h, e.id, e.s, e.e)
                          IN IF v = "ZeroDivisionError" THEN Raises(o, {v})
                             ELSE NumTol(o, v, "1e-7", Digits(h.o[e.id]))
      [] e.op = "fwd" -> Num(o, V(h, e.id, e.x))
      [] e.op = "fxfwd" -> Num(o, V(h, PairId(e.id, e.d, e.f), e.x))
      [] e.op = "fxrow" -> IF o.t = "set" /\ ToSet(o.v) = {f \in h.o[e.id].curs : TRUE} THEN {} ELSE Fail("fx-row", ToString(h.o[e.id].curs))
      [] e.op = "interp" -> IF InterpNewErrors(e) # {} THEN Raises(o, InterpNewErrors(e)) ELSE InterpBad(e)
      [] e.op = "plan" -> Nums(o, Plan(e.fn, e.n, e.amt, Opt(e, "rate", "0.01")))
      [] e.op = "outst" -> Nums(o, Outstanding(e.plan, e.amt, e.sign))
      [] e.op = "comp" -> Num(o, Compound(e.fn, e.a))
      [] e.op = "mval" -> MvalBad(h, e)
      [] e.op = "mdet" -> DetailsBad(h, e)
      [] e.op = "cfget" -> FlowBad(o, h, e.id, e.x, "own")
      [] e.op = "cfgets" -> FlowsBad(o, h, e.id, e.xs, "own")
      [] e.op = "cfcall" -> FlowsBad(o, h, e.src, DatesOf(h, e.src), ProjRef(h, e.src, Ref0(e)))
      [] e.op = "cfcopy" -> FlowsBad(o, h, e.src, DatesOf(h, e.src), "own")
      [] e.op = "cftab" -> TabBad(h, e)
      [] e.op = "cfdom" -> Nums(o, DatesOf(h, e.id))
      [] e.op = "cforg" -> Num(o, CfOrigin(h, e.id))
      [] e.op = "getrate" -> IF RateOf(h.o[e.id]) = "none" THEN Done(o) ELSE Num(o, RateOf(h.o[e.id]))
      [] e.op = "payoff" -> PayoffBad(h, e)
      [] e.op = "pv" -> PvBad(h, e)
      [] e.op = "ytm" -> YtmBad(h, e)
      [] e.op = "fair" -> FairBad(h, e)
      [] e.op = "fit" -> FitBad(h, e)
      [] e.op = "bpv" -> BpvBad(h, e)
      [] e.op = "bucket" -> BucketBad(h, e)
      [] e.op = "accr" -> Num(o, Accrued(h, e.id, e.vd))
      [] e.op = "mvd" -> Num(o, h.o[e.id].vd)
      [] e.op = "rvec" -> VecBad(h, e)
      [] e.op = "rname" -> NameBad(h, e)
      [] e.op = "rval" -> RvalBad(h, e)
      [] e.op = "rget" -> IF InScale(h.o[e.ms].ms, e.name) THEN Num(o, ValueOf(h.o[e.ms].ms, e.name))
                          ELSE IF Has(e, "else") THEN Num(o, e["else"]) ELSE Done(o)
      [] e.op = "rscale" -> ScaleBad(h, e)
      [] e.op = "dadd" -> Num(o, Move(h.k, e.x, e.by, e.sgn))
      [] OTHER -> Fail("unknown-op", e.op)
\* an object which was refused is not there for later events
Creations == {"new", "cast", "caston", "copyon", "clone", "shift", "arith", "fxnew", "cfnew", "cfmix", "cfcall", "cfcopy", "legs", "bond", "swap", "mnew", "scale"}
Gone(h, e) ==
    \/ /\ e.op \notin Creations /\ Has(e, "id") /\ e.id \notin DOMAIN h.o
    \/ /\ e.op = "arith" /\ {e.a, e.b} \ DOMAIN h.o # {}
    \/ /\ Has(e, "src") /\ e.src \notin DOMAIN h.o
Bad(h, e) == IF Armed(h) /\ e.out.t = "x" /\ e.out.v = "Boom" THEN {} ELSE Bad0(h, e)
=============================================================================
