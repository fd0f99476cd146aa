------------------------------- MODULE Pricer -------------------------------
(***************************************************************************)
(* Valuation: present value, par rates and yields, curve fit, sensitivities*)
(* and accrued interest.                                                   *)
(***************************************************************************)
EXTENDS Cashflows

\* the model of a list values its options as of the valuation date
AsOf(h, ref, vd) == IF IsModel(h, ref) THEN Put(h, ref, [h.o[ref] EXCEPT !.vd = vd]) ELSE h

RECURSIVE PV(_, _, _, _, _)
PV(var, h, id, disc, vd) ==
    LET o == h.o[id] IN
    IF o.ty = "legs" THEN RSum(Tuple([i \in 1..Len(o.legs) |-> PV(var, h, o.legs[i], disc, vd)]))
    ELSE LET hv == AsOf(h, o.ref, vd)
             ds == SelectSeq(o.x, LAMBDA d : Le(vd, d))
         IN RSum(Tuple([i \in 1..Len(ds) |-> Mul(CF(h, disc, vd, ds[i]), FlowAt(var, hv, id, ds[i], "own"))]))
ValDate(h, disc, vd) == IF vd = "none" THEN Org(h, disc) ELSE vd

\* size of the discounted flows, the scale of rounding errors
RECURSIVE Gross(_, _, _, _, _)
Gross(var, h, id, disc, vd) ==
    LET o == h.o[id] IN
    IF o.ty = "legs" THEN RSum(Tuple([i \in 1..Len(o.legs) |-> Gross(var, h, o.legs[i], disc, vd)]))
    ELSE LET hv == AsOf(h, o.ref, vd)
             ds == SelectSeq(o.x, LAMBDA d : Le(vd, d))
         IN RSum(Tuple([i \in 1..Len(ds) |-> Abs(Mul(CF(h, disc, vd, ds[i]), FlowAt(var, hv, id, ds[i], "own")))]))

\* present value with a flat zero rate
FlatZero(h, vd, r, dc) == Put(h, "z'", New(h.k, "ZeroRateCurve", <<vd>>, <<r>>, "none", "none", dc, "none"))
PvAtYieldBy(h, id, vd, r, dc) == PV("as", FlatZero(h, vd, r, dc), id, "z'", vd)
PvAtYield(h, id, vd, r) == PvAtYieldBy(h, id, vd, r, "none")
PvAtRate(h, id, disc, vd, r) == PV("as", Put(h, id, SetRate(h.o[id], r)), id, disc, vd)

\* spread curves put on all curves of ids
RECURSIVE Spreaded(_, _, _)
Spreaded(h, ids, sid) ==
    IF ids = <<>> THEN h ELSE Spreaded(SetSpread(h, Head(ids), sid), Tail(ids), sid)
Parallel(h, id, shift) == New(h.k, "DateCurve", <<Org(h, id)>>, <<shift>>, "none", "none", "none", "none")
RECURSIVE ParallelAll(_, _, _)
ParallelAll(h, ids, shift) ==
    IF ids = <<>> THEN h
    ELSE LET id == Head(ids)
             sid == "p'" \o id
         IN ParallelAll(SetSpread(Put(h, sid, Parallel(h, id, shift)), id, sid), Tail(ids), shift)
HasSpread(h, ids) == \E i \in 1..Len(ids) : h.o[ids[i]].spr # "none"

Bpv(h, id, disc, vd, ids, shift) ==
    LET h2 == ParallelAll(h, ids, shift)
    IN Mul(Div(Sub(PV("as", h2, id, disc, vd), PV("as", h, id, disc, vd)), shift), "0.0001")

\* triangular spreads over the grid
BucketGrid(g, i) ==
    LET n == Len(g) IN
    IF n <= 2 THEN g
    ELSE IF i = 1 THEN <<g[1], g[2]>> ELSE IF i = n THEN <<g[n - 1], g[n]>> ELSE <<g[i - 1], g[i], g[i + 1]>>
BucketShift(g, i, shift) ==
    LET n == Len(g) IN
    IF n = 1 THEN <<shift>>
    ELSE IF i = 1 THEN <<shift, Zero>> ELSE IF i = n THEN <<Zero, shift>> ELSE <<Zero, shift, Zero>>
Bucket(h, id, disc, vd, ids, g, i, shift) ==
    LET s == New(h.k, "DateCurve", BucketGrid(g, i), BucketShift(g, i, shift), "none", "none", "none", "none")
        h2 == Spreaded(Put(h, "s'", s), ids, "s'")
    IN Mul(Div(Sub(PV("as", h2, id, disc, vd), PV("as", h, id, disc, vd)), shift), "0.0001")
Buckets(h, id, disc, vd, ids, g, shift) ==
    Tuple([i \in 1..Len(g) |-> Bucket(h, id, disc, vd, ids, g, i, shift)])

\* interest earned up to the valuation date
AccruedOf(h, o, i, vd) ==
    LET p == o.pay[i] IN
    IF Le(vd, o.x[i]) /\ HasRate(p) /\ Lt(p.s, vd)
    THEN Mul(Flow("as", h, p, o.ref),
             RMin(Sub(One, Div(DayCount(h.k, p.dc, vd, p.e), DayCount(h.k, p.dc, p.s, p.e))), One))
    ELSE Zero
RECURSIVE Accrued(_, _, _)
Accrued(h, id, vd) ==
    LET o == h.o[id] IN
    IF o.ty = "legs" THEN RSum(Tuple([i \in 1..Len(o.legs) |-> Accrued(h, o.legs[i], vd)]))
    ELSE RSum(Tuple([i \in 1..Len(o.x) |-> AccruedOf(h, o, i, vd)]))
=============================================================================
