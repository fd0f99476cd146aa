------------------------------- MODULE Interp -------------------------------
(***************************************************************************)
(* Interpolation of a sequence ks of points <<x, y>>, ascending in x.      *)
(***************************************************************************)
EXTENDS RealNum

Below(ks, x) == Len(SelectSeq(ks, LAMBDA p : Lt(p[1], x)))     \* points with x_i < x
UpTo(ks, x)  == Len(SelectSeq(ks, LAMBDA p : Le(p[1], x)))     \* points with x_i <= x
HasX(ks, x)  == \E i \in 1..Len(ks) : Eq(ks[i][1], x)
YAt(ks, x)   == ks[CHOOSE i \in 1..Len(ks) : Eq(ks[i][1], x)][2]
NonZero(ks)  == SelectSeq(ks, LAMBDA p : ~IsZero(p[1]))

LeftV(ks, x)  == ks[IMax(UpTo(ks, x), 1)][2]
RightV(ks, x) == ks[IMin(Below(ks, x) + 1, Len(ks))][2]
Line(p, q, x) == Add(p[2], Mul(Sub(q[2], p[2]), Div(Sub(x, p[1]), Sub(q[1], p[1]))))
LinearV(ks, x) ==
    IF Len(ks) = 1 THEN ks[1][2]
    ELSE LET j == Clamp(Below(ks, x), 1, Len(ks) - 1) IN Line(ks[j], ks[j + 1], x)
NearestV(ks, x) ==
    IF Len(ks) = 1 THEN ks[1][2]
    ELSE LET j == Clamp(Below(ks, x), 1, Len(ks) - 1)
             w == Div(Sub(x, ks[j][1]), Sub(ks[j + 1][1], ks[j][1]))
         IN IF Le(w, "0.5") THEN ks[j][2] ELSE ks[j + 1][2]
LogOf(ks) == Tuple([i \in 1..Len(ks) |-> <<ks[i][1], Ln(ks[i][2])>>])
LogRateOf(ks) == LET nz == NonZero(ks) IN Tuple([i \in 1..Len(nz) |-> <<nz[i][1], Div(Ln(nz[i][2]), nz[i][1])>>])
AtZero(ks) == IF HasX(ks, Zero) THEN YAt(ks, Zero) ELSE One

\* a single function; "None" is no value, "OverflowError" no points
Base == {"no", "zero", "left", "constant", "right", "nearest", "linear",
         "loglinear", "loglinearrate", "logconstantrate"}
EvalBase(f, ks, x) ==
    IF f = "no" THEN (IF HasX(ks, x) THEN YAt(ks, x) ELSE "None")
    ELSE IF f = "zero" THEN (IF HasX(ks, x) THEN YAt(ks, x) ELSE Zero)
    ELSE IF f \in {"loglinearrate", "logconstantrate"} /\ IsZero(x) THEN AtZero(ks)
    ELSE IF Len(ks) = 0 \/ (f \in {"loglinearrate", "logconstantrate"} /\ NonZero(ks) = <<>>) THEN "OverflowError"
    ELSE CASE f \in {"left", "constant"} -> LeftV(ks, x)
           [] f = "right" -> RightV(ks, x)
           [] f = "nearest" -> NearestV(ks, x)
           [] f = "linear" -> LinearV(ks, x)
           [] f = "loglinear" -> Exp(LinearV(LogOf(ks), x))
           [] f = "loglinearrate" -> Exp(Mul(x, LinearV(LogRateOf(ks), x)))
           [] f = "logconstantrate" -> Exp(Mul(x, LeftV(LogRateOf(ks), x)))

RateLike == {"loglinearrate", "logconstantrate"}
LogLike == {"loglinear", "loglinearrate", "logconstantrate"}

\* left extrapolation, interpolation, right extrapolation
EvalParts(p, ks, x) ==
    LET l == IF p[1] \in RateLike THEN NonZero(ks) ELSE ks
        r == IF p[3] \in RateLike THEN NonZero(ks) ELSE ks
    IN IF l = <<>> \/ r = <<>> THEN "IndexError"
       ELSE IF Lt(x, l[1][1]) THEN EvalBase(p[1], ks, x)
       ELSE IF Lt(r[Len(r)][1], x) THEN EvalBase(p[3], ks, x)
       ELSE EvalBase(p[2], ks, x)

Scheme == [ s \in {"linear_scheme", "constant_linear_constant", "log_linear_scheme",
                   "logconstant_loglinear_logconstant", "log_linear_rate_scheme",
                   "logconstantrate_loglinearrate_logconstantrate",
                   "zero_linear_scheme", "zero_linear_constant"} |->
    CASE s \in {"linear_scheme", "constant_linear_constant"} -> <<"constant", "linear", "constant">>
      [] s \in {"log_linear_scheme", "logconstant_loglinear_logconstant"} -> <<"constant", "loglinear", "constant">>
      [] s \in {"log_linear_rate_scheme", "logconstantrate_loglinearrate_logconstantrate"}
            -> <<"logconstantrate", "loglinearrate", "logconstantrate">>
      [] s \in {"zero_linear_scheme", "zero_linear_constant"} -> <<"zero", "linear", "constant">> ]
IsScheme(f) == f \in DOMAIN Scheme

Interpolate(f, ks, x) == IF IsScheme(f) THEN EvalParts(Scheme[f], ks, x) ELSE EvalBase(f, ks, x)

\* points that can not be used by an interpolation
NeedsPositive(f) == IF IsScheme(f) THEN \E i \in 1..3 : Scheme[f][i] \in LogLike ELSE f \in LogLike
DataError(f, ks) ==
    IF IsScheme(f) /\ \E i, j \in 1..Len(ks) : i # j /\ Eq(ks[i][1], ks[j][1]) THEN {"AssertionError"}
    ELSE IF NeedsPositive(f) /\ \E i \in 1..Len(ks) : ~Pos(ks[i][2]) THEN {"ValueError"}
    ELSE {}

InsertPoint(ks, p) ==
    SelectSeq(ks, LAMBDA q : Lt(q[1], p[1])) \o <<p>> \o SelectSeq(ks, LAMBDA q : Lt(p[1], q[1]))
SortPoints(ps) == FoldLeft(LAMBDA acc, p : InsertPoint(acc, p), <<>>, ps)
=============================================================================
