----------------------------- MODULE Compounding -----------------------------
(***************************************************************************)
(* Discount factors of rate conventions and back; notional plans.          *)
(***************************************************************************)
EXTENDS RealNum

Freq(fn) == CASE fn = "annually_compounding" -> "1" [] fn = "semi_compounding" -> "2"
              [] fn = "quarterly_compounding" -> "4" [] fn = "monthly_compounding" -> "12"
              [] fn = "daily_compounding" -> "365"
SimpleDf(r, t) == Div(One, Add(One, Mul(r, t)))
SimpleRt(df, t) == Div(Sub(Div(One, df), One), t)
ContDf(r, t) == Exp(Neg(Mul(r, t)))
ContRt(df, t) == Neg(Div(Ln(df), t))
PerDf(r, t, f) == Pow(Add(One, Div(r, f)), Neg(Mul(f, t)))
PerRt(df, t, f) == Mul(Sub(Pow(df, Neg(Div(One, Mul(t, f)))), One), f)

\* a: sequence of arguments
Compound(fn, a) ==
    CASE fn = "simple_compounding" -> SimpleDf(a[1], a[2])
      [] fn = "simple_rate" -> SimpleRt(a[1], a[2])
      [] fn = "continuous_compounding" -> ContDf(a[1], a[2])
      [] fn = "continuous_rate" -> ContRt(a[1], a[2])
      [] fn = "periodic_compounding" -> PerDf(a[1], a[2], a[3])
      [] fn = "periodic_rate" -> PerRt(a[1], a[2], a[3])
      [] OTHER -> PerDf(a[1], a[2], Freq(fn))

-----------------------------------------------------------------------------
\* plans: n redemptions of a notional
Plan(fn, n, amount, rate) ==
    LET N == Real(n) IN
    CASE fn = "same" -> Tuple([i \in 1..n |-> amount])
      [] fn = "bullet" -> Tuple([i \in 1..n |-> IF i = n THEN amount ELSE Zero])
      [] fn = "amortize" -> Tuple([i \in 1..n |-> Div(amount, N)])
      [] fn = "annuity" ->
            IF IsZero(rate) THEN Tuple([i \in 1..n |-> Div(amount, N)])
            ELSE LET q == Add(One, rate)
                     a == Div(Mul(amount, rate), Sub(IPow(q, n), One))
                 IN Tuple([i \in 1..n |-> Mul(a, IPow(q, i - 1))])
      [] fn = "consumer" ->
            Tuple([i \in 1..n |-> Div(Mul(amount, Add(One, Mul(N, rate))), N)])
\* notional before each redemption
RECURSIVE OutFrom(_, _, _, _)
OutFrom(plan, i, amount, sign) ==
    IF i >= Len(plan) THEN <<amount>>
    ELSE <<amount>> \o OutFrom(plan, i + 1, IF sign THEN Add(amount, plan[i]) ELSE Sub(amount, plan[i]), sign)
Outstanding(plan, amount, sign) == OutFrom(plan, 1, amount, sign)
=============================================================================
