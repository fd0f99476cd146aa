------------------------------- MODULE MC_C12 -------------------------------
(* Compounding conventions and their inverses. *)
EXTENDS MCBase

Rates == IF Thorough THEN <<"0", "0.01", "-0.01", "0.05", "-0.04", "0.2", "0.0001", "1.5">> ELSE <<"0", "0.01", "-0.01", "0.05", "0.2", "0.0001">>
Times == IF Thorough THEN <<"0", "0.0027397260273972603", "0.25", "1", "1.5", "3", "10", "40", "-0.5", "-2">> ELSE <<"0", "0.0027397260273972603", "0.25", "1", "3", "10", "-0.5", "-2">>
TheSetups == Cross(Rates, Times, LAMBDA r, t : [k |-> "f", name |-> "compounding", r |-> r, t |-> t, pre |-> <<>>])
TheDepth(u) == 0
TheMoves(u, g, hs) == {}

Conv == <<"annually_compounding", "semi_compounding", "quarterly_compounding", "monthly_compounding", "daily_compounding">>
Fs == <<"1", "2", "3", "4", "12", "52", "365">>
\* factors as doubles hold them
Round(v) == Div(Real(ToInt(Add(Mul(v, "1048576"), "0.5"))), "1048576")
Dfs(u) == <<"0.5", "0.96875", "1", "1.0625">>
TheProbes(u, g) ==
    LET c2(fn) == [op |-> "comp", fn |-> fn, a |-> <<u.r, u.t>>]
        per(f) == [op |-> "comp", fn |-> "periodic_compounding", a |-> <<u.r, u.t, f>>]
        inv(d) == <<[op |-> "comp", fn |-> "simple_rate", a |-> <<d, u.t>>],
                    [op |-> "comp", fn |-> "continuous_rate", a |-> <<d, u.t>>],
                    [op |-> "comp", fn |-> "periodic_rate", a |-> <<d, u.t, "1">>],
                    [op |-> "comp", fn |-> "periodic_rate", a |-> <<d, u.t, "4">>],
                    [op |-> "comp", fn |-> "periodic_rate", a |-> <<d, u.t, "12">>]>>
        three == <<[op |-> "comp", fn |-> "simple_rate", a |-> <<Round(SimpleDf(u.r, u.t)), u.t>>],
                   [op |-> "comp", fn |-> "continuous_rate", a |-> <<Round(ContDf(u.r, u.t)), u.t>>],
                   [op |-> "comp", fn |-> "periodic_rate", a |-> <<Round(PerDf(u.r, u.t, "4")), u.t, "4">>]>>
    IN Each(<<"simple_compounding", "continuous_compounding">> \o Conv, c2) \o Each(Fs, per)
       \o (IF Lt(Abs(u.t), "0.01") THEN <<>> ELSE FlattenSeq(Each(Dfs(u), inv)) \o three)

TheLaws(u, g) ==
    LET eq(a, b) == Near(a, b, "1e-20", "1e-20")
        F == ToSet(Fs)
    IN Law("one without rate or period", IsZero(u.r) \/ IsZero(u.t),
           /\ Eq(SimpleDf(u.r, u.t), One) /\ Eq(ContDf(u.r, u.t), One) /\ \A f \in F : Eq(PerDf(u.r, u.t, f), One))
       \cup Law("rates round trip", ~IsZero(u.t),
                /\ eq(SimpleRt(SimpleDf(u.r, u.t), u.t), u.r)
                /\ eq(ContRt(ContDf(u.r, u.t), u.t), u.r)
                /\ \A f \in F : eq(PerRt(PerDf(u.r, u.t, f), u.t, f), u.r))
       \cup Law("factors round trip", ~IsZero(u.t),
                \A d \in ToSet(Dfs(u)) :
                    /\ eq(SimpleDf(SimpleRt(d, u.t), u.t), d)
                    /\ eq(ContDf(ContRt(d, u.t), u.t), d)
                    /\ \A f \in F : eq(PerDf(PerRt(d, u.t, f), u.t, f), d))
       \cup Law("named frequencies", TRUE, \A c \in ToSet(Conv) : Eq(Compound(c, <<u.r, u.t>>), PerDf(u.r, u.t, Freq(c))))
       \cup Law("more often is less", Pos(u.r) /\ Pos(u.t),
                \A i \in 1..(Len(Fs) - 1) : Lt(PerDf(u.r, u.t, Fs[i + 1]), PerDf(u.r, u.t, Fs[i])) /\ Lt(ContDf(u.r, u.t), PerDf(u.r, u.t, Fs[i])))
       \cup Law("simple is annual over a year", Eq(u.t, One), eq(SimpleDf(u.r, u.t), PerDf(u.r, u.t, "1")))
=============================================================================
