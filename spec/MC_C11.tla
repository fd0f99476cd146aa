------------------------------- MODULE MC_C11 -------------------------------
(* Redemption plans and outstanding amounts. *)
EXTENDS MCBase

Fns == <<"same", "bullet", "amortize", "annuity", "consumer">>
Ns == IF Thorough THEN <<1, 2, 3, 4, 5, 7, 10, 24, 60>> ELSE <<1, 2, 3, 4, 7, 12, 30>>
Amounts == <<"1", "100", "-250.5", "0", "1000000">>
Rates == <<"none", "0", "0.01", "-0.01", "0.075", "0.25", "-0.04", "0.0001", "-0.00002", "0.000005">>
TheSetups ==
    FlattenSeq(Cross(Fns, Amounts, LAMBDA f, a :
        Tuple([i \in 1..(IF f \in {"annuity", "consumer"} THEN Len(Rates) ELSE 1) |->
            [k |-> "f", name |-> f, fn |-> f, amt |-> a, rate |-> Rates[i], pre |-> <<>>]])))
TheDepth(u) == 0
TheMoves(u, g, hs) == {}

Rate(u) == IF u.rate = "none" THEN "0.01" ELSE u.rate
P(u, n) == Plan(u.fn, n, u.amt, Rate(u))
TheProbes(u, g) ==
    LET pl(n) == (IF u.rate = "none" THEN <<>> ELSE [rate |-> u.rate]) @@ [op |-> "plan", fn |-> u.fn, n |-> n, amt |-> u.amt]
        \* amounts which doubles hold
        r(v) == Div(Real(ToInt(Add(Mul(v, "1024"), "0.5"))), "1024")
        out(n) == [op |-> "outst", plan |-> Map(r, P(u, n)), amt |-> u.amt, sign |-> n % 2 = 0]
    IN Each(Ns, pl) \o Each(SubSeq(Ns, 1, 5), out)

TheLaws(u, g) ==
    LET eq(a, b) == Near(a, b, "1e-20", "1e-20")
        N == ToSet(Ns)
        out(n) == Outstanding(P(u, n), u.amt, FALSE)
    IN Law("one payment per period", TRUE, \A n \in N : Len(P(u, n)) = n /\ Len(out(n)) = n)
       \cup Law("plans sum up to the notional", u.fn \in {"bullet", "amortize", "annuity"}, \A n \in N : eq(RSum(P(u, n)), u.amt))
       \cup Law("annuity is constant", u.fn = "annuity",
                \A n \in N : LET p == P(u, n)
                                 all == {Add(p[i], Mul(Rate(u), out(n)[i])) : i \in 1..n}
                             IN \A a, b \in all : eq(a, b))
       \cup Law("consumer plan pays notional and interest", u.fn = "consumer",
                \A n \in N : eq(RSum(P(u, n)), Mul(u.amt, Add(One, Mul(Real(n), Rate(u))))))
       \cup Law("last outstanding is the last payment", u.fn \in {"bullet", "amortize", "annuity"},
                \A n \in N : eq(Last(out(n)), Last(P(u, n))))
       \cup Law("outstanding plus payments is the notional", TRUE,
                \A n \in N : \A i \in 1..n : eq(Add(out(n)[i], RSum(SubSeq(P(u, n), 1, i - 1))), u.amt))
       \cup Law("growing with the opposite sign", TRUE,
                \A n \in N : \A i \in 1..n : eq(Add(Outstanding(P(u, n), u.amt, TRUE)[i], out(n)[i]), Mul("2", u.amt)))
=============================================================================
