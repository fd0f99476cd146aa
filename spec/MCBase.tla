------------------------------- MODULE MCBase -------------------------------
(***************************************************************************)
(* Exhaustive exploration of all histories of bounded length.              *)
(*                                                                         *)
(* A model MC_Cxx gives setups (kind of dates and events creating the      *)
(* objects), the events Moves which may come next, the bound Depth of      *)
(* histories and the laws every reachable heap has to obey.  Laws are sets *)
(* of pairs <<name, truth>>.  Complete histories are printed as programs   *)
(* with queries Probes after each event ("PROG") or at the end only; they  *)
(* are replayed on the program and the record goes back to Trace.tla.      *)
(***************************************************************************)
EXTENDS Machine, Json, IOUtils

CONSTANTS Setups, Moves(_, _, _), Depth(_), Probes(_, _), Laws(_, _)

VARIABLES su, on, h, hist

Thorough == IOEnv.TIER = "thorough"

RunAll(g, es) == FoldLeft(LAMBDA acc, e : Post(acc, e), g, es)
\* events with the probes after each of them
Dense(u, g, es) ==
    FoldLeft(LAMBDA acc, e : LET g2 == Post(acc[1], e) IN <<g2, acc[2] \o <<e>> \o Probes(u, g2)>>,
             <<g, Probes(u, g)>>, es)[2]
Emit(u, g0, es) ==
    LET g == RunAll(g0, u.pre)
        sparse == u.pre \o es \o Probes(u, RunAll(g, es))
        dense == u.pre \o Dense(u, g, es)
    IN /\ PrintT("PROG " \o ToJson([kind |-> u.k, name |-> u.name, ev |-> dense]))
       /\ es # <<>> => PrintT("PROG " \o ToJson([kind |-> u.k, name |-> u.name, ev |-> sparse]))

Init == /\ su \in 1..Len(Setups)
        /\ on = FALSE
        /\ h = EmptyHeap(Setups[su].k)
        /\ hist = <<>>

Start(u) ==
    /\ ~on
    /\ on' = TRUE
    /\ h' = RunAll(h, u.pre)
    /\ Depth(u) = 0 => Emit(u, h, <<>>)
    /\ UNCHANGED <<su, hist>>

Go(u) ==
    /\ on
    /\ Len(hist) < Depth(u)
    /\ \E e \in Moves(u, h, hist) :
         /\ h' = Post(h, e)
         /\ hist' = Append(hist, e)
    /\ Len(hist') = Depth(u) => Emit(u, EmptyHeap(u.k), hist')
    /\ UNCHANGED <<su, on>>

Step(setups) == Start(setups[su]) \/ Go(setups[su])

\* the laws of the model in every state reached
Lawful(setups) ==
    on' => LET all == Laws(setups[su'], h')
               bad == {l \in all : ~l[2]}
           IN /\ PrintT("LAWS " \o ToJson({l[1] : l \in all}))
              /\ bad = {} \/ (PrintT("UNLAWFUL " \o ToJson([setup |-> setups[su'].name, hist |-> hist', bad |-> bad])) /\ FALSE)

Spec == Init /\ [][Step(Setups)]_<<su, on, h, hist>>
Prop == [][Lawful(Setups)]_<<su, on, h, hist>>

\* events
MkC(id, cls, x, y, org) == [op |-> "new", id |-> id, cls |-> cls, x |-> x, y |-> y, org |-> org]
Ask(op, id, s) == [op |-> op, id |-> id, s |-> s]
Ask2(op, id, s, e) == [op |-> op, id |-> id, s |-> s, e |-> e]
At1(op, id, x) == [op |-> op, id |-> id, x |-> x]
All(op, id, xs) == [op |-> op, id |-> id, xs |-> xs]
Each(xs, Ev(_)) == Tuple([i \in 1..Len(xs) |-> Ev(xs[i])])
\* events for all pairs i < j of dates (i <= j)
Pairs(xs, Ev(_, _)) ==
    FlattenSeq(Tuple([i \in 1..Len(xs) |-> Tuple([j \in 1..(Len(xs) - i) |-> Ev(xs[i], xs[i + j])])]))
\* combinations, first one slowest
Cross(S, T, F(_, _)) == FlattenSeq(Tuple([i \in 1..Len(S) |-> Tuple([j \in 1..Len(T) |-> F(S[i], T[j])])]))
Numbered(s) == Tuple([i \in 1..Len(s) |-> i])

\* a law: evaluated where it applies
Law(name, applies, holds) == IF applies THEN {<<name, holds>>} ELSE {}
=============================================================================
