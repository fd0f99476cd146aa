------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Validation of recorded executions.  Each line of the file TRACE is one  *)
(* execution: kind of dates and events with their outcomes.  TLC replays   *)
(* all of them; an event whose outcome the specification does not allow is *)
(* reported with the broken clauses, and the replay goes on.               *)
(***************************************************************************)
EXTENDS Machine, Json, IOUtils

VARIABLES tid, l, h

Traces == ndJsonDeserialize(IOEnv.TRACE)

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ h = EmptyHeap(Traces[tid].kind)

Report(e, bad) ==
    IF bad = {} THEN TRUE
    ELSE PrintT("BAD " \o ToJson([id |-> Traces[tid].id, l |-> l, bad |-> SetToSeq(bad)]))

Step(traces) ==
    /\ l <= Len(traces[tid].ev)
    /\ LET e == traces[tid].ev[l] IN
       IF Gone(h, e) THEN h' = h
       ELSE /\ Report(e, Bad(h, e))
            /\ h' = Post(h, e)
    /\ l' = l + 1
    /\ UNCHANGED tid

Spec == Init /\ [][Step(Traces)]_<<tid, l, h>>
=============================================================================
