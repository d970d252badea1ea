------------------------------ MODULE TraceHist -----------------------------
(* A recorded trace made of histories, each beginning with an event "start". *)
(* Every history is an initial state of its own; a spec that extends this    *)
(* gives the state of the object (obj), what start makes it, and which       *)
(* recorded calls it allows.  A call that is not allowed has no successor:   *)
(* the checker reports the deadlock, whose position is l.                    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

VARIABLES l, obj
Fresh == [fresh |-> TRUE]
HInit == l \in {j \in 1..Len(Trace) : Trace[j].op = "start"} /\ obj = Fresh
AtEnd == IF l > Len(Trace) THEN TRUE ELSE obj # Fresh /\ Trace[l].op = "start"
Happened(e) == IF "panic" \in DOMAIN e THEN ~e.panic ELSE TRUE
\* start(e), allowed(obj, e) and then obj' = after(obj, e)
HNext(start(_), allowed(_, _), after(_, _)) ==
    IF AtEnd THEN UNCHANGED <<l, obj>>
    ELSE LET e == Trace[l] IN
         /\ Happened(e)
         /\ IF obj = Fresh THEN obj' = start(e)
            ELSE allowed(obj, e) = TRUE /\ obj' = after(obj, e)
         /\ l' = l + 1
=============================================================================
