----------------------------- MODULE TraceLines -----------------------------
(* A recorded trace whose events are independent of one another: the states  *)
(* are the positions in the trace.  They are visited in Chains, chain k over *)
(* positions k, k + Chains, ..., so that the checker's workers share them    *)
(* (and share the long events that follow one another); -k is the state      *)
(* before the first of chain k.  The spec that extends this gives Accept,    *)
(* which says nothing before the first.                                      *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
Most == 256
Chains == IF Len(Trace) < Most THEN Len(Trace) ELSE Most

VARIABLE l
LInit == l \in {-k : k \in 1..Chains}
LNext == IF l < 0 THEN l' = -l ELSE l + Chains <= Len(Trace) /\ l' = l + Chains
LSpec == LInit /\ [][LNext]_l

Panicked(e) == "panic" \in DOMAIN e /\ e.panic
=============================================================================
