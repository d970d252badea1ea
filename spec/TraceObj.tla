------------------------------ MODULE TraceObj ------------------------------
(* Conformance of histories of objects: after every call every object holds  *)
(* what the insertion-ordered map does.                                      *)
EXTENDS Value, TraceHist

Pairs(e) == [i \in 1..Len(e.ks) |-> <<e.ks[i], e.vs[i]>>]
Last0(o, x) == IF o.k = <<>> THEN o ELSE [o EXCEPT !.v[Len(o.v)] = x]
Found(o, k) == IF Has(o, k) THEN [is |-> "val", x |-> Get(o, k)] ELSE [is |-> "none"]
Shown(o, k) == IF Has(o, k) THEN Get(o, k) ELSE VNull

\* the objects after the call
After(o, e) ==
    CASE e.op \in {"oinsert", "oassign"} -> [o EXCEPT ![e.s] = Put(@, e.k, e.x)]
      [] e.op = "ogetmut" -> IF Has(o[e.s], e.k) THEN [o EXCEPT ![e.s] = Put(@, e.k, e.x)] ELSE o
      [] e.op = "oremove" -> [o EXCEPT ![e.s] = Del(@, e.k)]
      [] e.op = "oclear" -> [o EXCEPT ![e.s] = EmptyObj]
      [] e.op = "onew" -> [o EXCEPT ![e.s] = EmptyObj]
      [] e.op = "olast" -> [o EXCEPT ![e.s] = Last0(@, e.x)]
      [] e.op = "oclone" -> [o EXCEPT ![e.to] = o[e.s]]
      [] e.op = "oswap" -> [o EXCEPT ![e.s] = o[e.to], ![e.to] = o[e.s]]
      [] e.op \in {"ofrom", "oparse"} -> [o EXCEPT ![e.s] = FromPairs(Pairs(e))]
      [] e.op \in {"oget", "oiter", "oend"} -> o
\* what the call reports
Reports(o, e) ==
    CASE e.op = "oget" -> e.r = Found(o[e.s], e.k) /\ \A i \in 1..3 : e.ix[i] = Shown(o[e.s], e.k)
      [] e.op = "ogetmut" -> e.r = Found(o[e.s], e.k)
      [] e.op = "oremove" -> e.r = Found(o[e.s], e.k) /\ e.kept = e.r
      [] e.op = "oiter" -> /\ e.ks = o[e.s].k /\ e.vs = o[e.s].v /\ e.rks = Reverse(o[e.s].k)
                           /\ e.empty = (o[e.s].k = <<>>) /\ e.is_empty = e.empty
      [] OTHER -> TRUE
Holds(o, e) == /\ Len(e.lens) = Len(o) /\ \A i \in 1..Len(o) : e.lens[i] = Len(o[i].k)
               /\ e.st # <<>> => \A i \in 1..Len(o) : e.st[i] = o[i]

\* C15: only what is written changes, and contents come from somewhere
Members(o) == {<<o.k[i], o.v[i]>> : i \in 1..Len(o.k)}
Written(e) == CASE e.op \in {"oclone"} -> {e.to}
                [] e.op = "oswap" -> {e.s, e.to}
                [] e.op \in {"oget", "oiter"} -> {}
                [] OTHER -> {e.s}
Given(o, e) == CASE e.op \in {"oinsert", "oassign", "ogetmut"} -> {<<e.k, e.x>>}
                 [] e.op = "olast" -> {<<k, e.x>> : k \in ToSet(o[e.s].k)}
                 [] e.op \in {"ofrom", "oparse"} -> ToSet(Pairs(e))
                 [] OTHER -> {}
Owns(o, e) ==
    /\ \A i \in 1..Len(o) : i \notin Written(e) => e.st[i] = o[i]
    /\ CASE e.op = "oclone" -> e.st[e.to] = e.st[e.s]
         [] e.op = "oswap" -> e.st[e.to] = o[e.s] /\ e.st[e.s] = o[e.to]
         [] OTHER -> Members(e.st[e.s]) \subseteq (Members(o[e.s]) \cup Given(o, e))
    /\ e.op = "oremove" => e.kept = e.r
    \* the other members of an object that is written to
    /\ e.op \in {"oinsert", "oassign", "ogetmut", "oremove"} =>
         \A m \in Members(o[e.s]) : m[1] # e.k => m \in Members(e.st[e.s])

Start(e) == [os |-> [i \in 1..Len(e.st) |-> EmptyObj]]
Allowed(w, e) == LET o == w.os IN
    IF Prop = "C15" THEN e.bad = 0 /\ (IF e.op = "oend" THEN e.live = 0 ELSE Owns(o, e))
    ELSE IF e.op = "oend" THEN TRUE
    ELSE Reports(o, e) /\ Holds(After(o, e), e)
Then(w, e) == [os |-> IF Prop = "C15" /\ e.op # "oend" THEN e.st ELSE After(w.os, e)]
Next == HNext(Start, Allowed, Then)
Spec == HInit /\ [][Next]_<<l, obj>>
=============================================================================
