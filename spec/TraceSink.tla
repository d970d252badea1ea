------------------------------ MODULE TraceSink -----------------------------
(* Conformance of write and write_pretty into writers that fail.             *)
EXTENDS Emit, Sink, TraceHist

Whole(n, v) == Encode(IF n < 0 THEN Compact(Calls(v)) ELSE Unrle(Pretty(Calls(v), n)))
Start(e) == [v |-> e.v, n |-> e.n, s |-> S0(Whole(e.n, e.v)), ended |-> FALSE]
Allowed(o, e) ==
    CASE e.op = "w" -> ~o.ended /\ OfferOK(o.s, e.buf, e.resp)
      [] e.op = "flush" -> ~o.ended
      [] e.op = "ret" -> /\ ~o.ended /\ ReturnOK(o.s, e.ret)
                         /\ ValSame(o.v, e.v)                       \* the value is as it was
                         /\ e.again = Whole(o.n, o.v)               \* and can be written again
After(o, e) ==
    CASE e.op = "w" -> [o EXCEPT !.s = Offer(o.s, e.buf, e.resp)]
      [] e.op = "flush" -> o
      [] e.op = "ret" -> [o EXCEPT !.ended = TRUE]
Next == HNext(Start, Allowed, After)
Spec == HInit /\ [][Next]_<<l, obj>>
\* every history ends with the call's return
Ends == AtEnd /\ obj # Fresh => obj.ended
=============================================================================
