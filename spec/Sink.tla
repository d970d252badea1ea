-------------------------------- MODULE Sink --------------------------------
(* Serialization into a writer that takes what it likes.  The machine's      *)
(* state is what is still to be delivered and whether the writer has failed. *)
(* One action per call the writer sees, and one for the end of the call.     *)
EXTENDS Flat

Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Encode(t) == Flat([i \in 1..Len(t) |-> Utf8(t[i])])

\* phase: "run"; "fail" with the writer's tag; "zero": the writer took nothing
S0(bytes) == [rest |-> bytes, phase |-> "run", tag |-> 0]

\* the writer is offered buf and answers resp
OfferOK(s, buf, resp) ==
    /\ s.phase = "run" \/ buf = <<>>
    /\ IsPrefix(buf, s.rest)
    /\ resp.is = "take" => resp.k >= 1 /\ resp.k <= Len(buf)
Offer(s, buf, resp) ==
    CASE resp.is = "take" -> [s EXCEPT !.rest = SubSeq(@, resp.k + 1, Len(@))]
      [] resp.is = "intr" -> s                       \* tried again
      [] resp.is = "zero" -> IF buf = <<>> THEN s ELSE [s EXCEPT !.phase = "zero"]
      [] resp.is = "fail" -> [s EXCEPT !.phase = "fail", !.tag = resp.tag]

\* the call returns r
ReturnOK(s, r) ==
    CASE r.is = "ok" -> s.phase = "run" /\ s.rest = <<>>
      [] r.is = "fail" -> s.phase = "fail" /\ r.tag = s.tag
      [] r.is = "zero" -> s.phase = "zero"
      [] OTHER -> FALSE
=============================================================================
