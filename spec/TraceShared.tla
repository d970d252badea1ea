----------------------------- MODULE TraceShared ----------------------------
(* Conformance of calls that overlap.  The state is the documents, which     *)
(* nothing changes, and what each call in progress has still to deliver.     *)
EXTENDS Emit, Parser, Sink, TraceHist

Fields(e, s) == \A x \in s : x \in DOMAIN e
Nan == <<110, 97, 110>>
Texts == {"dump", "prettied", "shown", "debugged", "floats"}
\* the text a call is to deliver (of errors, and in the form for debugging:
\* what it is when nothing else is going on)
Wanted(o, e) ==
    LET v == Recorded(o.docs[e.d]) IN
    CASE e.what = "error" -> o.errors[e.d]
      [] e.what \in {"debug", "debugged"} -> o.debugs[e.d]
      [] e.what = "floats" -> o.floats[e.d]
      [] e.what \in {"write", "gen", "display", "to_writer", "dump"} -> Encode(Compact(Calls(v)))
      [] e.what \in {"pretty", "prettied"} -> Encode(Unrle(Pretty(Calls(v), e.n)))
      [] e.what \in {"show", "number", "shown"} ->
             IF v.t = "str" THEN Encode(v.s) ELSE IF v.t = "num" /\ v.nan THEN Nan ELSE Encode(Compact(Calls(v)))
      [] e.what = "display#" -> Encode(Unrle(Pretty(Calls(v), 4)))
      [] OTHER -> <<>>
\* the value it is to make
Changed(v) == CASE v.t = "arr" -> VArr(Append(v.a, VStr(<<122, 122>>)))
                [] v.t = "obj" -> Put(v, <<122, 122>>, VStr(<<122, 122>>))
                [] OTHER -> v
Parsed(m, g) == IF Accepted(m) THEN "v" \in DOMAIN g /\ g.r = "ok" /\ SameAs(m.val, Recorded(g.v), "all")
                ELSE "er" \in DOMAIN g /\ g.er = m.er
\* what the place holds in between
Redone(v) == CASE v.t = "arr" -> VArr(Append(v.a, VStr(<<122, 122>>)))
               [] v.t = "obj" -> Put(v, <<114, 101, 100, 111>>, VStr(<<122, 122>>))
               [] OTHER -> VNull
\* five lookups by a key kept at one place, the first three followed by an
\* assignment: whether it was there, what was there, and how many keys then
Keyed == LET ks == <<97, 98, 97, 99, 98>>
             Set(i) == {j \in 1..3 : j < i}
             Was(i) == {j \in Set(i) : ks[j] = ks[i]}
         IN [i \in 1..5 |-> <<Was(i) # {}, IF Was(i) = {} THEN 0 ELSE CHOOSE j \in Was(i) : \A k \in Was(i) : k <= j,
                              Cardinality({ks[j] : j \in Set(i) \cup {IF i <= 3 THEN i ELSE 1}})>>]
\* g: the answer of a call c
AnswerOK(o, c, g) ==
    CASE c.what = "parse" -> Parsed(Run(o.texts[c.d]), g)
      [] c.what \in Texts -> g.text = Wanted(o, c)
      [] c.what \in {"read", "collect", "extend", "convert"} -> ValSame(Recorded(o.docs[c.d]), Recorded(g.v))
      [] c.what = "mutate" -> ValSame(Changed(Recorded(o.docs[c.d])), Recorded(g.v))
      [] c.what = "redo" -> LET v == Recorded(o.docs[c.d])
                                t == Encode(Compact(Calls(v)))
                            IN g.texts = <<t, Encode(Compact(Calls(Redone(v)))), t>>
      [] c.what = "reparse" -> LET t == o.texts[c.d]
                                   m == Run(t)
                               IN Parsed(m, g.got[1]) /\ Parsed(Run([t EXCEPT ![g.p] = 49]), g.got[2]) /\ Parsed(m, g.got[3])
      [] c.what = "rekey" -> g.got = Keyed
      [] c.what = "equal" -> \A i \in 1..Len(o.docs) : g.eq[i] = ValEq(Recorded(o.docs[i]), Recorded(o.docs[c.d]))
      [] OTHER -> g.ok

Start(e) == [docs |-> e.docs, texts |-> e.texts, errors |-> e.errors, debugs |-> e.debugs, floats |-> e.floats, calls |-> <<>>]
Going(o, c) == c <= Len(o.calls) /\ ~o.calls[c].over
Allowed(o, e) ==
    CASE e.op = "call" -> e.c = Len(o.calls) + 1
      [] e.op = "w" -> Going(o, e.c) /\ OfferOK(o.calls[e.c].s, e.buf, e.resp)
      [] e.op = "panic" -> Going(o, e.c)
      [] e.op = "done" -> /\ Going(o, e.c)
                          /\ e.panicked = o.calls[e.c].panic
                          /\ ~e.panicked => o.calls[e.c].s.rest = <<>> /\ AnswerOK(o, o.calls[e.c], e)
      [] e.op = "par" -> /\ e.outs # <<>>
                         /\ \A i \in 1..Len(e.outs) : "panicked" \notin DOMAIN e.outs[i] /\ AnswerOK(o, e, e.outs[i])
      [] e.op = "end" -> /\ \A i \in 1..Len(o.calls) : o.calls[i].over
                         /\ e.docs = o.docs /\ e.texts = o.texts
After(o, e) ==
    CASE e.op = "call" -> [o EXCEPT !.calls = Append(@, [what |-> e.what, d |-> e.d, n |-> e.n, over |-> FALSE, panic |-> FALSE,
                                                         s |-> S0(IF e.what \in Texts THEN <<>> ELSE Wanted(o, e))])]
      [] e.op = "w" -> [o EXCEPT !.calls[e.c].s = Offer(@, e.buf, e.resp)]
      [] e.op = "panic" -> [o EXCEPT !.calls[e.c].panic = TRUE]
      [] e.op = "done" -> [o EXCEPT !.calls[e.c].over = TRUE]
      [] OTHER -> o
Next == HNext(Start, Allowed, After)
Spec == HInit /\ [][Next]_<<l, obj>>
\* (the recording of every history is complete)
Ends == AtEnd /\ obj # Fresh => Trace[l - 1].op = "end"
=============================================================================
