------------------------------ MODULE TraceEmit -----------------------------
(* Conformance of serialization.                                             *)
EXTENDS Emit, Parser, Sink, TraceLines

Outs(e, want) == \A i \in 1..Len(e.outs) : e.outs[i].text = want

\* C08: what came back from parsing the text
BackOK(v, b) == /\ b.ok
                /\ ValSame(v, Recorded(b.v))
                /\ \A i \in 1..Len(b.eq) : b.eq[i]
                /\ \A i \in 1..Len(b.again) : b.again[i]

\* C23: the calls a generator saw.  A generator that overrides nothing sees
\* the compact text; a failing call ends everything.
\* Text reaches one that overrides the byte methods through these, but for the
\* text of numbers and the digits of escapes.
Direct == 2000000
Same1(kind, a, w) == a = w \/ (kind = "full" /\ w >= Direct /\ a = w - Direct)
Same(kind, a, w) == \A i \in 1..Len(a) : Same1(kind, a[i], w[i])
Visible(kind, calls) == IF kind = "bare" THEN Compact(calls) ELSE calls
GenOK(e, v) ==
    LET want == Visible(e.kind, IF e.kind = "full" THEN CallsD(v, Direct) ELSE Calls(v))
        seen == SelectSeq(e.calls, LAMBDA c : c # -98)
    IN IF ~e.failed THEN e.tag = 0 /\ Len(e.calls) = Len(want) /\ Same(e.kind, e.calls, want)
       ELSE /\ e.tag = e.at /\ ~e.after
            /\ Len(seen) <= Len(want) /\ Same(e.kind, seen, want)

\* n containers inside one another, arrays at odd levels, objects with one key
\* k at even ones, around a 1: line j of the pretty text with width k
Open(i) == IF i % 2 = 1 THEN <<91>> ELSE <<123>>
Shut(i) == IF i % 2 = 1 THEN <<93>> ELSE <<125>>
LineOf(n, k, j) ==
    [no |-> j,
     in |-> k * (IF j <= n + 1 THEN j - 1 ELSE 2 * n + 1 - j),
     text |-> IF j > n + 1 THEN Shut(2 * n + 2 - j)
              ELSE (IF j > 1 /\ j % 2 = 1 THEN <<34, 107, 34, 58, 32>> ELSE <<>>) \o (IF j = n + 1 THEN <<49>> ELSE Open(j))]
DeepOK(e) ==
    LET n == e.n
        stopped == e.stop > 0
        total == IF stopped THEN e.stop ELSE 2 * n + 1
        pairs == n \div 2
    IN /\ \A i \in 1..Len(e.seen) :
            /\ e.seen[i].ok = ~stopped /\ e.seen[i].total = total
            /\ \A j \in 1..Len(e.seen[i].lines) : e.seen[i].lines[j] = LineOf(n, e.k, e.seen[i].lines[j].no)
            /\ e.seen[i].lines # <<>>
       /\ e.dump.len = 2 * n + 4 * pairs + 1
       /\ e.dump.head = <<91, 123, 34, 107, 34, 58, 91, 123, 34, 107, 34, 58>>
       /\ e.dump.tail = <<125, 93, 125, 93, 125, 93, 125, 93, 125, 93, 125, 93>>

\* C20: all of a long text, or as much of it as the writer took
ChopOK(e, v) ==
    LET w == Encode(IF e.n < 0 THEN Compact(Calls(v)) ELSE Unrle(Pretty(Calls(v), e.n))) IN
    IF e.at < 0 \/ e.at >= Len(w) THEN e.ok /\ e.got = w ELSE ~e.ok /\ e.own = ~e.z /\ e.after = 0 /\ e.got = SubSeq(w, 1, e.at)
Judge(e, v) ==
    CASE e.op = "dump" -> Outs(e, Compact(Calls(v)))
      [] e.op = "pretty" -> Outs(e, Pretty(Calls(v), e.n))
      [] e.op = "round" -> (~HasNaN(v) /\ Nest(v) <= DepthLimit) => BackOK(v, e.back[1]) /\ BackOK(v, e.back[2])
      [] e.op = "gen" -> GenOK(e, v)
      [] e.op = "chop" -> ChopOK(e, v)
Accept == l > 0 => LET e == Trace[l] IN ~Panicked(e) /\ (IF e.op = "deep" THEN DeepOK(e) ELSE Judge(e, Recorded(e.v)))
=============================================================================
