------------------------------ MODULE TraceParse ----------------------------
(* Conformance of json::parse: every recorded call must be the outcome of    *)
(* the automaton's run over the same text.                                   *)
EXTENDS Parser, TraceLines

\* integer literals of more than 32767 digits may be refused
HugeLiteral(t) == Len(t) > 32767 /\
    FoldLeft(LAMBDA a, c : IF IsDigit(c) THEN [n |-> a.n + 1, b |-> MaxI(a.b, a.n + 1)] ELSE [a EXCEPT !.n = 0],
             [n |-> 0, b |-> 0], t).b > 32767

Mentions(t, s) == \E i \in 0..(Len(t) - Len(s)) : SubSeq(t, i + 1, i + Len(s)) = s
Place(er) == <<40>> \o NatText(er.line) \o <<58>> \o NatText(er.column) \o <<41>>
Shown(er, dp) == CASE er.kind = "char" -> Mentions(dp, <<er.ch>>) /\ Mentions(dp, Place(er))
                   [] er.kind = "eof" -> Mentions(dp, <<101, 110, 100>>)             \* end
                   [] er.kind = "depth" -> Mentions(dp, <<101, 112, 116, 104>>)      \* epth
                   [] er.kind = "utf8" -> Mentions(dp, <<85, 84, 70>>)               \* UTF

\* (m, the model's outcome, is evaluated once)
Judge(e, m) ==
    LET want == Accepted(m)
        got == e.r = "ok"
        excused == HugeLiteral(e.i)
    IN CASE Prop = "C01" -> want = got \/ (want /\ excused)
         [] Prop = "C02" -> want => (IF got THEN SameAs(m.val, Recorded(e.v), "str") ELSE excused)
         [] Prop = "C03" -> want => (IF got THEN SameAs(m.val, Recorded(e.v), "num") ELSE excused)
         [] Prop = "C04" -> want => (IF got THEN SameAs(m.val, Recorded(e.v), "all") ELSE excused)
         [] Prop = "C05" -> ~want /\ ~got => excused \/ (m.er = e.er /\ Shown(e.er, e.dp))
Accept == l > 0 => LET e == Trace[l] IN ~Panicked(e) /\ Judge(e, Run(e.i))
=============================================================================
