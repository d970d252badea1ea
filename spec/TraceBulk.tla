------------------------------ MODULE TraceBulk -----------------------------
(* Conformance of large containers: what was seen of one, at some of its     *)
(* members, after what was done to it.                                       *)
EXTENDS Bulk, TraceLines

SameAll(s, x) == \A i \in 1..Len(s) : s[i] = x
KeySeen(d, p) == IF d.kind = "arr" THEN NoKey ELSE KeyShape(d, KeyAt(d, All(d), p))
SeenOK(d, o) ==
    CASE o.is = "len" -> SameAll(o.xs, SizeOf(d))
      [] o.is = "at" -> IF o.p >= 1 /\ o.p <= SizeOf(d) THEN o.k = KeySeen(d, o.p) /\ o.x = MemberAt(d, o.p)
                        ELSE o.k = NoKey /\ o.x = None
      [] o.is = "get" -> SameAll(o.xs, Lookup(d, o.i))
      [] o.is = "has" -> SameAll(o.rs, Lookup(d, o.i) # None)
      [] o.is = "took" -> o.x = Took(d, o.m)
      [] o.is = "takes" -> o.x = TookOf(d, o.m, o.j) /\ o.n = LeftOf(d, o.m, o.t)
      [] o.is = "eq" -> SameAll(o.rs, SameMembers(d, [d EXCEPT !.ops = @ \o o.more]))
      [] o.is = "true" -> SameAll(o.rs, TRUE)
      [] o.is = "pieces" -> o.total = Pieces(d) /\ \A i \in 1..Len(o.parts) : o.parts[i].text = Piece(d, o.parts[i].no)
      [] o.is = "calls" -> o.total = Pieces(d) /\ \A i \in 1..Len(o.parts) : o.parts[i].text = PieceCalls(d, o.parts[i].no)
      [] o.is = "lines" -> /\ o.total = Lines(d)
                           /\ \A i \in 1..Len(o.parts) : LET q == o.parts[i]  x == Line(d, o.w, q.no) IN q.in = x.in /\ q.text = x.text
      [] o.is = "mem" -> o.bad = 0 /\ o.live = 0
BulkOK(e) == LET d == [kind |-> e.kind, n |-> e.n, pre |-> e.pre, post |-> e.post, ops |-> e.ops] IN
             e.obs # <<>> /\ \A i \in 1..Len(e.obs) : SeenOK(d, e.obs[i])

Accept == l > 0 => LET e == Trace[l] IN ~Panicked(e) /\ BulkOK(e)
=============================================================================
