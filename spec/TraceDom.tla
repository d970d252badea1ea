------------------------------ MODULE TraceDom ------------------------------
(* Conformance of histories of documents.                                    *)
EXTENDS Dom, TraceHist

\* the place that changing p of v reaches
RECURSIVE PlaceOf(_, _)
PlaceOf(v, p) == IF p = <<>> THEN v
                 ELSE LET w == Room(v, p[1]) IN PlaceOf(Member(w, SpotIn(v, w, p[1])), Tail(p))

\* C16: the outcome at the place
\* (a wrong-type error also says what was wanted)
Mentions(t, s) == \E i \in 0..(Len(t) - Len(s)) : SubSeq(t, i + 1, i + Len(s)) = s
SameResult(r, s) == IF r.is = "wrong" THEN s.is = "wrong" /\ r.want = s.want /\ Mentions(r.says, s.want) ELSE r = s
Mutates(e) == e.op # "mut" \/ LET a == Apply(e.pre, e.c) IN e.post = a.post /\ SameResult(e.r, a.r)

\* C17: which place, and what else became of the document
Indexes(o, e) ==
    CASE e.op = "iread" -> /\ \A i \in 1..Len(e.got) : e.got[i] = Read(o[e.s], e.p)
                           /\ e.st[e.s] = o[e.s]
      [] e.op = "iwrite" -> e.st[e.s] = Write(o[e.s], e.p, e.x)
      [] e.op = "itouch" -> e.st[e.s] = Touch(o[e.s], e.p)
      [] e.op = "dmove" -> e.st[e.s] = Write(o[e.s], e.p, o[e.from])
      [] e.op = "dclone" -> e.seen = Read(o[e.s], e.p)
      [] e.op = "mut" -> e.pre = PlaceOf(o[e.s], e.p) /\ e.st[e.s] = Write(o[e.s], e.p, e.post)
      [] OTHER -> TRUE

\* C15: who may change, and where contents may come from
Written(e) == CASE e.op = "mut" -> {e.s, e.to}
                [] e.op = "dclone" -> {e.to}
                [] e.op = "dmove" -> {e.s, e.from}
                [] e.op \in {"iwrite", "itouch", "dset"} -> {e.s}
                [] e.op = "dparse" -> IF e.ok THEN {e.s} ELSE {}
                [] OTHER -> {}
CallAtoms(c) == (IF "x" \in DOMAIN c THEN Atoms(c.x) ELSE {}) \cup (IF "k" \in DOMAIN c THEN {<<"key", c.k>>} ELSE {})
From(v, S) == Atoms(v) \subseteq (S \cup Nothing)
Owns(o, e) ==
    /\ \A i \in 1..Len(o) : i \notin Written(e) => e.st[i] = o[i]
    /\ CASE e.op = "mut" -> /\ From(e.st[e.s], Atoms(o[e.s]) \cup CallAtoms(e.c) \cup PathKeys(e.p))
                            /\ OffPath(o[e.s], e.st[e.s], e.p)
                            /\ e.r.is = "val" => From(e.r.x, Atoms(o[e.s]))
                            /\ e.to > 0 => e.st[e.to] = (IF e.r.is = "val" THEN e.r.x ELSE o[e.to])
         [] e.op \in {"iwrite", "itouch"} -> /\ From(e.st[e.s], Atoms(o[e.s]) \cup CallAtoms(e) \cup PathKeys(e.p))
                                             /\ OffPath(o[e.s], e.st[e.s], e.p)
         [] e.op = "dmove" -> /\ From(e.st[e.s], Atoms(o[e.s]) \cup Atoms(o[e.from]) \cup PathKeys(e.p))
                              /\ OffPath(o[e.s], e.st[e.s], e.p) /\ e.st[e.from] = VNull
         [] e.op = "dclone" -> e.st[e.to] = e.seen /\ From(e.seen, Atoms(o[e.s])) /\ e.eq
         [] e.op = "dset" -> e.st[e.s] = e.x
         [] OTHER -> TRUE

\* how long the texts of a string of n bytes, of [0,string], of {string:string}
\* are: dumped, in layout of width 1, displayed, written twice; and read back
Lengths(n, kind) ==
    LET c == CASE kind = 0 -> n + 2 [] kind = 1 -> n + 6 [] OTHER -> 2 * n + 7
        p == CASE kind = 0 -> n + 2 [] kind = 1 -> n + 11 [] OTHER -> 2 * n + 11
    IN <<c, p, IF kind = 0 THEN n ELSE c, c, p, 1>>

Start(e) == [vs |-> e.st]
Allowed(w, e) ==
    CASE Prop = "C16" -> Mutates(e)
      [] Prop = "C17" -> e.op = "dend" \/ Indexes(w.vs, e)
      [] OTHER -> e.bad = 0 /\ (CASE e.op = "dend" -> e.live = 0
                                      [] e.op = "dtext" -> e.lens = Lengths(e.n, e.kind)
                                      [] OTHER -> Owns(w.vs, e))
Then(w, e) == IF e.op \in {"dend", "dtext"} THEN w ELSE [vs |-> e.st]
Next == HNext(Start, Allowed, Then)
Spec == HInit /\ [][Next]_<<l, obj>>
=============================================================================
