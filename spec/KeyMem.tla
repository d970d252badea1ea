-------------------------------- MODULE KeyMem ------------------------------
(* Who owns the memory of keys.  Nodes live in a buffer that moves when it   *)
(* grows; a short key is inside its node and is reached by a pointer into    *)
(* the buffer, a long key is a block of its own.  Blocks and buffers are     *)
(* numbered; an operation that would follow a pointer into freed memory or   *)
(* free something twice makes bad true.                                      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Short, Long, Slots, MaxLen, Emitting, NewCaps, MaxSteps
Keys == Short \cup Long

VARIABLES o,        \* slot -> [buf, cap, n: sequence of [k, p]]; p = <<buffer, index>> or <<block>>
          live,     \* live buffers and blocks
          bad,
          h         \* how we got here
vars == <<o, live, bad, h>>

None == [buf |-> 0, cap |-> 0, n |-> <<>>]
Fresh(used) == CHOOSE i \in 1..(Cardinality(used) + 1) : i \notin used
IsLong(k) == k \in Long

\* m: the memory, [live, bad]
Alloc(m) == LET i == Fresh(m.live) IN [m |-> [m EXCEPT !.live = @ \cup {i}], id |-> i]
FreeId(m, i) == IF i = 0 THEN m ELSE [live |-> m.live \ {i}, bad |-> m.bad \/ i \notin m.live]
\* reading a key through its pointer
Follow(m, p) == [m EXCEPT !.bad = @ \/ p[1] \notin m.live]

\* attach: a node at index i of buffer b gets key k
Attach(m, b, i, k) == IF IsLong(k) THEN LET a == Alloc(m) IN [m |-> a.m, p |-> <<a.id>>]
                      ELSE [m |-> m, p |-> <<b, i>>]
FixPtr(b, ns) == [i \in 1..Len(ns) |-> IF IsLong(ns[i].k) THEN ns[i] ELSE [ns[i] EXCEPT !.p = <<b, i>>]]
Grown(c) == IF 2 * c > 4 THEN 2 * c ELSE 4

\* insert a key that is not there into object x
Add(m, x, k) ==
    LET i == Len(x.n) + 1 IN
    IF Len(x.n) < x.cap
    THEN LET a == Attach(m, x.buf, i, k) IN [m |-> a.m, x |-> [x EXCEPT !.n = Append(@, [k |-> k, p |-> a.p])]]
    ELSE LET b == Alloc(m)
             a == Attach(FreeId(b.m, x.buf), b.id, i, k)
         IN [m |-> a.m, x |-> [buf |-> b.id, cap |-> Grown(x.cap), n |-> Append(FixPtr(b.id, x.n), [k |-> k, p |-> a.p])]]
\* comparing keys follows their pointers
Compare(m, x) == FoldLeft(LAMBDA mm, nd : Follow(mm, nd.p), m, x.n)
DropKeys(m, x) == FoldLeft(LAMBDA mm, nd : IF IsLong(nd.k) THEN FreeId(mm, nd.p[1]) ELSE mm, m, x.n)
Drop(m, x) == FreeId(DropKeys(m, x), x.buf)
WithCap(m, c) == IF c = 0 THEN [m |-> m, x |-> None]
                 ELSE LET b == Alloc(m) IN [m |-> b.m, x |-> [buf |-> b.id, cap |-> c, n |-> <<>>]]
\* the others are inserted into a new object, from the old one's keys
Rebuild(m, x, k) ==
    LET w == WithCap(m, Len(x.n) - 1)
        keep == SelectSeq(x.n, LAMBDA nd : nd.k # k)
        r == FoldLeft(LAMBDA s, nd : Add(Compare(Follow(s.m, nd.p), s.x), s.x, nd.k), w, keep)
    IN [m |-> Drop(r.m, x), x |-> r.x]
CloneOf(m, x) ==
    IF x.n = <<>> THEN [m |-> m, x |-> None]
    ELSE LET b == Alloc(m)
             r == FoldLeft(LAMBDA s, nd : IF IsLong(nd.k)
                                          THEN LET a == Alloc(Follow(s.m, nd.p)) IN [m |-> a.m, n |-> Append(s.n, [k |-> nd.k, p |-> <<a.id>>])]
                                          ELSE [m |-> s.m, n |-> Append(s.n, [k |-> nd.k, p |-> <<0>>])],
                           [m |-> b.m, n |-> <<>>], x.n)
         IN [m |-> r.m, x |-> [buf |-> b.id, cap |-> Len(x.n), n |-> FixPtr(b.id, r.n)]]

Mem == [live |-> live, bad |-> bad]
Becomes(r, s, note) == /\ o' = [o EXCEPT ![s] = r.x] /\ live' = r.m.live /\ bad' = r.m.bad /\ h' = Append(h, note)
HasKey(x, k) == \E i \in 1..Len(x.n) : x.n[i].k = k

Init == o = [s \in Slots |-> None] /\ live = {} /\ bad = FALSE /\ h = <<>>
Set(s, k) ==
    /\ HasKey(o[s], k) \/ Len(o[s].n) < MaxLen
    /\ IF HasKey(o[s], k) THEN Becomes([m |-> Compare(Mem, o[s]), x |-> o[s]], s, <<"i", s, k>>)
       ELSE Becomes(Add(Compare(Mem, o[s]), o[s], k), s, <<"i", s, k>>)
Unset(s, k) == HasKey(o[s], k) /\ Becomes(Rebuild(Compare(Mem, o[s]), o[s], k), s, <<"r", s, k>>)
Clear(s) == o[s].n # <<>> /\ Becomes([m |-> DropKeys(Mem, o[s]), x |-> [o[s] EXCEPT !.n = <<>>]], s, <<"c", s>>)
New(s, c) == LET w == WithCap(Drop(Mem, o[s]), c) IN Becomes(w, s, <<"n", s, c>>)
Clone(s, t) == s # t /\ LET c == CloneOf(Mem, o[s]) IN Becomes([m |-> Drop(c.m, o[t]), x |-> c.x], t, <<"k", s, t>>)
Swap(s, t) == s < t /\ o' = [o EXCEPT ![s] = o[t], ![t] = o[s]] /\ UNCHANGED <<live, bad>> /\ h' = Append(h, <<"s", s, t>>)
Next == /\ Len(h) < MaxSteps
        /\ \E s \in Slots :
             \/ \E k \in Keys : Set(s, k) \/ Unset(s, k)
             \/ Clear(s)
             \/ \E c \in NewCaps : New(s, c)
             \/ \E t \in Slots : Clone(s, t) \/ Swap(s, t)
Spec == Init /\ [][Next]_vars
View == <<o, live, bad>>

NeverBad == ~bad
\* every pointer leads to the key's own memory
PtrOK == \A s \in Slots : LET x == o[s] IN
            /\ x.cap > 0 => x.buf \in live
            /\ \A i \in 1..Len(x.n) : IF IsLong(x.n[i].k) THEN x.n[i].p[1] \in live ELSE x.n[i].p = <<x.buf, i>>
Owned == UNION {{o[s].buf} \cup {o[s].n[i].p[1] : i \in {j \in 1..Len(o[s].n) : IsLong(o[s].n[j].k)}} : s \in Slots} \ {0}
\* everything live is owned, and exactly once
NoLeak == Owned = live
Once == LET n(s) == (IF o[s].buf = 0 THEN 0 ELSE 1) + Cardinality({j \in 1..Len(o[s].n) : IsLong(o[s].n[j].k)})
            S == SetToSeq(Slots)
        IN FoldLeft(LAMBDA a, s : a + n(s), 0, S) = Cardinality(live)
Emit == Emitting => PrintT("@" \o ToJson([h |-> h, a |-> [s \in Slots |-> [i \in 1..Len(o[s].n) |-> o[s].n[i].k]]]))
=============================================================================
