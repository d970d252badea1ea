-------------------------------- MODULE Bulk --------------------------------
(* Large containers.  One is described by how many members it began with and *)
(* by what was done to it since: d = [kind, n, pre, post, ops].  The i-th of *)
(* the first is the number Item(i), under key number i in an object.  What is *)
(* where afterwards is worked out backwards from the last operation, so that *)
(* a hundred thousand members cost no more than three; BulkMC checks that    *)
(* this is what module Value's operations make of it one member at a time.   *)
(* Some operations stand for q.c of a kind: pops; pushes of q.x+1, q.x+2...; *)
(* cuts, each at q.i; dels of the keys q.i, q.i+1..., in any order, of an    *)
(* object to which nothing was done before.                                  *)
EXTENDS Value

Item(i) == 3 * i + 1
None == -1

Digit7(i, j) == 48 + ((i \div (10 ^ (7 - j))) % 10)
Seven(i) == [j \in 1..7 |-> Digit7(i, j)]
\* key number i of d: d.pre times p (or k) before the number and d.post times q
\* behind it, so that it is inline or not and is told apart early or late
Middle(d, i) == (IF d.pre = 0 /\ d.post = 0 THEN <<107>> ELSE <<>>) \o Seven(i)
KeyOf(d, i) == [j \in 1..d.pre |-> 112] \o Middle(d, i) \o [j \in 1..d.post |-> 113]
\* the same with what is at its ends counted
KeyShape(d, i) == [a |-> d.pre, m |-> Middle(d, i), z |-> d.post]
NoKey == [a |-> 0, m |-> <<>>, z |-> 0]

Least(x, y) == IF x < y THEN x ELSE y
Most(x, y) == IF x > y THEN x ELSE y
\* of s places, how many are at i or up to c - 1 places later
Within(i, c, s) == Most(0, Least(s, i + c - 1) - (i - 1))
Group(q) == q.o \in {"pops", "pushes", "cuts", "dels"}

RECURSIVE Size(_, _), ElemAt(_, _, _), PosOf(_, _, _), KeyAt(_, _, _), ValOf(_, _, _)
\* after the first m operations
Size(d, m) ==
    IF m = 0 THEN d.n
    ELSE LET s == Size(d, m - 1)  q == d.ops[m] IN
         CASE q.o = "push" -> s + 1
           [] q.o = "pop" -> IF s > 0 THEN s - 1 ELSE 0
           [] q.o = "cut" -> IF q.i >= 1 /\ q.i <= s THEN s - 1 ELSE s
           [] q.o = "pops" -> Most(0, s - q.c)
           [] q.o = "pushes" -> s + q.c
           [] q.o \in {"cuts", "dels"} -> s - Within(q.i, q.c, s)
           [] q.o = "put" -> IF PosOf(d, m - 1, q.i) = 0 THEN s + 1 ELSE s
           [] q.o = "del" -> IF PosOf(d, m - 1, q.i) = 0 THEN s ELSE s - 1
           [] OTHER -> s
\* arrays: the number at position p, None past the end
ElemAt(d, m, p) ==
    IF p < 1 \/ p > Size(d, m) THEN None
    ELSE IF m = 0 THEN Item(p)
    ELSE LET q == d.ops[m] IN
         CASE q.o = "push" -> IF p = Size(d, m) THEN q.x ELSE ElemAt(d, m - 1, p)
           [] q.o = "pushes" -> LET s == Size(d, m - 1) IN IF p > s THEN q.x + (p - s) ELSE ElemAt(d, m - 1, p)
           [] q.o = "cuts" -> ElemAt(d, m - 1, IF p >= q.i THEN p + q.c ELSE p)
           [] q.o = "set" -> IF p = q.i THEN q.x ELSE ElemAt(d, m - 1, p)
           [] q.o = "cut" -> ElemAt(d, m - 1, IF q.i >= 1 /\ p >= q.i THEN p + 1 ELSE p)
           [] OTHER -> ElemAt(d, m - 1, p)
\* objects: where key number k is (0: nowhere), which key is at position p
PosOf(d, m, k) ==
    IF m = 0 THEN (IF k >= 1 /\ k <= d.n THEN k ELSE 0)
    ELSE LET q == d.ops[m]  r == PosOf(d, m - 1, q.i)  p == PosOf(d, m - 1, k) IN
         CASE q.o = "put" -> IF k = q.i /\ r = 0 THEN Size(d, m - 1) + 1 ELSE p
           [] q.o = "del" -> IF r = 0 THEN p ELSE IF k = q.i THEN 0 ELSE IF p > r THEN p - 1 ELSE p
           [] q.o = "dels" -> IF p < q.i THEN p ELSE IF p < q.i + q.c THEN 0 ELSE p - q.c
KeyAt(d, m, p) ==
    IF m = 0 THEN p
    ELSE LET q == d.ops[m]  r == PosOf(d, m - 1, q.i) IN
         CASE q.o = "put" -> IF r = 0 /\ p = Size(d, m - 1) + 1 THEN q.i ELSE KeyAt(d, m - 1, p)
           [] q.o = "del" -> KeyAt(d, m - 1, IF r > 0 /\ p >= r THEN p + 1 ELSE p)
           [] q.o = "dels" -> KeyAt(d, m - 1, IF p >= q.i THEN p + q.c ELSE p)
ValOf(d, m, k) ==
    IF m = 0 THEN (IF k >= 1 /\ k <= d.n THEN Item(k) ELSE None)
    ELSE LET q == d.ops[m] IN
         IF q.o = "dels" THEN (IF k >= q.i /\ k < q.i + q.c THEN None ELSE ValOf(d, m - 1, k))
         ELSE IF q.i # k THEN ValOf(d, m - 1, k) ELSE IF q.o = "put" THEN q.x ELSE None

All(d) == Len(d.ops)
SizeOf(d) == Size(d, All(d))
\* by index or key number; at a position
Lookup(d, i) == IF d.kind = "arr" THEN ElemAt(d, All(d), i) ELSE ValOf(d, All(d), i)
MemberAt(d, p) == IF d.kind = "arr" THEN ElemAt(d, All(d), p) ELSE ValOf(d, All(d), KeyAt(d, All(d), p))
\* what operation m handed back
Took(d, m) == LET q == d.ops[m]  s == Size(d, m - 1) IN
    CASE q.o = "pop" -> IF s = 0 THEN None ELSE ElemAt(d, m - 1, s)
      [] q.o = "cut" -> ElemAt(d, m - 1, q.i)
      [] q.o = "del" -> ValOf(d, m - 1, q.i)
      [] OTHER -> None
\* what the j-th of a group handed back, and how many were left
TookOf(d, m, j) == LET q == d.ops[m]  s == Size(d, m - 1) IN
    CASE q.o = "pops" -> ElemAt(d, m - 1, s - j + 1)
      [] q.o = "cuts" -> ElemAt(d, m - 1, q.i + j - 1)
      [] q.o = "dels" -> ValOf(d, m - 1, q.i + j - 1)
      [] OTHER -> None
LeftOf(d, m, j) == LET q == d.ops[m] IN
    Size([d EXCEPT !.ops = Append(SubSeq(@, 1, m - 1), [q EXCEPT !.c = j])], m)

\* two that differ in what was done last: the places touched decide
Touched(d) == {d.ops[m].i : m \in 1..All(d)} \cup UNION {d.ops[m].i..(d.ops[m].i + d.ops[m].c) : m \in 1..All(d)} \cup {SizeOf(d)}
SameMembers(d, e) == SizeOf(d) = SizeOf(e) /\ \A i \in Touched(d) \cup Touched(e) : Lookup(d, i) = Lookup(e, i)

-----------------------------------------------------------------------------
\* texts, piece by piece
NumberText(x) == [j \in 1..Len(NatDigits(x)) |-> 48 + NatDigits(x)[j]]
MemberText(d, p, colon) ==
    IF d.kind = "arr" THEN NumberText(MemberAt(d, p))
    ELSE <<34>> \o KeyOf(d, KeyAt(d, All(d), p)) \o <<34>> \o colon \o NumberText(MemberAt(d, p))
Opening(d) == IF d.kind = "arr" THEN <<91>> ELSE <<123>>
Closing(d) == IF d.kind = "arr" THEN <<93>> ELSE <<125>>
\* the compact text between its commas
Piece(d, p) == (IF p = 1 THEN Opening(d) ELSE <<>>)
               \o (IF SizeOf(d) = 0 THEN <<>> ELSE MemberText(d, p, <<58>>))
               \o (IF p >= SizeOf(d) THEN Closing(d) ELSE <<>>)
\* the calls a generator sees, between the commas: I indent, D dedent,
\* N new_line, M write_min
PieceCalls(d, p) == (IF p = 1 THEN Opening(d) \o (IF SizeOf(d) = 0 THEN <<>> ELSE <<73>>) ELSE <<>>)
                    \o (IF SizeOf(d) = 0 THEN <<>> ELSE <<78>> \o MemberText(d, p, <<77>>))
                    \o (IF p >= SizeOf(d) THEN (IF SizeOf(d) = 0 THEN <<>> ELSE <<68, 78>>) \o Closing(d) ELSE <<>>)
Pieces(d) == IF SizeOf(d) = 0 THEN 1 ELSE SizeOf(d)
\* the lines of the pretty text: how far in, and what
Line(d, w, j) ==
    IF SizeOf(d) = 0 THEN [in |-> 0, text |-> Opening(d) \o Closing(d)]
    ELSE IF j = 1 THEN [in |-> 0, text |-> Opening(d)]
    ELSE IF j = SizeOf(d) + 2 THEN [in |-> 0, text |-> Closing(d)]
    ELSE [in |-> w, text |-> MemberText(d, j - 1, <<58, 32>>) \o (IF j - 1 < SizeOf(d) THEN <<44>> ELSE <<>>)]
Lines(d) == IF SizeOf(d) = 0 THEN 1 ELSE SizeOf(d) + 2
=============================================================================
