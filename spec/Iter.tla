--------------------------------- MODULE Iter -------------------------------
(* Iteration from both ends: what remains is a stretch lo+1..hi of the       *)
(* items.  Steps: 1 front, 2 back, 3 how many remain, 4 the size hint, 10+k  *)
(* the k-th next (from 0), 30+k the k-th from the back, 40+k and 50+k the    *)
(* same by searching, 60+k only where it was found, and, ending the          *)
(* iteration, 20 count, 21 last, 22, 24 and 26 the rest from the front, 23,  *)
(* 25 and 27 the rest from the back.                                         *)
EXTENDS Integers, Sequences, SequencesExt

I0(n) == [lo |-> 0, hi |-> n, seen |-> <<>>, out |-> <<>>]
NoneLeft == [is |-> "none"]
Item(i) == [is |-> "item", i |-> i]
Count(n) == [is |-> "n", n |-> n]
AllOf(is) == [is |-> "all", is_ |-> is]
Left(s) == s.hi - s.lo

Says(s, r) == [s EXCEPT !.out = Append(@, r)]
Shows(s, i) == [s EXCEPT !.out = Append(@, Item(i)), !.seen = Append(@, i)]
Range2(a, b) == [j \in 1..(IF b >= a THEN b - a + 1 ELSE 0) |-> a + j - 1]
IStep(s, c) ==
    CASE c = 1 -> IF s.lo = s.hi THEN Says(s, NoneLeft) ELSE Shows([s EXCEPT !.lo = @ + 1], s.lo + 1)
      [] c = 2 -> IF s.lo = s.hi THEN Says(s, NoneLeft) ELSE Shows([s EXCEPT !.hi = @ - 1], s.hi)
      [] c \in {3, 4} -> Says(s, Count(Left(s)))
      [] c \in 10..19 \cup 40..49 ->
             LET k == c % 10 IN
             IF Left(s) <= k THEN Says([s EXCEPT !.lo = s.hi], NoneLeft) ELSE Shows([s EXCEPT !.lo = @ + k + 1], s.lo + k + 1)
      [] c \in 30..39 \cup 50..59 ->
             LET k == c % 10 IN
             IF Left(s) <= k THEN Says([s EXCEPT !.lo = s.hi], NoneLeft) ELSE Shows([s EXCEPT !.hi = @ - (k + 1)], s.hi - k)
      [] c \in 60..69 ->
             LET k == c % 10 IN
             IF Left(s) <= k THEN Says([s EXCEPT !.lo = s.hi], NoneLeft) ELSE Says([s EXCEPT !.lo = @ + k + 1], Count(k))
      [] c = 20 -> Says([s EXCEPT !.lo = s.hi], Count(Left(s)))
      [] c = 21 -> IF s.lo = s.hi THEN Says(s, NoneLeft) ELSE Shows([s EXCEPT !.lo = s.hi], s.hi)
      [] c \in {22, 24, 26} -> LET r == Range2(s.lo + 1, s.hi) IN [Says(s, AllOf(r)) EXCEPT !.lo = s.hi, !.seen = @ \o r]
      [] c \in {23, 25, 27} -> LET r == Reverse(Range2(s.lo + 1, s.hi)) IN [Says(s, AllOf(r)) EXCEPT !.lo = s.hi, !.seen = @ \o r]
RunScript(n, cs) == FoldLeft(IStep, I0(n), cs)
=============================================================================
