-------------------------------- MODULE IterMC ------------------------------
(* Every script of steps on every length, within bounds.                     *)
EXTENDS Iter, FiniteSets, TLC, Json
CONSTANTS MaxItems, MaxSteps, Emitting
VARIABLES n, s, cs
Init == n \in 0..MaxItems /\ s = I0(n) /\ cs = <<>>
Ended == IF cs = <<>> THEN FALSE ELSE Last(cs) \in 20..29
Next == /\ ~Ended /\ Len(cs) < MaxSteps /\ UNCHANGED n
        /\ \E c \in {1, 2, 3, 4, 10, 11, 12, 30, 31, 40, 41, 50, 51, 60, 61, 20, 21, 22, 23, 24, 25, 26, 27} : cs' = Append(cs, c) /\ s' = IStep(s, c)
Spec == Init /\ [][Next]_<<n, s, cs>>

Bounds == 0 <= s.lo /\ s.lo <= s.hi /\ s.hi <= n
\* no item is seen twice, nor again what is still to come
Once == \A i, j \in 1..Len(s.seen) : s.seen[i] = s.seen[j] => i = j
Apart == \A i \in 1..Len(s.seen) : s.seen[i] <= s.lo \/ s.seen[i] > s.hi
\* without skipping, what was seen and what remains is everything
Plain == \A i \in 1..Len(cs) : cs[i] \notin {11, 12, 20, 21, 31, 41, 51, 60, 61}
Everything == Plain => Len(s.seen) + Left(s) = n
Exhausted == (s.lo = s.hi) => \A c \in {1, 2} : Last(IStep(s, c).out) = NoneLeft
\* front to back in order
InOrder == (\A i \in 1..Len(cs) : cs[i] \in {1, 3, 4}) => s.seen = [i \in 1..Len(s.seen) |-> i]
Backwards == (\A i \in 1..Len(cs) : cs[i] \in {2, 3, 4}) => s.seen = [i \in 1..Len(s.seen) |-> n + 1 - i]
Emit == Emitting /\ (Ended \/ Len(cs) = MaxSteps) => PrintT("@" \o ToJson([n |-> n, cs |-> cs, out |-> s.out, seen |-> s.seen]))
=============================================================================
