------------------------------- MODULE BulkMC -------------------------------
(* That module Bulk's way of working backwards says what module Value's      *)
(* operations do, for every short sequence of operations on every container  *)
(* that begins with few members.                                             *)
EXTENDS Bulk, Emit
CONSTANTS MaxN, MaxOps

VARIABLES d, v, took
vars == <<d, v, took>>

Start(kind, n) == IF kind = "arr" THEN VArr([i \in 1..n |-> VInt(Item(i))])
                  ELSE VObj([i \in 1..n |-> KeyOf(d, i)], [i \in 1..n |-> VInt(Item(i))])
Init == /\ d \in {[kind |-> k, n |-> n, pre |-> w[1], post |-> w[2], ops |-> <<>>] : k \in {"arr", "obj"}, n \in 0..MaxN, w \in { <<0, 0>>, <<1, 2>> }}
        /\ v = Start(d.kind, d.n) /\ took = <<>>
Nothing == VNull
\* one after another: what is left, and what each handed back
RECURSIVE Grown(_, _, _), Cuts(_, _, _), Dels(_, _, _)
Grown(a, x, c) == IF c = 0 THEN a ELSE Grown(Append(a, VInt(x)), x + 1, c - 1)
Cuts(a, i, c) == IF c = 0 THEN [a |-> a, t |-> <<>>]
                 ELSE LET r == Cuts(IF i > Len(a) THEN a ELSE RemoveAt(a, i), i, c - 1) IN
                      [a |-> r.a, t |-> <<IF i > Len(a) THEN VNull ELSE a[i]>> \o r.t]
Dels(w, i, c) == IF c = 0 THEN [v |-> w, t |-> <<>>]
                 ELSE LET k == KeyOf(d, i)  r == Dels(Del(w, k), i + 1, c - 1) IN
                      [v |-> r.v, t |-> <<IF Has(w, k) THEN Get(w, k) ELSE VNull>> \o r.t]
Step(op, w, t) == d' = [d EXCEPT !.ops = Append(@, op)] /\ v' = w /\ took' = Append(took, t)
OnArray ==
    /\ d.kind = "arr"
    /\ LET a == v.a  n == Len(a) IN
       \/ \E x \in {50, 51} : Step([o |-> "push", i |-> 0, x |-> x, c |-> 0], VArr(Append(a, VInt(x))), Nothing)
       \/ Step([o |-> "pop", i |-> 0, x |-> 0, c |-> 0], VArr(SubSeq(a, 1, IF n = 0 THEN 0 ELSE n - 1)), IF n = 0 THEN VNull ELSE a[n])
       \/ \E c \in 1..3 : LET r == [j \in 1..c |-> IF j <= n THEN a[n - j + 1] ELSE VNull] IN
                          Step([o |-> "pops", i |-> 0, x |-> 0, c |-> c], VArr(SubSeq(a, 1, IF n < c THEN 0 ELSE n - c)), r)
       \/ \E c \in 1..2 : Step([o |-> "pushes", i |-> 0, x |-> 60, c |-> c], VArr(Grown(a, 61, c)), [j \in 1..c |-> VNull])
       \/ \E c \in 1..3, i \in 1..(n + 1) : Step([o |-> "cuts", i |-> i, x |-> 0, c |-> c], VArr(Cuts(a, i, c).a), Cuts(a, i, c).t)
       \/ \E i \in 1..n : Step([o |-> "set", i |-> i, x |-> 52, c |-> 0], VArr([a EXCEPT ![i] = VInt(52)]), Nothing)
       \/ \E i \in 1..(n + 1) : Step([o |-> "cut", i |-> i, x |-> 0, c |-> 0], IF i > n THEN v ELSE VArr(RemoveAt(a, i)), IF i > n THEN VNull ELSE a[i])
OnObject ==
    /\ d.kind = "obj"
    /\ \E k \in 1..(MaxN + 1) :
       \/ \E x \in {50, 51} : Step([o |-> "put", i |-> k, x |-> x, c |-> 0], Put(v, KeyOf(d, k), VInt(x)), Nothing)
       \/ Step([o |-> "del", i |-> k, x |-> 0, c |-> 0], Del(v, KeyOf(d, k)), IF Has(v, KeyOf(d, k)) THEN Get(v, KeyOf(d, k)) ELSE VNull)
       \/ d.ops = <<>> /\ k <= d.n
          /\ \E c \in 1..3 : Step([o |-> "dels", i |-> k, x |-> 0, c |-> c], Dels(v, k, c).v, Dels(v, k, c).t)
Next == Len(d.ops) < MaxOps /\ (OnArray \/ OnObject)
Spec == Init /\ [][Next]_vars

Or(x) == IF x = None THEN VNull ELSE VInt(x)
Sizes == SizeOf(d) = LenOf(v)
Places == IF d.kind = "arr" THEN \A p \in 1..Len(v.a) : v.a[p] = VInt(MemberAt(d, p))
          ELSE \A p \in 1..Len(v.k) : v.k[p] = KeyOf(d, KeyAt(d, All(d), p)) /\ v.v[p] = VInt(MemberAt(d, p))
Lookups == IF d.kind = "arr" THEN \A i \in 1..(Len(v.a) + 2) : Or(Lookup(d, i)) = (IF i <= Len(v.a) THEN v.a[i] ELSE VNull)
           ELSE \A k \in 0..(MaxN + 2) : Or(Lookup(d, k)) = (IF Has(v, KeyOf(d, k)) THEN Get(v, KeyOf(d, k)) ELSE VNull)
Handed == \A m \in 1..Len(took) :
    IF Group(d.ops[m]) THEN \A j \in 1..d.ops[m].c : Or(TookOf(d, m, j)) = took[m][j]
    ELSE Or(Took(d, m)) = took[m]
Left == \A m \in 1..All(d) : Group(d.ops[m]) => LeftOf(d, m, d.ops[m].c) = Size(d, m)

RECURSIVE Joined(_, _)
Joined(ps, s) == IF Len(ps) = 0 THEN <<>> ELSE IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o s \o Joined(Tail(ps), s)
Text == Joined([p \in 1..Pieces(d) |-> Piece(d, p)], <<44>>) = Compact(Calls(v))
Protocol == Joined([p \in 1..Pieces(d) |-> PieceCalls(d, p)], <<44>>) =
            LET cs == Calls(v) IN [i \in 1..Len(cs) |-> CASE cs[i] = cIndent -> 73 [] cs[i] = cDedent -> 68 [] cs[i] = cNewLine -> 78
                                                         [] cs[i] = cMin -> 77 [] OTHER -> cs[i]]
Layout == \A w \in {0, 3} :
    Joined([j \in 1..Lines(d) |-> LET x == Line(d, w, j) IN (IF x.in > 0 THEN << -x.in >> ELSE <<>>) \o x.text], <<10>>) = Pretty(Calls(v), w)
\* one more operation: whether it made a difference
Same == \A m \in 1..All(d) : m = All(d) =>
    LET c == [d EXCEPT !.ops = SubSeq(@, 1, m - 1)]
        w == IF d.kind = "arr" THEN VArr([p \in 1..SizeOf(c) |-> VInt(MemberAt(c, p))])
             ELSE VObj([p \in 1..SizeOf(c) |-> KeyOf(d, KeyAt(c, All(c), p))], [p \in 1..SizeOf(c) |-> VInt(MemberAt(c, p))])
    IN (d.kind = "obj" \/ d.ops[m].o \notin {"cut", "cuts"}) => (SameMembers(c, d) = ValEq(w, v))
=============================================================================
