------------------------------- MODULE ObjTree ------------------------------
(* The representation of objects: a vector of nodes in insertion order whose *)
(* left and right links (positions counted from 0; 0 also means none, since  *)
(* nothing links to the root) make a binary tree ordered by key hash.  Equal *)
(* hashes with different keys go right.  Removal rebuilds everything.        *)
EXTENDS Value

Node(k, h, x) == [k |-> k, h |-> h, v |-> x, left |-> 0, right |-> 0]

RECURSIVE Walk(_, _, _, _)
Walk(st, at, k, h) ==
    LET n == st[at] IN
    IF h = n.h /\ k = n.k THEN [found |-> TRUE, at |-> at, side |-> "here"]
    ELSE IF h < n.h
         THEN IF n.left = 0 THEN [found |-> FALSE, at |-> at, side |-> "left"] ELSE Walk(st, n.left + 1, k, h)
         ELSE IF n.right = 0 THEN [found |-> FALSE, at |-> at, side |-> "right"] ELSE Walk(st, n.right + 1, k, h)

TFind(st, k, h) == IF st = <<>> THEN 0 ELSE LET w == Walk(st, 1, k, h) IN IF w.found THEN w.at ELSE 0
TInsert(st, k, h, x) ==
    IF st = <<>> THEN <<Node(k, h, x)>>
    ELSE LET w == Walk(st, 1, k, h)
             s == Append(st, Node(k, h, x))
         IN CASE w.side = "here" -> [st EXCEPT ![w.at].v = x]
              [] w.side = "left" -> [s EXCEPT ![w.at].left = Len(st)]
              [] w.side = "right" -> [s EXCEPT ![w.at].right = Len(st)]
TBuild(nodes) == FoldLeft(LAMBDA s, n : TInsert(s, n.k, n.h, n.v), <<>>, nodes)
TRemove(st, k, h) == LET i == TFind(st, k, h) IN IF i = 0 THEN st ELSE TBuild(RemoveAt(st, i))

\* what the representation stands for
Abs(st) == VObj([i \in 1..Len(st) |-> st[i].k], [i \in 1..Len(st) |-> st[i].v])

\* the shape of the tree
Forward(st) == \A i \in 1..Len(st) : /\ st[i].left = 0 \/ (st[i].left >= i /\ st[i].left < Len(st))
                                     /\ st[i].right = 0 \/ (st[i].right >= i /\ st[i].right < Len(st))
OneParent(st) == \A j \in 1..(Len(st) - 1) :
                   Cardinality({i \in 1..Len(st) : st[i].left = j}) + Cardinality({i \in 1..Len(st) : st[i].right = j}) = 1
=============================================================================
