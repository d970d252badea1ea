-------------------------------- MODULE Value -------------------------------
(* JSON values: null, booleans, strings (sequences of code points), numbers  *)
(* (module Num), arrays (sequences), objects (insertion ordered: parallel    *)
(* sequences of distinct keys and of values).                                *)
EXTENDS Num, FiniteSets

VNull == [t |-> "null"]
VBool(x) == [t |-> "bool", b |-> x]
VStr(s) == [t |-> "str", s |-> s]
VArr(a) == [t |-> "arr", a |-> a]
VObj(k, v) == [t |-> "obj", k |-> k, v |-> v]
VInt(n) == MkNum(n < 0, LET m == IF n < 0 THEN -n ELSE n IN IF m = 0 THEN <<>> ELSE NatDigits(m), 0)
EmptyObj == VObj(<<>>, <<>>)
EmptyArr == VArr(<<>>)

\* position of key k among keys ks, 0 if absent
Find(ks, k) == LET S == {i \in 1..Len(ks) : ks[i] = k} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE

-----------------------------------------------------------------------------
\* objects as insertion-ordered maps
Has(o, k) == Find(o.k, k) > 0
Get(o, k) == o.v[Find(o.k, k)]
Put(o, k, x) == LET i == Find(o.k, k) IN
                IF i > 0 THEN [o EXCEPT !.v[i] = x]
                ELSE [o EXCEPT !.k = Append(@, k), !.v = Append(@, x)]
Del(o, k) == LET i == Find(o.k, k) IN
             IF i = 0 THEN o ELSE [o EXCEPT !.k = RemoveAt(@, i), !.v = RemoveAt(@, i)]
FromPairs(ps) == FoldLeft(LAMBDA o, p : Put(o, p[1], p[2]), EmptyObj, ps)

-----------------------------------------------------------------------------
\* A recorded value; deeply nested ones are recorded children first.
FlatStep(stk, x) ==
    CASE x.t = "arr" -> LET m == Len(stk) - x.n IN
                        Append(SubSeq(stk, 1, m), VArr(SubSeq(stk, m + 1, Len(stk))))
      [] x.t = "obj" -> LET m == Len(stk) - Len(x.k) IN
                        Append(SubSeq(stk, 1, m), VObj(x.k, SubSeq(stk, m + 1, Len(stk))))
      [] OTHER -> Append(stk, x)
Recorded(x) == IF x.t = "flat" THEN FoldLeft(FlatStep, <<>>, x.f)[1] ELSE x

-----------------------------------------------------------------------------
\* equality of values
RECURSIVE ValEq(_, _)
ValEq(a, b) ==
    IF a.t # b.t THEN FALSE
    ELSE CASE a.t = "null" -> TRUE
           [] a.t = "bool" -> a.b = b.b
           [] a.t = "str" -> a.s = b.s
           [] a.t = "num" -> NumEq(a, b)
           [] a.t = "arr" -> Len(a.a) = Len(b.a) /\ \A i \in 1..Len(a.a) : ValEq(a.a[i], b.a[i])
           [] a.t = "obj" -> Len(a.k) = Len(b.k) /\ \A i \in 1..Len(a.k) :
                                LET j == Find(b.k, a.k[i]) IN j > 0 /\ ValEq(a.v[i], b.v[j])

\* the same value, member order and sign of zero included (numbers by value)
RECURSIVE ValSame(_, _)
ValSame(a, b) ==
    IF a.t # b.t THEN FALSE
    ELSE CASE a.t = "null" -> TRUE
           [] a.t = "bool" -> a.b = b.b
           [] a.t = "str" -> a.s = b.s
           [] a.t = "num" -> NumSame(a, b)
           [] a.t = "arr" -> Len(a.a) = Len(b.a) /\ \A i \in 1..Len(a.a) : ValSame(a.a[i], b.a[i])
           [] a.t = "obj" -> a.k = b.k /\ \A i \in 1..Len(a.k) : ValSame(a.v[i], b.v[i])

RECURSIVE HasNaN(_)
HasNaN(v) == CASE v.t = "num" -> v.nan
               [] v.t = "arr" -> \E i \in 1..Len(v.a) : HasNaN(v.a[i])
               [] v.t = "obj" -> \E i \in 1..Len(v.v) : HasNaN(v.v[i])
               [] OTHER -> FALSE
SeqMax(s) == FoldLeft(LAMBDA a, b : IF a > b THEN a ELSE b, 0, s)
\* non-empty containers inside one another
RECURSIVE Nest(_)
Nest(v) == CASE v.t = "arr" -> IF v.a = <<>> THEN 0 ELSE 1 + SeqMax([i \in 1..Len(v.a) |-> Nest(v.a[i])])
             [] v.t = "obj" -> IF v.v = <<>> THEN 0 ELSE 1 + SeqMax([i \in 1..Len(v.v) |-> Nest(v.v[i])])
             [] OTHER -> 0

\* what the predicates and accessors say
LenOf(v) == CASE v.t = "arr" -> Len(v.a) [] v.t = "obj" -> Len(v.k) [] OTHER -> 0
EmptyOf(v) == CASE v.t = "null" -> TRUE
                [] v.t = "bool" -> ~v.b
                [] v.t = "num" -> v.nan \/ v.d = <<>>
                [] v.t = "str" -> v.s = <<>>
                [] v.t = "arr" -> v.a = <<>>
                [] v.t = "obj" -> v.k = <<>>
=============================================================================
