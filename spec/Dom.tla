--------------------------------- MODULE Dom --------------------------------
(* Documents: reading and writing places inside values, and the mutators.    *)
(* A place is a path of steps [k |-> key] or [i |-> position] (positions     *)
(* from 0; Huge stands for any position beyond every length).                *)
EXTENDS Value

Huge == 2147483647
IsKey(s) == "k" \in DOMAIN s
InRange(v, i) == v.t = "arr" /\ i < Len(v.a)

\* reading
Read1(v, s) == IF IsKey(s) THEN (IF v.t = "obj" /\ Has(v, s.k) THEN Get(v, s.k) ELSE VNull)
               ELSE IF InRange(v, s.i) THEN v.a[s.i + 1] ELSE VNull
Read(v, p) == FoldLeft(Read1, v, p)
Exists1(v, s) == IF IsKey(s) THEN v.t = "obj" /\ Has(v, s.k) ELSE InRange(v, s.i)
Exists(v, p) == \A n \in 1..Len(p) : Exists1(Read(v, SubSeq(p, 1, n - 1)), p[n])

\* Going to a place to change it creates what is missing.
Room(v, s) ==
    IF IsKey(s)
    THEN IF v.t = "obj" THEN (IF Has(v, s.k) THEN v ELSE Put(v, s.k, VNull)) ELSE VObj(<<s.k>>, <<VNull>>)
    ELSE LET w == IF v.t = "arr" THEN v ELSE VArr(<<VNull>>) IN
         IF InRange(w, s.i) THEN w ELSE VArr(Append(w.a, VNull))
\* where in w = Room(v, s) the place is, counted from 1
SpotIn(v, w, s) == IF IsKey(s) THEN Find(w.k, s.k)
                   ELSE IF InRange(v, s.i) THEN s.i + 1
                   ELSE IF v.t # "arr" /\ s.i = 0 THEN 1 ELSE Len(w.a)
Member(w, n) == IF w.t = "obj" THEN w.v[n] ELSE w.a[n]
WithMember(w, n, x) == IF w.t = "obj" THEN [w EXCEPT !.v[n] = x] ELSE [w EXCEPT !.a[n] = x]

-----------------------------------------------------------------------------
\* The mutators: [post, r] with r the result
Unit == [is |-> "unit"]
Good == [is |-> "ok"]
Wrong(s) == [is |-> "wrong", want |-> s]
Gives(x) == [is |-> "val", x |-> x]
NoStr == [is |-> "none"]
cArray == <<65, 114, 114, 97, 121>>
cObject == <<79, 98, 106, 101, 99, 116>>
To(post, r) == [post |-> post, r |-> r]

Apply(v, c) ==
    CASE c.c = "assign" -> To(c.x, Unit)
      [] c.c = "touch" -> To(v, Unit)
      [] c.c = "push" -> IF v.t = "arr" THEN To(VArr(Append(v.a, c.x)), Good) ELSE To(v, Wrong(cArray))
      [] c.c = "pop" -> IF v.t = "arr" /\ v.a # <<>> THEN To(VArr(SubSeq(v.a, 1, Len(v.a) - 1)), Gives(v.a[Len(v.a)]))
                        ELSE To(v, Gives(VNull))
      [] c.c = "aremove" -> IF InRange(v, c.i) THEN To(VArr(RemoveAt(v.a, c.i + 1)), Gives(v.a[c.i + 1])) ELSE To(v, Gives(VNull))
      [] c.c = "insert" -> IF v.t = "obj" THEN To(Put(v, c.k, c.x), Good) ELSE To(v, Wrong(cObject))
      [] c.c = "remove" -> IF v.t = "obj" /\ Has(v, c.k) THEN To(Del(v, c.k), Gives(Get(v, c.k))) ELSE To(v, Gives(VNull))
      [] c.c = "take" -> To(VNull, Gives(v))
      [] c.c = "takestr" -> IF v.t = "str" THEN To(VNull, Gives(v)) ELSE To(v, NoStr)
      [] c.c = "clear" -> To(CASE v.t = "arr" -> EmptyArr [] v.t = "obj" -> EmptyObj [] v.t = "str" -> VStr(<<>>) [] OTHER -> VNull, Unit)

\* the same at a place of a document
RECURSIVE At(_, _, _)
At(v, p, c) ==
    IF p = <<>> THEN Apply(v, c)
    ELSE LET w == Room(v, p[1])
             n == SpotIn(v, w, p[1])
             inner == At(Member(w, n), Tail(p), c)
         IN To(WithMember(w, n, inner.post), inner.r)
Write(v, p, x) == At(v, p, [c |-> "assign", x |-> x]).post
Touch(v, p) == At(v, p, [c |-> "touch"]).post

-----------------------------------------------------------------------------
\* What a value is made of: keys and contents, as a bag would list them.
RECURSIVE Atoms(_)
Atoms(v) == CASE v.t = "arr" -> UNION {Atoms(v.a[i]) : i \in 1..Len(v.a)}
              [] v.t = "obj" -> {<<"key", v.k[i]>> : i \in 1..Len(v.k)} \cup UNION {Atoms(v.v[i]) : i \in 1..Len(v.v)}
              [] OTHER -> {<<v.t, v>>}
Nothing == Atoms(VNull) \cup Atoms(VStr(<<>>))
PathKeys(p) == {<<"key", p[i].k>> : i \in {j \in 1..Len(p) : IsKey(p[j])}}

\* Everything off the path to p is as it was.
RECURSIVE OffPath(_, _, _)
OffPath(v, w, p) ==
    IF p = <<>> THEN TRUE
    ELSE LET s == p[1] IN
         IF IsKey(s)
         THEN v.t = "obj" => /\ w.t = "obj"
                             /\ \A i \in 1..Len(v.k) : v.k[i] # s.k => Has(w, v.k[i]) /\ Get(w, v.k[i]) = v.v[i]
                             /\ Has(v, s.k) => Has(w, s.k) /\ OffPath(Get(v, s.k), Get(w, s.k), Tail(p))
         ELSE v.t = "arr" => /\ w.t = "arr" /\ Len(w.a) >= Len(v.a)
                             /\ \A i \in 1..Len(v.a) : i - 1 # s.i => w.a[i] = v.a[i]
                             /\ s.i < Len(v.a) => OffPath(v.a[s.i + 1], w.a[s.i + 1], Tail(p))
=============================================================================
