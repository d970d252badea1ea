-------------------------------- MODULE EqMC --------------------------------
(* Equality is an equivalence on a universe of values that holds numbers in  *)
(* several forms, objects in several orders and near misses of each.         *)
EXTENDS Value, TLC, Json
CONSTANTS Triples, Emitting
KA == <<97>>
KB == [i \in 1..33 |-> 98]
Nums == {MkNum(FALSE, <<>>, 0), MkNum(TRUE, <<>>, 0), MkNum(FALSE, <<>>, 3), MkNum(FALSE, <<1>>, 0), MkNum(FALSE, <<1,0>>, -1),
         MkNum(TRUE, <<1>>, 0), MkNum(FALSE, <<1>>, 1), MkNum(FALSE, <<1,0>>, 0), NaN}
Base == {VNull, VBool(TRUE), VBool(FALSE), VStr(<<>>), VStr(<<97>>), VStr([i \in 1..31 |-> 98])} \cup Nums
Few == {VNull, VBool(FALSE), MkNum(FALSE, <<1>>, 0), MkNum(FALSE, <<1,0>>, -1), VStr(<<>>), NaN}
Flat == {EmptyArr, EmptyObj} \cup {VArr(<<x>>) : x \in Few} \cup {VArr(<<x, y>>) : x, y \in Few}
        \cup {VObj(<<k>>, <<x>>) : k \in {KA, KB}, x \in Few}
        \cup {VObj(ks, <<x, y>>) : ks \in {<<KA, KB>>, <<KB, KA>>}, x, y \in {VNull, MkNum(FALSE, <<1>>, 0), MkNum(FALSE, <<1,0>>, -1)}}
Deep == {VArr(<<x>>) : x \in {EmptyArr, EmptyObj, VArr(<<VNull>>), VObj(<<KA>>, <<VNull>>)}}
        \cup {VObj(<<KA>>, <<x>>) : x \in {EmptyArr, EmptyObj, VObj(<<KA, KB>>, <<VNull, VNull>>), VObj(<<KB, KA>>, <<VNull, VNull>>)}}
U == Base \cup Flat \cup Deep
Small == Base \cup {VArr(<<x>>) : x \in Few} \cup {VObj(ks, <<x, y>>) : ks \in {<<KA, KB>>, <<KB, KA>>}, x, y \in {VNull, MkNum(FALSE, <<1>>, 0)}}
VARIABLES a, b, c, st      \* st: whether b and c have been chosen
Init == a \in (IF Triples THEN Small ELSE U) /\ b = VNull /\ c = VNull /\ st = FALSE
Next == ~st /\ st' = TRUE /\ UNCHANGED a /\ IF Triples THEN b' \in Small /\ c' \in Small ELSE b' \in U /\ c' = VNull
Spec == Init /\ [][Next]_<<a, b, c, st>>
Reflexive == ValEq(a, a) /\ ValSame(a, a)
Symmetric == ValEq(a, b) = ValEq(b, a)
Transitive == ValEq(a, b) /\ ValEq(b, c) => ValEq(a, c)
SameType == ValEq(a, b) => a.t = b.t
SameAccess == ValEq(a, b) => LenOf(a) = LenOf(b) /\ EmptyOf(a) = EmptyOf(b)
Finer == ValSame(a, b) => ValEq(a, b)
Emit == Emitting /\ st => PrintT("@" \o ToJson([a |-> a, b |-> b, eq |-> ValEq(a, b)]))
=============================================================================
