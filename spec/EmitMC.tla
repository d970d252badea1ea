------------------------------- MODULE EmitMC -------------------------------
(* Every small value is built step by step (Grow) and written: the output is *)
(* a JSON text of the value, minimal, balanced, and reading it back gives    *)
(* the value.  The values visited are emitted for replay.                    *)
EXTENDS Emit, Grammar, TLC, Json

CONSTANTS Leaves, Keys, MaxSize, Indents, Emitting

VARIABLE v
RECURSIVE Size(_)
Size(x) == CASE x.t = "arr" -> 1 + FoldLeft(LAMBDA a, b : a + b, 0, [i \in 1..Len(x.a) |-> Size(x.a[i])])
             [] x.t = "obj" -> 1 + FoldLeft(LAMBDA a, b : a + b, 0, [i \in 1..Len(x.v) |-> Size(x.v[i])])
             [] OTHER -> 1

\* add one value as the last, innermost-rightmost, place allows it
RECURSIVE Grow(_)
Grow(x) ==
    CASE x.t = "arr" ->
           {VArr(Append(x.a, y)) : y \in Leaves}
           \cup (IF x.a = <<>> THEN {} ELSE {VArr(Append(Front(x.a), z)) : z \in Grow(Last(x.a))})
      [] x.t = "obj" ->
           {VObj(Append(x.k, k), Append(x.v, y)) : k \in {q \in Keys : Find(x.k, q) = 0}, y \in Leaves}
           \cup (IF x.v = <<>> THEN {} ELSE {VObj(x.k, Append(Front(x.v), z)) : z \in Grow(Last(x.v))})
      [] OTHER -> {}

Init == v \in Leaves
Next == Size(v) < MaxSize /\ v' \in Grow(v)
Spec == Init /\ [][Next]_v

calls == Calls(v)
text == Compact(calls)
\* parsing back, with the reader's numbers as they are stored
Back(t) == Run(t)
RoundTrip == LET r == Back(text) IN
             IF HasNaN(v) THEN Accepted(r) ELSE Accepted(r) /\ ValSame(r.val, v) /\ Compact(Calls(r.val)) = text
PrettyRoundTrip == \A n \in Indents : LET r == Back(Unrle(Pretty(calls, n))) IN
             Accepted(r) /\ (HasNaN(v) \/ ValSame(r.val, v))
Valid == IsJson(text)
\* no character can be removed: no whitespace outside strings
InsideString(t, i) == Run(SubSeq(t, 1, i)).er.kind # "none" /\
                      FoldLeft(Step, P0, SubSeq(t, 1, i)).m \in {"str", "esc", "hex"}
Minimal == \A i \in 1..Len(text) : text[i] = 32 => InsideString(text, i)
NoControl == \A i \in 1..Len(text) : text[i] >= 32
Balanced == LET d == FoldLeft(LAMBDA a, c : [n |-> a.n + (IF c = cIndent THEN 1 ELSE IF c = cDedent THEN -1 ELSE 0),
                                             ok |-> a.ok /\ ~(c = cDedent /\ a.n = 0)], [n |-> 0, ok |-> TRUE], calls)
            IN d.n = 0 /\ d.ok
\* whitespace added by pretty printing is all there is to it
PrettyIsLayout == \A n \in Indents : Run(Unrle(Pretty(calls, n))).val = Run(text).val
ZeroIndent == \A n \in Indents : \A i \in 1..Len(Pretty(calls, n)) :
                 Pretty(calls, n)[i] < 0 => i > 1 /\ Pretty(calls, n)[i - 1] = 10 /\ (-Pretty(calls, n)[i]) % n = 0

Emit1 == Emitting => PrintT("@" \o ToJson([v |-> v, c |-> calls, d |-> text,
                                        p |-> [n \in 1..3 |-> Pretty(calls, n - 1)]]))

LeafSet == {VNull, VBool(TRUE), VBool(FALSE), VStr(<<>>), VStr(<<34, 92, 10, 97>>), VStr(<<0, 31, 127, 233, 128512>>),
            MkNum(FALSE, <<>>, 0), MkNum(TRUE, <<>>, 3), MkNum(TRUE, <<1, 0>>, -2), NaN, EmptyArr, EmptyObj}
KeySet == {<<>>, <<97>>, <<34, 32>>}
NumLeaves == {MkNum(s, d, e) : s \in BOOLEAN, d \in {<<>>, <<7>>, <<1, 0>>, <<1,2,3,4>>, <<9,9,9,9,9>>, <<1,0,0,0,0,0,0>>, U64Max, <<1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>},
                e \in (-24..24) \cup {-32768, -32767, -32760, 32767, 32766, 32750, 300, -300}}
StrLeaves == {VStr(<<97>>), VStr(<<34>>), VStr(<<92>>)} \cup {VStr(<<c>>) : c \in 0..130}
             \cup {VStr(<<120, c, 121>>) : c \in {0, 8, 9, 10, 11, 12, 13, 31, 32, 34, 47, 92, 127, 128, 2047, 2048, 55295, 57344, 65535, 65536, 1114111}}
=============================================================================
