-------------------------------- MODULE StrRep ------------------------------
(* Strings held inline (at most 30 bytes: a length and a padded buffer) or   *)
(* on the heap, and that nothing tells them apart.  A held string is         *)
(* [r |-> "short", len, buf] or [r |-> "heap", s]; s is a sequence of bytes. *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json
CONSTANTS MaxShort, Bytes, MaxLen, Emitting
BufLen == MaxShort
Inline(s) == [r |-> "short", len |-> Len(s), buf |-> [i \in 1..BufLen |-> IF i <= Len(s) THEN s[i] ELSE 0]]
Heap(s) == [r |-> "heap", s |-> s]
FromStr(s) == IF Len(s) <= MaxShort THEN Inline(s) ELSE Heap(s)
FromString(s) == Heap(s)
Forms(s) == {FromStr(s), FromString(s)} \cup (IF Len(s) <= MaxShort THEN {Inline(s)} ELSE {})

\* observers, by representation
Str(x) == IF x.r = "short" THEN SubSeq(x.buf, 1, x.len) ELSE x.s
EqRep(x, y) ==
    CASE x.r = "short" /\ y.r = "short" -> x.len = y.len /\ SubSeq(x.buf, 1, x.len) = SubSeq(y.buf, 1, y.len)
      [] x.r = "heap" /\ y.r = "heap" -> x.s = y.s
      [] OTHER -> Str(x) = Str(y)
IsEmptyRep(x) == IF x.r = "short" THEN x.len = 0 ELSE x.s = <<>>
Cleared(x) == IF x.r = "short" THEN FromStr(<<>>) ELSE Heap(<<>>)

Strings == UNION {[1..n -> Bytes] : n \in 0..MaxLen}
VARIABLES s, t
Init == s \in Strings /\ t \in Strings
Spec == Init /\ [][UNCHANGED <<s, t>>]_<<s, t>>
Text == \A x \in Forms(s) : Str(x) = s /\ IsEmptyRep(x) = (s = <<>>) /\ Str(Cleared(x)) = <<>> /\ IsEmptyRep(Cleared(x))
EqText == \A x \in Forms(s), y \in Forms(t) : EqRep(x, y) = (s = t) /\ EqRep(y, x) = EqRep(x, y)
ClearSame == \A x \in Forms(s), y \in Forms(t) : EqRep(Cleared(x), Cleared(y))
Emit == Emitting => PrintT("@" \o ToJson([s |-> s, t |-> t]))
=============================================================================
