--------------------------------- MODULE Emit -------------------------------
(* Serialization.  Writing a value is a sequence of generator calls: a code  *)
(* point stands for text written, negative numbers for layout calls.  The    *)
(* compact text, the pretty text and what a user's own generator sees are    *)
(* three renderings of the same sequence.                                    *)
EXTENDS Value, Flat, TLC

cIndent == -1
cDedent == -2
cNewLine == -3
cMin == -4            \* write_min(": ", ':')

HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
\* d is added to what may be written past the generator's own methods (the
\* text of numbers, the digits of \u escapes); 0 if no difference is made
EscapeChar(c, d) ==
    CASE c = 34 -> <<92, 34>>
      [] c = 92 -> <<92, 92>>
      [] c = 8 -> <<92, 98>>
      [] c = 9 -> <<92, 116>>
      [] c = 10 -> <<92, 110>>
      [] c = 12 -> <<92, 102>>
      [] c = 13 -> <<92, 114>>
      [] OTHER -> <<92, 117, 48 + d, 48 + d, HexDigit(c \div 16) + d, HexDigit(c % 16) + d>>
NeedsEscape(c) == c < 32 \/ c = 34 \/ c = 92
StrTextD(s, d) ==
    IF \E i \in 1..Len(s) : NeedsEscape(s[i])
    THEN <<34>> \o Flat([i \in 1..Len(s) |-> IF NeedsEscape(s[i]) THEN EscapeChar(s[i], d) ELSE <<s[i]>>]) \o <<34>>
    ELSE <<34>> \o s \o <<34>>

StrText(s) == StrTextD(s, 0)
Shift(t, d) == IF d = 0 THEN t ELSE [i \in 1..Len(t) |-> t[i] + d]

RECURSIVE CallsD(_, _)
Body(items) ==       \* the items of a non-empty container, between its brackets
    <<cIndent, cNewLine>> \o items[1]
    \o Flat([i \in 1..(Len(items) - 1) |-> <<44, cNewLine>> \o items[i + 1]])
    \o <<cDedent, cNewLine>>
CallsD(v, d) ==
    CASE v.t = "null" -> <<110, 117, 108, 108>>
      [] v.t = "bool" -> IF v.b THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>
      [] v.t = "num" -> IF v.nan THEN NumText(v) ELSE Shift(NumText(v), d)
      [] v.t = "str" -> StrTextD(v.s, d)
      [] v.t = "arr" -> IF v.a = <<>> THEN <<91, 93>>
                        ELSE <<91>> \o Body(TLCEval([i \in 1..Len(v.a) |-> CallsD(v.a[i], d)])) \o <<93>>
      [] v.t = "obj" -> IF v.k = <<>> THEN <<123, 125>>
                        ELSE <<123>> \o Body(TLCEval([i \in 1..Len(v.k) |-> StrTextD(v.k[i], d) \o <<cMin>> \o CallsD(v.v[i], d)]))
                             \o <<125>>

Calls(v) == CallsD(v, 0)

\* compact text
Compact(cs) == SelectSeq([i \in 1..Len(cs) |-> IF cs[i] = cMin THEN 58 ELSE cs[i]], LAMBDA c : c >= 0)

\* Pretty text with n spaces; an indentation of k > 0 spaces is written as -k
\* (a raw line feed occurs in no other place, so this loses nothing).
PrettyStep(n, p, c) ==
    CASE c >= 0 -> [p EXCEPT !.o = Append(@, c)]
      [] c = cMin -> [p EXCEPT !.o = @ \o <<58, 32>>]
      [] c = cIndent -> [p EXCEPT !.n = @ + 1]
      [] c = cDedent -> [p EXCEPT !.n = @ - 1]
      [] c = cNewLine -> [p EXCEPT !.o = @ \o (IF p.n * n = 0 THEN <<10>> ELSE <<10, -(p.n * n)>>)]
PrettyPart(n, d, cs) == FoldLeft(LAMBDA p, c : PrettyStep(n, p, c), [o |-> <<>>, n |-> d], cs)
Part == 256
\* (long ones part by part)
Pretty(cs, n) ==
    IF Len(cs) <= 2 * Part THEN PrettyPart(n, 0, cs).o
    ELSE Flat(FoldLeft(LAMBDA p, j : LET q == PrettyPart(n, p.n, SubSeq(cs, Part * j + 1, MinI(Part * (j + 1), Len(cs))))
                                     IN [o |-> Append(p.o, q.o), n |-> q.n],
                       [o |-> <<>>, n |-> 0], [j \in 1..((Len(cs) + Part - 1) \div Part) |-> j - 1]).o)

\* the same text with the indentation written out
Unrle(t) == Flat([i \in 1..Len(t) |-> IF t[i] < 0 THEN [j \in 1..(-t[i]) |-> 32] ELSE <<t[i]>>])
=============================================================================
