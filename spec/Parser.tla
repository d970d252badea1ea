------------------------------- MODULE Parser -------------------------------
(* The JSON reader as a push-down automaton over code points.                *)
(*                                                                           *)
(* State: one record (see P0).  Transitions: Step(st, c) consumes one code   *)
(* point; Finish(st) is the end of the text.  Both the model-checked machine *)
(* (ParserMC) and the conformance checks (fold of Step over a recorded text) *)
(* use exactly these operators.                                              *)
(*                                                                           *)
(* Values are those of module Value; numbers are exact (the storage limits   *)
(* of the implementation are in Num!Represents).                             *)
EXTENDS Value, Chars

CONSTANT DepthLimit      \* how many non-empty containers may be open (512)

\* number being read: leading zeros are not kept, and of the rest the first
\* KeepDigits; `drop` counts the others (Num!Represents looks at no more).
KeepDigits == 60
NoNum == [neg |-> FALSE, d |-> <<>>, drop |-> 0, fr |-> 0, eneg |-> FALSE, x |-> 0]
PushDigit(q, c) == IF q.d = <<>> /\ c = c0 THEN q
                   ELSE IF Len(q.d) < KeepDigits THEN [q EXCEPT !.d = Append(@, c - 48)]
                   ELSE [q EXCEPT !.drop = @ + 1]

\* m: mode; stk: open containers; buf: characters of the string being read;
\* key: that string is an object key; u: code unit of the \u escape being
\* read; n: hex digits still to come; hi: pending first surrogate; num: number
\* being read; lit: rest of a literal name; val: its value, finally the result;
\* ln, co: position of the next character; er: what was wrong.
P0 == [m |-> "value", stk |-> <<>>, buf |-> <<>>, key |-> FALSE, u |-> 0, n |-> 0,
       hi |-> 0, num |-> NoNum, lit |-> <<>>, val |-> VNull, ln |-> 1, co |-> 1,
       er |-> [kind |-> "none"]]

Frame(o) == [o |-> o, k |-> <<>>, v |-> <<>>, at |-> 0]

Dead(st, er) == [st EXCEPT !.m = "dead", !.er = er]
Unexpected(st, c) == Dead(st, [kind |-> "char", ch |-> c, line |-> st.ln, column |-> st.co])
TooDeep(st) == Dead(st, [kind |-> "depth"])
BadUnicode(st) == Dead(st, [kind |-> "utf8"])

-----------------------------------------------------------------------------
\* A complete value: hand it to the innermost open container, or finish.
\* (operators on the frame sequence; Len(stk) > 0 below)
PutTop(stk, v) ==
    LET i == Len(stk)  f == stk[i] IN
    IF f.o THEN [stk EXCEPT ![i].v[f.at] = v]
           ELSE [stk EXCEPT ![i].v = Append(@, v)]

EndValue(st, v) ==
    IF st.stk = <<>> THEN [st EXCEPT !.m = "end", !.val = v]
    ELSE [st EXCEPT !.m = "sep", !.stk = PutTop(st.stk, v)]

\* The innermost container is closed: it becomes a value of the one outside.
CloseTop(st) ==
    LET f == Last(st.stk)
        v == IF f.o THEN VObj(f.k, f.v) ELSE VArr(f.v)
    IN EndValue([st EXCEPT !.stk = Front(st.stk)], v)

\* A key was read: its member is filled next.  A key seen before keeps its place.
PutKey(stk, k) ==
    LET i == Len(stk)  f == stk[i]  j == Find(f.k, k) IN
    IF j > 0 THEN [stk EXCEPT ![i].at = j, ![i].v[j] = VNull]
    ELSE [stk EXCEPT ![i] = [o |-> TRUE, k |-> Append(f.k, k), v |-> Append(f.v, VNull),
                             at |-> Len(f.k) + 1]]

EndString(st) ==
    IF st.key THEN [st EXCEPT !.m = "colon", !.stk = PutKey(st.stk, st.buf), !.buf = <<>>]
    ELSE EndValue([st EXCEPT !.buf = <<>>], VStr(st.buf))

\* exact decimal value of the number read
EndNumber(st) ==
    LET q == st.num IN
    EndValue([st EXCEPT !.num = NoNum],
             MkNum(q.neg, q.d, (IF q.eneg THEN -q.x ELSE q.x) + q.drop - q.fr))

\* saturating: exponents beyond 10^8 are indistinguishable for every consumer
PushExp(x, c) == IF x >= 100000000 THEN x ELSE x * 10 + (c - 48)

-----------------------------------------------------------------------------
StartString(st, isKey) == [st EXCEPT !.m = "str", !.buf = <<>>, !.key = isKey]
StartLit(st, rest, v) == [st EXCEPT !.m = "lit", !.lit = rest, !.val = v]

StartValue(st, c) ==
    CASE c = cQuote -> StartString(st, FALSE)
      [] c = cLBrack -> [st EXCEPT !.m = "arr0"]
      [] c = cLBrace -> [st EXCEPT !.m = "obj0"]
      [] c = c0 -> [st EXCEPT !.m = "zero", !.num = NoNum]
      [] IsDigit(c) -> [st EXCEPT !.m = "int", !.num = [NoNum EXCEPT !.d = <<c - 48>>]]
      [] c = cMinus -> [st EXCEPT !.m = "minus"]
      [] c = ct -> StartLit(st, <<cr, cu, ce>>, VBool(TRUE))
      [] c = cf -> StartLit(st, <<ca, cl, cs, ce>>, VBool(FALSE))
      [] c = cn -> StartLit(st, <<cu, cl, cl>>, VNull)
      [] OTHER -> Unexpected(st, c)

\* simple escapes: the character for the letter after the backslash, or -1
Unescape(c) == CASE c = cQuote -> cQuote [] c = cBackslash -> cBackslash [] c = cSlash -> cSlash
                 [] c = cb -> 8 [] c = cf -> cFF [] c = cn -> cLF [] c = cr -> cCR [] c = ct -> cTab
                 [] OTHER -> -1

\* all four hex digits of a \u escape are read
EndUnit(st, u) ==
    IF st.hi > 0 THEN
        IF IsHighSurrogate(st.hi) /\ IsLowSurrogate(u)
        THEN [st EXCEPT !.m = "str", !.buf = Append(st.buf, FromPair(st.hi, u)), !.hi = 0]
        ELSE BadUnicode(st)
    ELSE IF IsSurrogate(u) THEN [st EXCEPT !.m = "pair1", !.hi = u]
    ELSE [st EXCEPT !.m = "str", !.buf = Append(st.buf, u)]

\* characters that can follow a complete integer part / a zero / a fraction
AfterSep(st, c) ==       \* in a container, after a complete value
    IF IsWS(c) THEN st
    ELSE IF c = cComma THEN [st EXCEPT !.m = IF Last(st.stk).o THEN "key" ELSE "value"]
    ELSE IF c = (IF Last(st.stk).o THEN cRBrace ELSE cRBrack) THEN CloseTop(st)
    ELSE Unexpected(st, c)
AfterEnd(st, c) == IF IsWS(c) THEN st ELSE Unexpected(st, c)
AfterNumber(st, c) ==
    LET s2 == EndNumber(st) IN IF s2.m = "end" THEN AfterEnd(s2, c) ELSE AfterSep(s2, c)

Digit(st, m, c) == [st EXCEPT !.m = m, !.num = PushDigit(@, c)]
FracDigit(st, c) == [st EXCEPT !.m = "frac", !.num = [PushDigit(st.num, c) EXCEPT !.fr = @ + 1]]

\* one transition, without the position
Step1(st, c) ==
  CASE st.m = "str" ->
          IF c = cQuote THEN EndString(st)
          ELSE IF c = cBackslash THEN [st EXCEPT !.m = "esc"]
          ELSE IF c < 32 THEN Unexpected(st, c)
          ELSE [st EXCEPT !.buf = Append(st.buf, c)]
    [] st.m = "dead" -> st
    [] st.m = "value" -> IF IsWS(c) THEN st ELSE StartValue(st, c)
    [] st.m = "sep" -> AfterSep(st, c)
    [] st.m = "arr0" ->
          IF IsWS(c) THEN st
          ELSE IF c = cRBrack THEN EndValue(st, VArr(<<>>))
          ELSE IF Len(st.stk) >= DepthLimit THEN TooDeep(st)
          ELSE StartValue([st EXCEPT !.stk = Append(st.stk, Frame(FALSE))], c)
    [] st.m = "obj0" ->
          IF IsWS(c) THEN st
          ELSE IF c = cRBrace THEN EndValue(st, VObj(<<>>, <<>>))
          ELSE IF Len(st.stk) >= DepthLimit THEN TooDeep(st)
          ELSE IF c = cQuote THEN StartString([st EXCEPT !.stk = Append(st.stk, Frame(TRUE))], TRUE)
          ELSE Unexpected(st, c)
    [] st.m = "key" -> IF IsWS(c) THEN st ELSE IF c = cQuote THEN StartString(st, TRUE) ELSE Unexpected(st, c)
    [] st.m = "colon" -> IF IsWS(c) THEN st ELSE IF c = cColon THEN [st EXCEPT !.m = "value"] ELSE Unexpected(st, c)
    [] st.m = "int" ->
          IF IsDigit(c) THEN Digit(st, "int", c)
          ELSE IF c = cDot THEN [st EXCEPT !.m = "dot"]
          ELSE IF c = ce \/ c = cUE THEN [st EXCEPT !.m = "e"]
          ELSE AfterNumber(st, c)
    [] st.m = "zero" ->
          IF c = cDot THEN [st EXCEPT !.m = "dot"]
          ELSE IF c = ce \/ c = cUE THEN [st EXCEPT !.m = "e"]
          ELSE AfterNumber(st, c)
    [] st.m = "minus" ->
          IF c = c0 THEN [st EXCEPT !.m = "zero", !.num.neg = TRUE]
          ELSE IF IsDigit(c) THEN [st EXCEPT !.m = "int", !.num = [NoNum EXCEPT !.neg = TRUE, !.d = <<c - 48>>]]
          ELSE Unexpected(st, c)
    [] st.m = "dot" -> IF IsDigit(c) THEN FracDigit(st, c) ELSE Unexpected(st, c)
    [] st.m = "frac" ->
          IF IsDigit(c) THEN FracDigit(st, c)
          ELSE IF c = ce \/ c = cUE THEN [st EXCEPT !.m = "e"]
          ELSE AfterNumber(st, c)
    [] st.m = "e" ->
          IF c = cMinus THEN [st EXCEPT !.m = "esign", !.num.eneg = TRUE]
          ELSE IF c = cPlus THEN [st EXCEPT !.m = "esign"]
          ELSE IF IsDigit(c) THEN [st EXCEPT !.m = "exp", !.num.x = c - 48]
          ELSE Unexpected(st, c)
    [] st.m = "esign" -> IF IsDigit(c) THEN [st EXCEPT !.m = "exp", !.num.x = c - 48] ELSE Unexpected(st, c)
    [] st.m = "exp" -> IF IsDigit(c) THEN [st EXCEPT !.num.x = PushExp(@, c)] ELSE AfterNumber(st, c)
    [] st.m = "esc" ->
          IF c = cu THEN [st EXCEPT !.m = "hex", !.u = 0, !.n = 4, !.hi = 0]
          ELSE LET x == Unescape(c) IN
               IF x < 0 THEN Unexpected(st, c) ELSE [st EXCEPT !.m = "str", !.buf = Append(st.buf, x)]
    [] st.m = "hex" ->
          IF ~IsHex(c) THEN Unexpected(st, c)
          ELSE IF st.n > 1 THEN [st EXCEPT !.u = @ * 16 + HexVal(c), !.n = @ - 1]
          ELSE EndUnit(st, st.u * 16 + HexVal(c))
    [] st.m = "pair1" -> IF c = cBackslash THEN [st EXCEPT !.m = "pair2"] ELSE Unexpected(st, c)
    [] st.m = "pair2" -> IF c = cu THEN [st EXCEPT !.m = "hex", !.u = 0, !.n = 4] ELSE Unexpected(st, c)
    [] st.m = "lit" ->
          IF c # Head(st.lit) THEN Unexpected(st, c)
          ELSE IF Len(st.lit) = 1 THEN EndValue([st EXCEPT !.lit = <<>>], st.val)
          ELSE [st EXCEPT !.lit = Tail(st.lit)]
    [] st.m = "end" -> AfterEnd(st, c)

Advance(st, c) == IF c = cLF THEN [st EXCEPT !.ln = @ + 1, !.co = 1] ELSE [st EXCEPT !.co = @ + 1]

Step(st, c) == LET s2 == Step1(st, c) IN IF s2.m = "dead" THEN s2 ELSE Advance(s2, c)

NumberModes == {"int", "zero", "frac", "exp"}

\* the text ends here
Finish(st) ==
    CASE st.m = "dead" -> st
      [] st.m = "end" -> st
      [] st.m \in NumberModes /\ st.stk = <<>> -> EndNumber(st)
      [] OTHER -> Dead(st, [kind |-> "eof"])

\* outcome of a finished run
Accepted(st) == st.m = "end"
Run(text) == Finish(FoldLeft(Step, P0, text))
\* the value obtained (r) is the one denoted (m)
RECURSIVE SameAs(_, _, _)
SameAs(m, r, what) ==
    /\ m.t = r.t
    /\ CASE m.t = "null" -> TRUE
         [] m.t = "bool" -> m.b = r.b
         [] m.t = "str" -> what = "num" \/ m.s = r.s
         [] m.t = "num" -> what = "str" \/ Represents(r, m)
         [] m.t = "arr" -> Len(m.a) = Len(r.a) /\ \A i \in 1..Len(m.a) : SameAs(m.a[i], r.a[i], what)
         [] m.t = "obj" -> /\ Len(m.k) = Len(r.k)
                           /\ (what = "num" \/ m.k = r.k)
                           /\ \A i \in 1..Len(m.k) : SameAs(m.v[i], r.v[i], what)
=============================================================================
