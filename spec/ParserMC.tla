------------------------------ MODULE ParserMC ------------------------------
(* The parser automaton run over every text that extends one of Seeds by up  *)
(* to MaxExtra characters of Alphabet, as long as the text read so far can   *)
(* still become a JSON text.                                                 *)
EXTENDS Grammar, TLC, Json

CONSTANTS Alphabet, Seeds, MaxExtra, Emitting

\* the empty text
SeedsTop == {<<>>}
\* inside containers
SeedsNest == {<<91>>, <<123, 34, 97, 34, 58>>, <<91, 91>>, <<91, 49, 44>>, <<123, 34, 34, 58, 91>>, <<123, 34, 97, 34, 58, 49, 44>>}
\* where numbers stand
SeedsNum == {<<>>, <<45>>, <<91>>, <<123, 34, 97, 34, 58>>, <<48>>, <<49, 48>>, <<91, 45, 49, 46>>, <<49, 101>>}
\* inside string literals
SeedsStr == {<<34>>, <<91, 34>>, <<123, 34>>, <<34, 92, 117>>, <<34, 92, 117, 100, 56, 51>>, <<34, 92, 117, 68, 56>>, <<34, 92, 117, 100, 56, 48, 48>>, <<34, 92, 117, 100, 56, 51, 100, 92, 117>>, <<34, 92, 117, 100, 98, 102, 102, 92, 117, 100, 102>>, <<34, 92, 117, 100, 99>>, <<34, 97, 92>>}
\* literal names
SeedsLit == {<<>>, <<91>>, <<123, 34, 97, 34, 58>>, <<116>>, <<102, 97>>, <<110, 117, 108>>, <<91, 116, 114, 117>>, <<10>>, <<10, 10, 32>>}

VARIABLES text, st, base
vars == <<text, st, base>>

Feed(s, t) == FoldLeft(Step, s, t)

Init == \E s \in Seeds : text = s /\ st = Feed(P0, s) /\ base = Len(s)
Read == \E c \in Alphabet : /\ st.m # "dead" /\ Len(text) - base < MaxExtra
                            /\ text' = Append(text, c) /\ st' = Step(st, c) /\ base' = base
Next == Read
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
done == Finish(st)

\* the automaton accepts exactly the grammar's texts, with the grammar's values
AcceptsGrammar == Accepted(done) = IsJson(text)
DenotesGrammar == Accepted(done) => done.val = DenValue(text).v

\* a reader that has not failed can still be led to acceptance: the text read
\* is a prefix of a JSON text, so failing earlier would be wrong
Closers(stk) == [i \in 1..Len(stk) |-> IF stk[Len(stk) + 1 - i].o THEN cRBrace ELSE cRBrack]
InString(s) == IF s.key THEN <<cQuote, cColon, c0>> ELSE <<cQuote>>
LowPair == <<cBackslash, cu, cd, cc, c0, c0>>
HexTail(s) == IF s.hi > 0
    THEN \* second half of a pair: any low surrogate that fits what was read
         LET pads == {p \in [1..s.n -> {c0, 52, cb, cc, cd}] : IsLowSurrogate(
                        FoldLeft(LAMBDA a, c : a * 16 + HexVal(c), s.u, p))}
         IN IF pads = {} THEN <<c0>> ELSE CHOOSE p \in pads : TRUE
    ELSE [i \in 1..s.n |-> c0] \o (IF IsHighSurrogate(FoldLeft(LAMBDA a, c : a * 16 + HexVal(c), s.u, [i \in 1..s.n |-> c0]))
                                   THEN LowPair ELSE <<>>)
Completion(s) ==
    (CASE s.m = "value" -> <<c0>>
       [] s.m \in {"sep", "end", "int", "zero", "frac", "exp"} -> <<>>
       [] s.m = "arr0" -> <<cRBrack>>
       [] s.m = "obj0" -> <<cRBrace>>
       [] s.m = "key" -> <<cQuote, cQuote, cColon, c0>>
       [] s.m = "colon" -> <<cColon, c0>>
       [] s.m = "str" -> InString(s)
       [] s.m = "esc" -> <<cn>> \o InString(s)
       [] s.m = "hex" -> HexTail(s) \o InString(s)
       [] s.m = "pair1" -> LowPair \o InString(s)
       [] s.m = "pair2" -> Tail(LowPair) \o InString(s)
       [] s.m = "lit" -> s.lit
       [] s.m \in {"minus", "dot", "e", "esign"} -> <<c0>>)
    \o Closers(s.stk)
\* Surrogate escapes are judged when their four digits are complete (that is
\* the point the error names), so a prefix can be doomed before: a first unit
\* DC00..DFFF, or a second unit that cannot become a low surrogate.
Doomed(s) == \/ s.m \in {"pair1", "pair2"} /\ IsLowSurrogate(s.hi)
             \/ s.m = "hex" /\ s.hi > 0 /\
                  (IsLowSurrogate(s.hi) \/
                   ~ \E x \in 0..(IF s.n = 4 THEN 65535 ELSE IF s.n = 3 THEN 4095 ELSE IF s.n = 2 THEN 255 ELSE 15) :
                       IsLowSurrogate(s.u * (IF s.n = 4 THEN 65536 ELSE IF s.n = 3 THEN 4096 ELSE IF s.n = 2 THEN 256 ELSE 16) + x))
             \/ s.m = "hex" /\ s.hi = 0 /\ s.n = 1 /\ IsLowSurrogate(s.u * 16)
             \/ s.m = "hex" /\ s.hi = 0 /\ s.n = 2 /\ IsLowSurrogate(s.u * 256)
LiveIsViable == st.m # "dead" /\ ~Doomed(st) => Accepted(Finish(Feed(st, Completion(st))))

\* failing is final and is noticed at the last character read
FailsAtOnce == st.m = "dead" /\ st.er.kind = "char" =>
    LET before == SubSeq(text, 1, Len(text) - 1)
        lfs == {i \in 1..Len(before) : before[i] = cLF}
        lastlf == IF lfs = {} THEN 0 ELSE CHOOSE i \in lfs : \A j \in lfs : i >= j
    IN /\ st.er.ch = text[Len(text)]
       /\ st.er.line = Cardinality(lfs) + 1
       /\ st.er.column = Len(text) - lastlf
DeadIsFinal == st.m = "dead" => \A c \in Alphabet : Step(st, c) = st

Modes == {"value", "sep", "arr0", "obj0", "key", "colon", "str", "esc", "hex", "pair1", "pair2",
          "lit", "minus", "int", "zero", "dot", "frac", "e", "esign", "exp", "end", "dead"}
TypeOK == /\ st.m \in Modes
          /\ (st.m \in {"sep", "key", "colon"} => st.stk # <<>>)
          /\ (st.m = "end" => st.stk = <<>>)
          /\ Len(st.stk) <= DepthLimit
          /\ st.n \in 0..4 /\ st.u \in 0..65535

-----------------------------------------------------------------------------
\* Behaviours for replay: every text visited with its outcome.  Numbers are
\* normalised (no trailing zeros; zero has exponent 0), as stored.
NormNum(v) == Norm(IF v.nan THEN v ELSE [v EXCEPT !.e = Clamp(@)])
RECURSIVE NormVal(_)
NormVal(v) == CASE v.t = "num" -> NormNum(v)
                [] v.t = "arr" -> [v EXCEPT !.a = [i \in 1..Len(v.a) |-> NormVal(v.a[i])]]
                [] v.t = "obj" -> [v EXCEPT !.v = [i \in 1..Len(v.v) |-> NormVal(v.v[i])]]
                [] OTHER -> v
Outcome == IF Accepted(done) THEN [i |-> text, ok |-> TRUE, v |-> NormVal(done.val)]
           ELSE [i |-> text, ok |-> FALSE, er |-> done.er]
Emit == Emitting => PrintT("@" \o ToJson(Outcome))
=============================================================================
