------------------------------ MODULE Grammar -------------------------------
(* What a JSON text is and what it denotes, declaratively: RFC 8259's        *)
(* productions over whole texts, with no notion of a reading position.       *)
(* ParserMC checks that the automaton of module Parser accepts exactly these *)
(* texts and computes exactly these denotations.                             *)
(*                                                                           *)
(* A denotation is [ok |-> FALSE] or [ok |-> TRUE, v |-> value, n |-> how    *)
(* many non-empty containers are open inside one another].                   *)
EXTENDS Parser

Bad == [ok |-> FALSE]
Good(v, n) == [ok |-> TRUE, v |-> v, n |-> n]

Cut(t, i, j) == SubSeq(t, i, j)
Positions(t, P(_)) == {i \in 1..Len(t) : P(t[i])}
Least(S) == CHOOSE i \in S : \A j \in S : i <= j
AllOf(t, P(_)) == \A i \in 1..Len(t) : P(t[i])

\* t without the whitespace around it
Trim(t) == LET S == {i \in 1..Len(t) : ~IsWS(t[i])} IN
           IF S = {} THEN <<>>
           ELSE Cut(t, Least(S), CHOOSE i \in S : \A j \in S : i >= j)

\* the part before / after the first character satisfying P (after is "none" if absent)
Split(t, P(_)) == LET S == Positions(t, P) IN
    IF S = {} THEN [has |-> FALSE, pre |-> t, post |-> <<>>]
    ELSE [has |-> TRUE, pre |-> Cut(t, 1, Least(S) - 1), post |-> Cut(t, Least(S) + 1, Len(t))]

-----------------------------------------------------------------------------
\* numbers
IsDigits(t) == t # <<>> /\ AllOf(t, IsDigit)
IsInt(t) == IsDigits(t) /\ (Len(t) = 1 \/ t[1] # c0)
DigitVals(t) == [i \in 1..Len(t) |-> t[i] - 48]
RECURSIVE NatOf(_)
NatOf(t) == IF t = <<>> THEN 0 ELSE NatOf(Front(t)) * 10 + Last(t) - 48
IsE(c) == c = ce \/ c = cUE
IsDotC(c) == c = cDot
DenNumber(t) ==
    LET neg == t # <<>> /\ t[1] = cMinus
        u == IF neg THEN Tail(t) ELSE t
        ex == Split(u, IsE)
        fr == Split(ex.pre, IsDotC)
        xneg == ex.post # <<>> /\ ex.post[1] = cMinus
        xd == IF ex.post # <<>> /\ ex.post[1] \in {cMinus, cPlus} THEN Tail(ex.post) ELSE ex.post
    IN IF IsInt(fr.pre) /\ (fr.has => IsDigits(fr.post)) /\ (ex.has => IsDigits(xd))
       THEN Good(MkNum(neg, Strip(DigitVals(fr.pre \o fr.post)),
                      (IF ex.has THEN IF xneg THEN -NatOf(xd) ELSE NatOf(xd) ELSE 0) - Len(fr.post)), 0)
       ELSE Bad

-----------------------------------------------------------------------------
\* strings: the text between the quotes is a sequence of units
Hex4(t) == IF Len(t) >= 6 /\ t[1] = cBackslash /\ t[2] = cu /\ \A i \in 3..6 : IsHex(t[i])
           THEN HexVal(t[3]) * 4096 + HexVal(t[4]) * 256 + HexVal(t[5]) * 16 + HexVal(t[6])
           ELSE -1
RECURSIVE DenChars(_)
DenChars(t) ==
    IF t = <<>> THEN Good(<<>>, 0)
    ELSE LET
        \* the unit at the front: how many characters it takes and what it stands for
        simple == IF Len(t) >= 2 THEN Unescape(t[2]) ELSE -1
        u1 == Hex4(t)
        u2 == IF Len(t) >= 12 THEN Hex4(Cut(t, 7, 12)) ELSE -1
        w == IF t[1] = cQuote \/ t[1] < 32 THEN 0
             ELSE IF t[1] # cBackslash THEN 1
             ELSE IF simple >= 0 THEN 2
             ELSE IF u1 >= 0 /\ ~IsSurrogate(u1) THEN 6
             ELSE IF u1 >= 0 /\ IsHighSurrogate(u1) /\ u2 >= 0 /\ IsLowSurrogate(u2) THEN 12
             ELSE 0
        ch == CASE w = 1 -> t[1] [] w = 2 -> simple [] w = 6 -> u1
                [] w = 12 -> FromPair(u1, u2) [] OTHER -> 0
        rest == DenChars(Cut(t, w + 1, Len(t)))
    IN IF w = 0 THEN Bad ELSE IF ~rest.ok THEN Bad ELSE Good(<<ch>> \o rest.v, 0)
DenString(t) ==
    IF Len(t) >= 2 /\ t[1] = cQuote /\ t[Len(t)] = cQuote
    THEN LET d == DenChars(Cut(t, 2, Len(t) - 1)) IN IF d.ok THEN Good(VStr(d.v), 0) ELSE Bad
    ELSE Bad

-----------------------------------------------------------------------------
\* values.  Lists are split at a comma whose left part is a whole item.
Commas(t) == Positions(t, LAMBDA c : c = cComma)
Colons(t) == Positions(t, LAMBDA c : c = cColon)

RECURSIVE DenValue(_), DenItems(_), DenMember(_), DenMembers(_)

\* a non-empty comma separated list of values; v is a sequence of values
DenItems(t) ==
    LET whole == DenValue(t)
        S == {i \in Commas(t) : DenValue(Cut(t, 1, i - 1)).ok /\ DenItems(Cut(t, i + 1, Len(t))).ok}
    IN IF whole.ok THEN Good(<<whole.v>>, whole.n)
       ELSE IF S = {} THEN Bad
       ELSE LET i == Least(S)
                a == DenValue(Cut(t, 1, i - 1))
                b == DenItems(Cut(t, i + 1, Len(t)))
            IN Good(<<a.v>> \o b.v, MaxI(a.n, b.n))

\* "key" : value; v is <<key, value>>
DenMember(t) ==
    LET S == {i \in Colons(t) : DenString(Trim(Cut(t, 1, i - 1))).ok /\ DenValue(Cut(t, i + 1, Len(t))).ok}
    IN IF S = {} THEN Bad
       ELSE LET i == Least(S)
                x == DenValue(Cut(t, i + 1, Len(t)))
            IN Good(<<DenString(Trim(Cut(t, 1, i - 1))).v.s, x.v>>, x.n)
DenMembers(t) ==
    LET whole == DenMember(t)
        S == {i \in Commas(t) : DenMember(Cut(t, 1, i - 1)).ok /\ DenMembers(Cut(t, i + 1, Len(t))).ok}
    IN IF whole.ok THEN Good(<<whole.v>>, whole.n)
       ELSE IF S = {} THEN Bad
       ELSE LET i == Least(S)
                a == DenMember(Cut(t, 1, i - 1))
                b == DenMembers(Cut(t, i + 1, Len(t)))
            IN Good(<<a.v>> \o b.v, MaxI(a.n, b.n))

\* members by key: keys in order of first appearance, values of the last one
Gather(ms) ==
    LET firsts == {i \in 1..Len(ms) : \A j \in 1..(i-1) : ms[j][1] # ms[i][1]}
        order == SetToSortSeq(firsts, LAMBDA x, y : x < y)
        lastof(i) == CHOOSE j \in 1..Len(ms) : /\ ms[j][1] = ms[i][1]
                                                /\ \A m \in (j+1)..Len(ms) : ms[m][1] # ms[i][1]
    IN VObj([n \in 1..Len(order) |-> ms[order[n]][1]], [n \in 1..Len(order) |-> ms[lastof(order[n])][2]])

DenValue(s) ==
    LET t == Trim(s) IN
    IF t = <<>> THEN Bad
    ELSE CASE t = <<cn, cu, cl, cl>> -> Good(VNull, 0)
           [] t = <<ct, cr, cu, ce>> -> Good(VBool(TRUE), 0)
           [] t = <<cf, ca, cl, cs, ce>> -> Good(VBool(FALSE), 0)
           [] t[1] = cQuote -> DenString(t)
           [] t[1] = cLBrack ->
                IF t[Len(t)] # cRBrack \/ Len(t) < 2 THEN Bad
                ELSE LET inner == Cut(t, 2, Len(t) - 1) IN
                     IF Trim(inner) = <<>> THEN Good(VArr(<<>>), 0)
                     ELSE LET d == DenItems(inner) IN
                          IF d.ok THEN Good(VArr(d.v), d.n + 1) ELSE Bad
           [] t[1] = cLBrace ->
                IF t[Len(t)] # cRBrace \/ Len(t) < 2 THEN Bad
                ELSE LET inner == Cut(t, 2, Len(t) - 1) IN
                     IF Trim(inner) = <<>> THEN Good(VObj(<<>>, <<>>), 0)
                     ELSE LET d == DenMembers(inner) IN
                          IF d.ok THEN Good(Gather(d.v), d.n + 1) ELSE Bad
           [] OTHER -> DenNumber(t)

\* a text the reader must accept
IsJson(t) == LET d == DenValue(t) IN d.ok /\ d.n <= DepthLimit
=============================================================================
