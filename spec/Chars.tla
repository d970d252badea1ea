------------------------------- MODULE Chars -------------------------------
(* Unicode code points used by the JSON grammar.  A text is a sequence of    *)
(* code points (never surrogates: a Rust &str cannot contain them).          *)
EXTENDS Naturals, Sequences

cTab == 9      cLF == 10     cVT == 11   cFF == 12   cCR == 13   cSpace == 32
cQuote == 34   cPlus == 43   cComma == 44  cMinus == 45  cDot == 46
cSlash == 47   c0 == 48      c9 == 57    cColon == 58
cUE == 69      cLBrack == 91 cBackslash == 92  cRBrack == 93
ca == 97       cb == 98      cc == 99    cd == 100   ce == 101   cf == 102   cl == 108   cn == 110
cr == 114      cs == 115     ct == 116   cu == 117
cLBrace == 123 cRBrace == 125

IsWS(c) == c = 32 \/ (c >= 9 /\ c <= 13)     \* VT and FF included (see C01)
IsDigit(c) == c >= 48 /\ c <= 57
IsHex(c) == \/ (c >= 48 /\ c <= 57) \/ (c >= 97 /\ c <= 102) \/ (c >= 65 /\ c <= 70)
HexVal(c) == IF c <= 57 THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
HexChar(n) == IF n < 10 THEN 48 + n ELSE 87 + n      \* lower case

IsSurrogate(u) == u >= 55296 /\ u <= 57343
IsHighSurrogate(u) == u >= 55296 /\ u <= 56319
IsLowSurrogate(u) == u >= 56320 /\ u <= 57343
FromPair(hi, lo) == 65536 + (hi - 55296) * 1024 + (lo - 56320)

\* bytes of the UTF-8 encoding
Utf8Len(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
=============================================================================
