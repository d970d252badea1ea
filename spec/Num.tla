--------------------------------- MODULE Num --------------------------------
(* Decimal numbers.  A number is [t |-> "num", neg, d, e, nan]: the value    *)
(* (-1)^neg * d * 10^e where d is a digit sequence (most significant first,  *)
(* no leading zeros, <<>> is zero), or NaN.  Digits are sequences so that    *)
(* nothing is bounded by the checker's 32-bit integers.                      *)
EXTENDS Integers, Sequences, SequencesExt

NaN == [t |-> "num", neg |-> FALSE, d |-> <<>>, e |-> 0, nan |-> TRUE]
MkNum(neg, d, e) == [t |-> "num", neg |-> neg, d |-> d, e |-> e, nan |-> FALSE]

MinExp == -32768
MaxExp == 32767
Clamp(e) == IF e < MinExp THEN MinExp ELSE IF e > MaxExp THEN MaxExp ELSE e
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b

Zeros(k) == [i \in 1..k |-> 0]
U64Max == <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>

\* digits without leading zeros
\* (local recursion, so that TLC evaluates constants made with it only once)
Strip(d) == LET RECURSIVE Lead0(_)
                Lead0(i) == IF i <= Len(d) /\ d[i] = 0 THEN Lead0(i + 1) ELSE i - 1
                k == Lead0(1)
            IN IF k = 0 THEN d ELSE SubSeq(d, k + 1, Len(d))
RECURSIVE Trail0(_, _)
Trail0(d, i) == IF i >= 1 /\ d[i] = 0 THEN Trail0(d, i - 1) ELSE i     \* length without trailing zeros

\* the same value with the shortest digits
Norm(n) == IF n.nan THEN NaN
           ELSE IF n.d = <<>> THEN MkNum(n.neg, <<>>, 0)
           ELSE LET k == Trail0(n.d, Len(n.d)) IN
                MkNum(n.neg, SubSeq(n.d, 1, k), n.e + Len(n.d) - k)
IsZero(n) == ~n.nan /\ n.d = <<>>

\* exact equality of values; +0 = -0, NaN = NaN only
NumEq(a, b) == IF a.nan \/ b.nan THEN a.nan /\ b.nan
               ELSE IF a.d = <<>> \/ b.d = <<>> THEN a.d = b.d
               ELSE Norm(a) = Norm(b)
\* equality of values including the sign of zero
NumSame(a, b) == NumEq(a, b) /\ a.neg = b.neg

\* integers: digit sequences without leading zeros
RECURSIVE LexLeq(_, _, _)
LexLeq(a, b, i) == IF i > Len(a) THEN TRUE
                   ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLeq(a, b, i + 1)
DLeq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLeq(a, b, 1))
DLess(a, b) == ~DLeq(b, a)
FitsU64(d) == DLeq(d, U64Max)

\* a - b for a >= b; digit sequences of any length
DSub(a, b) ==
    LET RECURSIVE From(_, _)
        From(i, borrow) ==          \* i counts from the right
            IF i > Len(a) THEN <<>>
            ELSE LET x == a[Len(a) + 1 - i] - borrow - (IF i <= Len(b) THEN b[Len(b) + 1 - i] ELSE 0) IN
                 IF x < 0 THEN Append(From(i + 1, 1), x + 10) ELSE Append(From(i + 1, 0), x)
    IN Strip(From(1, 0))
DDist(a, b) == IF DLeq(b, a) THEN DSub(a, b) ELSE DSub(b, a)

\* magnitudes d*10^e, d # <<>>: strictly less
MagLess(a, b) ==
    IF Len(a.d) + a.e # Len(b.d) + b.e THEN Len(a.d) + a.e < Len(b.d) + b.e
    ELSE LET n == MaxI(Len(a.d), Len(b.d)) IN
         DLess(a.d \o Zeros(n - Len(a.d)), b.d \o Zeros(n - Len(b.d)))

-----------------------------------------------------------------------------
\* Numbers made from parts: trailing zeros of the mantissa go while there are
\* decimal places (a mantissa of zero loses all of them).
More(n) == IF n.e >= 0 THEN FALSE ELSE IF n.d = <<>> THEN TRUE ELSE Last(n.d) = 0
Drop(n) == MkNum(n.neg, IF n.d = <<>> THEN <<>> ELSE Front(n.d), n.e + 1)
RECURSIVE FromParts(_)
FromParts(n) == IF ~More(n) THEN n ELSE IF n.d = <<>> THEN MkNum(n.neg, <<>>, 0) ELSE FromParts(Drop(n))
Negate(n) == IF n.nan THEN NaN ELSE [n EXCEPT !.neg = ~n.neg]
\* what number n says of itself
Says(a, n) ==
    /\ a.n = n /\ (\A i \in 1..Len(a.same) : a.same[i] = n)
    /\ a.nan = n.nan /\ a.zero = IsZero(n)
    /\ ~n.nan => a.positive = ~n.neg /\ a.pos = ~n.neg /\ a.d = n.d /\ a.e = n.e
    /\ \A i \in 1..Len(a.empty) : a.empty[i] = (n.nan \/ IsZero(n))

-----------------------------------------------------------------------------
\* Reading a literal.  lit is exact; obs is the number the reader made.
\* Short literals are exact up to clamping the exponent.
ReadExact(obs, lit) ==
    IF lit.d = <<>> THEN obs.d = <<>>
    ELSE Norm(obs) = Norm(MkNum(lit.neg, lit.d, Clamp(lit.e)))

\* Longer ones keep the leading digits: less than one unit of the 19th digit off.
ReadLong(obs, lit) ==
    LET n == Len(lit.d)
        h == Len(obs.d)                     \* digits kept
        top == lit.e + n                    \* decimal point position
        \* both scaled to the unit of the literal's last digit
        inRange == lit.e + n - 20 >= MinExp /\ lit.e + n - 19 <= MaxExp
    IN IF obs.d = <<>> THEN FALSE
       ELSE IF inRange THEN
            LET lo == MinI(lit.e, obs.e)
                a == lit.d \o Zeros(lit.e - lo)
                b == obs.d \o Zeros(obs.e - lo)
            IN obs.e - lit.e <= n + 1 /\ DLess(DDist(a, b), <<1>> \o Zeros(top - 19 - lo))
       ELSE \* the exponent is clamped; the digits are still the leading ones
            /\ h \in {19, 20}
            /\ obs.e = (IF lit.e + n > 0 THEN MaxExp ELSE MinExp)
                \/ obs.e = lit.e + n - h
            /\ LET lead == SubSeq(lit.d, 1, h) IN DLeq(DDist(lead, obs.d), IF h = 19 THEN <<1>> ELSE <<1, 0>>)

Represents(obs, lit) ==
    /\ ~obs.nan /\ obs.neg = lit.neg
    /\ obs.e >= MinExp /\ obs.e <= MaxExp /\ FitsU64(obs.d)
    /\ IF FitsU64(lit.d) THEN ReadExact(obs, lit) ELSE ReadLong(obs, lit)

-----------------------------------------------------------------------------
\* Integers.  An integer is [neg, d]; zero is never negative.
\* digit sequence times two
Dbl(d) == LET RECURSIVE F(_, _)
              F(i, c) == IF i = 0 THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                         ELSE LET x == d[i] * 2 + c IN Append(F(i - 1, x \div 10), x % 10)
          IN F(Len(d), 0)
PowTwos == FoldLeft(LAMBDA acc, i : Append(acc, Dbl(Last(acc))), << <<1>> >>, [i \in 1..64 |-> i])
Pow2Tab == [k \in 0..64 |-> PowTwos[k + 1]]
DPred(d) == DSub(d, <<1>>)
\* the integer type with the given width holds this integer
InType(x, bits, signed) ==
    IF signed THEN IF x.neg THEN DLeq(x.d, Pow2Tab[bits - 1]) ELSE DLess(x.d, Pow2Tab[bits - 1])
    ELSE ~x.neg /\ DLess(x.d, Pow2Tab[bits])

IntNum(x) == MkNum(x.neg, x.d, 0)

\* Reading number n as an integer; got is [some |-> BOOLEAN, x |-> integer]
IntReadOK(n, bits, signed, got) ==
    LET exactly(x) == ~n.nan /\ NumEq(n, IntNum(x))
        asInt == [neg |-> n.neg /\ n.d # <<>>, d |-> n.d]
        must == ~n.nan /\ n.e = 0 /\ InType(asInt, bits, signed)
                /\ ~(n.neg /\ n.d = <<>> /\ ~signed)
    IN IF got.some THEN exactly(got.x) /\ InType(got.x, bits, signed) ELSE ~must

\* n * 10^p truncated toward zero, as an integer; "huge" if it exceeds 10^40
Fixed(n, p) ==
    IF n.d = <<>> THEN [neg |-> FALSE, d |-> <<>>, huge |-> FALSE]
    ELSE LET s == n.e + p
             keep == Len(n.d) + s
         IN IF keep > 40 THEN [neg |-> n.neg, d |-> <<1>>, huge |-> TRUE]
            ELSE IF keep <= 0 THEN [neg |-> FALSE, d |-> <<>>, huge |-> FALSE]
            ELSE [neg |-> n.neg, huge |-> FALSE,
                  d |-> IF s >= 0 THEN n.d \o Zeros(s) ELSE SubSeq(n.d, 1, keep)]
FixedReadOK(n, p, signed, got) ==
    IF n.nan THEN ~got.some
    ELSE IF ~signed /\ n.neg THEN ~got.some
    ELSE LET f == Fixed(n, p) IN
         IF ~f.huge /\ InType(f, 64, signed)
         THEN got.some /\ got.x.d = f.d /\ (got.x.neg = f.neg \/ f.d = <<>>)
         ELSE TRUE            \* the result does not fit: any answer but a panic

-----------------------------------------------------------------------------
\* The text of a number: canonical form, as code points
Dig(d) == [i \in 1..Len(d) |-> d[i] + 48]
RECURSIVE NatDigits(_)
NatDigits(k) == IF k < 10 THEN <<k>> ELSE Append(NatDigits(k \div 10), k % 10)
NatText(k) == Dig(NatDigits(k))
Dot == <<46>>
NumText(n) ==
    IF n.nan THEN <<110, 117, 108, 108>>
    ELSE LET L == Len(n.d)
             body == IF L = 0 THEN <<48>>
                     ELSE IF n.e = 0 THEN Dig(n.d)
                     ELSE IF n.e < 0 /\ n.e > -18 THEN
                        LET w == -n.e  dd == IF L > w THEN n.d ELSE Zeros(w + 1 - L) \o n.d IN
                        Dig(SubSeq(dd, 1, Len(dd) - w)) \o Dot \o Dig(SubSeq(dd, Len(dd) - w + 1, Len(dd)))
                     ELSE IF n.e > 0 /\ L + n.e <= 20 THEN Dig(n.d \o Zeros(n.e))
                     ELSE LET m == IF L = 1 THEN Dig(n.d) ELSE Dig(<<n.d[1]>>) \o Dot \o Dig(Tail(n.d))
                              x == n.e + L - 1
                          IN IF n.e > 0 THEN m \o <<101>> \o NatText(x)
                             ELSE IF L = 1 THEN m \o <<101, 45>> \o NatText(-x)
                             ELSE IF x = 0 THEN m
                             ELSE IF x > 0 THEN m \o <<101, 43>> \o NatText(x)
                             ELSE m \o <<101, 45>> \o NatText(-x)
         IN (IF n.neg THEN <<45>> ELSE <<>>) \o body
=============================================================================
