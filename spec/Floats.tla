-------------------------------- MODULE Floats ------------------------------
(* Binary floating point against decimal numbers, exactly.  A finite float   *)
(* is m * 2^q with m a natural number (given by its decimal digits); numbers *)
(* are those of module Num.  Comparisons are made on big naturals: sequences *)
(* of base-10000 limbs, least significant first, no high zeros.              *)
EXTENDS Num

RECURSIVE LimbOf(_, _, _)
\* value of up to four digits d[i..j]
LimbOf(d, i, j) == IF j < i THEN 0 ELSE LimbOf(d, i, j - 1) * 10 + d[j]
Limbs(d) == [k \in 1..((Len(d) + 3) \div 4) |->
                LET j == Len(d) - 4 * (k - 1)  i == IF j > 4 THEN j - 3 ELSE 1 IN LimbOf(d, i, j)]

RECURSIVE HighZero(_, _)
HighZero(a, i) == IF i >= 1 /\ a[i] = 0 THEN HighZero(a, i - 1) ELSE i
TrimB(a) == LET i == HighZero(a, Len(a)) IN IF i = Len(a) THEN a ELSE SubSeq(a, 1, i)

RECURSIVE Carry(_, _, _)
Carry(a, i, c) == IF i > Len(a) THEN IF c = 0 THEN a ELSE Carry(Append(a, 0), i, c)
                  ELSE LET x == a[i] + c IN Carry([a EXCEPT ![i] = x % 10000], i + 1, x \div 10000)
MulSmall(a, k) == Carry([i \in 1..Len(a) |-> a[i] * k], 1, 0)

RECURSIVE Conv(_, _, _, _, _)
Conv(a, b, k, i, hi) == IF i > hi THEN 0 ELSE a[i] * b[k + 1 - i] + Conv(a, b, k, i + 1, hi)
\* the shorter factor must have at most 20 limbs
Mul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
             ELSE IF Len(a) > Len(b)
             THEN Carry([k \in 1..(Len(a) + Len(b) - 1) |-> Conv(b, a, k, MaxI(1, k + 1 - Len(a)), MinI(Len(b), k))], 1, 0)
             ELSE Carry([k \in 1..(Len(a) + Len(b) - 1) |-> Conv(a, b, k, MaxI(1, k + 1 - Len(b)), MinI(Len(a), k))], 1, 0)

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1) ELSE CmpFrom(a, b, i - 1)
CmpB(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE CmpFrom(a, b, Len(a))

Powers(k, n) == FoldLeft(LAMBDA acc, i : Append(acc, MulSmall(Last(acc), k)), << <<1>> >>, [i \in 1..n |-> i])
Tab5 == Powers(5, 400)
Tab2 == Powers(2, 1500)
P5(k) == Tab5[k + 1]
P2(k) == Tab2[k + 1]

\* number of decimal digits
DLenB(a) == IF a = <<>> THEN 0
            ELSE 4 * (Len(a) - 1) + (LET x == a[Len(a)] IN IF x < 10 THEN 1 ELSE IF x < 100 THEN 2 ELSE IF x < 1000 THEN 3 ELSE 4)

\* compare A * 10^e with M * 2^Q (A, M non-zero limbs): -1, 0, 1.
\* When the decimal point positions are far apart the answer is clear (and the
\* exact comparison, which would multiply two long numbers, is not needed).
CmpDecBin(A, e, M, Q) ==
    LET top == DLenB(A) + e
        fl == DLenB(M) + (Q * 30103) \div 100000
        x == Q - e
        l == IF e > 0 THEN Mul(A, P5(e)) ELSE A
        r == IF e < 0 THEN Mul(M, P5(-e)) ELSE M
    IN IF top > fl + 3 THEN 1
       ELSE IF top < fl - 3 THEN -1
       ELSE IF x >= 0 THEN CmpB(TrimB(l), TrimB(Mul(r, P2(x))))
       ELSE CmpB(TrimB(Mul(l, P2(-x))), TrimB(r))

-----------------------------------------------------------------------------
\* formats: precision, exponent of the smallest unit, exponent of the largest unit
F64 == [p |-> 53, lo |-> -1074, hi |-> 971, exactDigits |-> Limbs(Pow2Tab[53]), exactExp |-> 22, err |-> 50]
F32 == [p |-> 24, lo |-> -149, hi |-> 104, exactDigits |-> Limbs(Pow2Tab[24]), exactExp |-> 10, err |-> 20]

PlusB(a, k) == Carry(IF a = <<>> THEN <<k>> ELSE [a EXCEPT ![1] = @ + k], 1, 0)
\* 2m + 1, 2m - 1, 4m - 1 for m > 0
Up(m) == PlusB(MulSmall(m, 2), 1)
RECURSIVE BorrowOne(_, _)
BorrowOne(a, i) == IF a[i] > 0 THEN [a EXCEPT ![i] = @ - 1] ELSE BorrowOne([a EXCEPT ![i] = 9999], i + 1)
Dn(m) == TrimB(BorrowOne(MulSmall(m, 2), 1))
Dn4(m) == TrimB(BorrowOne(MulSmall(m, 4), 1))

IsEven(m) == m[1] % 2 = 0
\* the lower neighbour is half as far away below a power of two (m = 2^(p-1))
Narrow(fmt, f) == f.q > fmt.lo /\ Limbs(f.m) = Limbs(Pow2Tab[fmt.p - 1])

\* n (positive, |n.e| <= 400) lies strictly between the midpoints around the
\* positive float f; at a midpoint too if ties = TRUE and f is even
Within(fmt, n, f, ties) ==
    LET A == Limbs(n.d)  m == Limbs(f.m)
        lo == IF Narrow(fmt, f) THEN CmpDecBin(A, n.e, Dn4(m), f.q - 2) ELSE CmpDecBin(A, n.e, Dn(m), f.q - 1)
        hi == CmpDecBin(A, n.e, Up(m), f.q - 1)
    IN IF ties /\ IsEven(m) THEN lo >= 0 /\ hi <= 0 ELSE lo > 0 /\ hi < 0

\* relative error at most 2^-err
Close(fmt, n, f) ==
    LET A == Limbs(n.d)  m == Limbs(f.m)
        one == P2(fmt.err)
    IN /\ CmpDecBin(TrimB(Mul(A, TrimB(BorrowOne(one, 1)))), n.e, m, f.q + fmt.err) <= 0
       /\ CmpDecBin(TrimB(Mul(A, PlusB(one, 1))), n.e, m, f.q + fmt.err) >= 0

\* |n - f| at most four of the format's smallest units
NearTiny(fmt, n, f) ==
    LET A == Limbs(n.d)  m == Limbs(f.m) IN
    /\ CmpDecBin(A, n.e, PlusB(m, 4), fmt.lo) <= 0
    /\ CmpB(m, <<4>>) <= 0 \/
         CmpDecBin(A, n.e, LET RECURSIVE Dec(_, _)
                               Dec(a, k) == IF k = 0 THEN a ELSE Dec(TrimB(BorrowOne(a, 1)), k - 1)
                           IN Dec(m, 4), fmt.lo) >= 0

-----------------------------------------------------------------------------
\* A float f = [c |-> "fin" | "inf" | "nan", neg, m, q] was turned into n
FloatToNum(f, n) ==
    IF f.c # "fin" THEN n.nan
    ELSE /\ ~n.nan /\ n.neg = f.neg
         /\ IF f.m = <<>> THEN n.d = <<>>
            ELSE n.d # <<>> /\ Len(n.d) + n.e \in -330..320 /\ Within(F64, n, f, FALSE)

\* number n was read as the float f of format fmt
NumToFloat(fmt, n, f) ==
    IF n.nan THEN f.c = "nan"
    ELSE IF n.d = <<>> THEN f.c = "fin" /\ f.m = <<>> /\ f.neg = n.neg
    ELSE /\ f.c # "nan" /\ f.neg = n.neg
         /\ LET top == Len(n.d) + n.e
                A == Limbs(n.d)
            IN IF top > 320 THEN f.c = "inf"
               ELSE IF top < -345 THEN f.c = "fin" /\ f.m = <<>>
               ELSE IF f.c = "inf" \* only for values beyond (all but) the largest finite float
                    THEN CmpDecBin(TrimB(Mul(A, PlusB(P2(fmt.err), 1))), n.e, P2(fmt.p), fmt.hi + fmt.err) >= 0
               ELSE IF f.m = <<>> THEN CmpDecBin(A, n.e, <<1>>, fmt.lo) < 0
               ELSE IF n.e = 0 \/ (CmpB(A, fmt.exactDigits) <= 0 /\ n.e <= fmt.exactExp /\ n.e >= -fmt.exactExp)
                    THEN Within(fmt, n, f, TRUE)
               ELSE IF CmpDecBin(A, n.e, <<1>>, fmt.lo + fmt.p) >= 0 THEN Close(fmt, n, f)
               ELSE f.q = fmt.lo => NearTiny(fmt, n, f)

\* IEEE equality
FloatEq(a, b) == /\ a.c # "nan" /\ b.c # "nan" /\ a.c = b.c
                 /\ IF a.c = "inf" THEN a.neg = b.neg
                    ELSE a.m = b.m /\ (a.m = <<>> \/ (a.neg = b.neg /\ a.q = b.q))
=============================================================================
