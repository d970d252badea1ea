-------------------------------- MODULE NumMC -------------------------------
(* Small scopes of modules Num and Floats, checked exhaustively against      *)
(* second definitions, and enumerated for the real code.  The digit          *)
(* sequences include those at the ends of 64 bits and of the powers of ten   *)
(* that 64 bits hold; the exponents those at the ends of 16 bits.            *)
EXTENDS Floats, FiniteSets, TLC, Json
CONSTANTS Mode, Big, Emitting

One(k) == <<1>> \o Zeros(k)
DigitSets == {<<>>, <<1>>, <<2>>, <<1,0>>, <<1,2>>, <<1,2,0>>, One(18), One(19), U64Max,
              <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,0>>, <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1>>}
             \cup (IF Big THEN {<<9>>, <<2,5>>, One(2), One(17), Pow2Tab[63], DPred(Pow2Tab[63]), Pow2Tab[53], Pow2Tab[32]} ELSE {})
Exps == {-32768, -32767, -19, -18, -2, -1, 0, 1, 2, 18, 19, 32767}
        \cup (IF Big THEN {-400, -20, -17, -3, 3, 17, 20, 400, 32766} ELSE {})
Nums == {MkNum(s, d, e) : s \in BOOLEAN, d \in DigitSets, e \in Exps} \cup {NaN}
Few == {MkNum(s, d, e) : s \in BOOLEAN, d \in {<<>>, <<1>>, <<1,0>>, <<2>>, One(19)}, e \in {-32768, -19, -1, 0, 1, 32767}} \cup {NaN}

Widths == {8, 16, 32, 64}
\* the integers around the ends of every type, and the powers of ten
Around == {Pow2Tab[k] : k \in {7, 8, 15, 16, 31, 32, 63, 64}}
Ints == {[neg |-> s /\ d # <<>>, d |-> d] : s \in BOOLEAN, d \in DigitSets \cup Around \cup {DPred(x) : x \in Around}
                                                       \cup {DPred(DPred(x)) : x \in Around}}
Points == {0, 1, 2, 17, 18, 19, 20, 21, 32767, 32768, 65535}

\* a small format: every float and number can be compared exactly by integers
Toy == [p |-> 3, lo |-> -3, hi |-> 3, exactDigits |-> <<8>>, exactExp |-> 1, err |-> 2]
RECURSIVE NatOf(_, _)
NatOf(d, i) == IF i = 0 THEN 0 ELSE NatOf(d, i - 1) * 10 + d[i]
Nat10(k) == Strip(NatDigits(k))
ToyFloats == {[m |-> Nat10(m), q |-> q] : m \in 4..7, q \in (Toy.lo)..(Toy.hi)} \cup {[m |-> Nat10(m), q |-> Toy.lo] : m \in 1..3}
ToyAll == ToyFloats \cup {[m |-> <<>>, q |-> Toy.lo], [m |-> <<4>>, q |-> Toy.hi + 1]}
ToyNums == {MkNum(FALSE, Nat10(k), e) : k \in 1..(IF Big THEN 999 ELSE 120), e \in {-2, -1, 0}}

VARIABLES a, b, c, st     \* st: whether b and c have been chosen
vars == <<a, b, c, st>>
Init == /\ b = 0 /\ c = 0 /\ st = FALSE
        /\ CASE Mode = "eq" -> a \in Nums
             [] Mode = "eq3" -> a \in Few
             [] Mode = "int" -> a \in Nums
             [] Mode = "ints" -> a \in Ints
             [] Mode = "fixed" -> a \in Nums
             [] Mode = "parts" -> a \in Nums \ {NaN}
             [] Mode = "toy" -> a \in ToyNums

Choose == /\ ~st /\ st' = TRUE /\ UNCHANGED a
          /\ CASE Mode = "eq" -> b' \in Nums /\ c' = 0
               [] Mode = "eq3" -> b' \in Few /\ c' \in Few
               [] Mode = "int" -> b' = 0 /\ c' = 0
               [] Mode = "ints" -> b' \in Ints /\ c' = 0
               [] Mode = "fixed" -> b' \in Points /\ c' = 0
               [] Mode = "parts" -> b' = a /\ c' = 0
               [] Mode = "toy" -> b' \in ToyFloats /\ c' = 0
\* from_parts, one step at a time (zeros in larger strides)
Strip1 == /\ st /\ Mode = "parts" /\ More(b)
          /\ b' = (IF b.d = <<>> THEN MkNum(b.neg, <<>>, IF b.e < -1 THEN b.e \div 2 ELSE 0) ELSE Drop(b))
          /\ UNCHANGED <<a, c, st>>
Next == Choose \/ Strip1
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* Equality: by bringing both to the same exponent
Scaled(m, n) == LET lo == MinI(m.e, n.e) IN
                IF m.e - lo > 60 \/ n.e - lo > 60 THEN FALSE
                ELSE m.d \o Zeros(m.e - lo) = n.d \o Zeros(n.e - lo)
EqIsScaling == st /\ Mode = "eq" /\ ~a.nan /\ ~b.nan /\ a.d # <<>> /\ b.d # <<>> =>
               (NumEq(a, b) = (a.neg = b.neg /\ Scaled(a, b)))
EqZero == st /\ Mode = "eq" => /\ (IsZero(a) /\ ~b.nan => NumEq(a, b) = IsZero(b))
                         /\ (a.nan => NumEq(a, b) = b.nan)
EqLaws == st /\ Mode \in {"eq", "eq3"} => /\ NumEq(a, a) /\ NumEq(a, b) = NumEq(b, a) /\ (NumSame(a, b) => NumEq(a, b))
                                    /\ (NumEq(a, b) /\ ~a.nan => NumEq(Norm(a), b))
EqTransitive == st /\ Mode = "eq3" => (NumEq(a, b) /\ NumEq(b, c) => NumEq(a, c))
\* exactly one of less, equal, greater
Trichotomy == st /\ Mode = "eq" /\ ~a.nan /\ ~b.nan /\ a.d # <<>> /\ b.d # <<>> =>
    LET n == (IF MagLess(a, b) THEN 1 ELSE 0) + (IF MagLess(b, a) THEN 1 ELSE 0) + (IF NumEq(MkNum(FALSE, a.d, a.e), MkNum(FALSE, b.d, b.e)) THEN 1 ELSE 0)
    IN n = 1

\* Integers
Some(x) == [some |-> TRUE, x |-> x]
None == [some |-> FALSE]
IntExact == st /\ Mode = "ints" => \A w \in Widths, s \in BOOLEAN :
    /\ IntReadOK(IntNum(a), w, s, Some(b)) = (a = b /\ InType(a, w, s))
    /\ IntReadOK(IntNum(a), w, s, None) = ~InType(a, w, s)
    /\ InType(a, 8, s) => InType(a, w, s)
    /\ ~s /\ ~a.neg /\ w < 64 /\ InType(a, w, FALSE) => InType(a, 2 * w, TRUE)
\* the least and the greatest of each type
IntEnds == st /\ Mode = "ints" => \A w \in Widths :
    /\ InType(a, w, FALSE) = (~a.neg /\ DLeq(a.d, DPred(Pow2Tab[w])))
    /\ InType(a, w, TRUE) = (IF a.neg THEN DLeq(a.d, Pow2Tab[w - 1]) ELSE DLeq(a.d, DPred(Pow2Tab[w - 1])))
IntUnique == st /\ Mode = "int" => \A w \in Widths, s \in BOOLEAN :
    /\ a.nan => IntReadOK(a, w, s, None) /\ \A x \in Ints : ~IntReadOK(a, w, s, Some(x))
    /\ Cardinality({x \in Ints : IntReadOK(a, w, s, Some(x))}) <= 1
    /\ ~a.nan /\ a.e = 0 /\ a.d # <<>> => IntReadOK(a, w, s, None) = ~InType([neg |-> a.neg, d |-> a.d], w, s)

\* Fixed point: the integer is the value's whole number of units, and no more
Unit(x, p) == MkNum(x.neg, x.d, -p)
DSucc(d) == IF d = <<>> THEN <<1>> ELSE
            LET RECURSIVE F(_, _)
                F(i, k) == IF i = 0 THEN (IF k = 1 THEN <<1>> ELSE <<>>)
                           ELSE Append(F(i - 1, (d[i] + k) \div 10), (d[i] + k) % 10)
            IN F(Len(d), 1)
FixedTruncates == st /\ Mode = "fixed" /\ ~a.nan =>
    LET f == Fixed(a, b) IN
    ~f.huge => /\ f.d = <<>> \/ (a.d # <<>> /\ f.neg = a.neg /\ ~MagLess(a, Unit(f, b)))
               /\ a.d # <<>> => MagLess(a, MkNum(FALSE, DSucc(f.d), -b))
FixedOfEqual == st /\ Mode = "fixed" /\ ~a.nan /\ a.d # <<>> => Fixed(a, b).d = Fixed(Norm(a), b).d
FixedWhole == st /\ Mode = "fixed" /\ b = 0 /\ ~a.nan /\ a.e = 0 => Fixed(a, 0).d = a.d

\* from_parts
PartsSame == st /\ Mode = "parts" => NumSame(a, b) \/ (IsZero(a) /\ IsZero(b) /\ a.neg = b.neg)
PartsEnd == st /\ Mode = "parts" /\ ~More(b) => b = FromParts(a) /\ (a.e >= 0 => b = a) /\ b.e <= MaxI(a.e, 0)
PartsShort == st /\ Mode = "parts" /\ ~More(b) => b.e >= 0 \/ (b.d # <<>> /\ Last(b.d) # 0)

\* Floats: everything over the common denominator 10^2 * 2^8
ToyVal(f) == NatOf(f.m, Len(f.m)) * 100 * 2^(f.q + 8)
NumVal(n) == NatOf(n.d, Len(n.d)) * 10^(n.e + 2) * 256
Abs(x) == IF x < 0 THEN -x ELSE x
ToyNearest == st /\ Mode = "toy" =>
    LET d == Abs(ToyVal(b) - NumVal(a))
        best == \A f \in ToyAll \ {b} :
                    LET x == Abs(ToyVal(f) - NumVal(a)) IN d < x \/ (d = x /\ Last(b.m) % 2 = 0)
        only == \A f \in ToyAll \ {b} : d < Abs(ToyVal(f) - NumVal(a))
    IN Within(Toy, a, b, TRUE) = best /\ Within(Toy, a, b, FALSE) = only
ToyClose == st /\ Mode = "toy" => Close(Toy, a, b) = (Abs(ToyVal(b) - NumVal(a)) * 2^Toy.err <= NumVal(a))
ToyTiny == st /\ Mode = "toy" => NearTiny(Toy, a, b) = (Abs(NatOf(b.m, 1) * 100 * 2^(Toy.lo + 8) - NumVal(a)) <= 4 * 100 * 2^(Toy.lo + 8))

Emit == Emitting /\ st =>
    CASE Mode = "eq" -> PrintT("@" \o ToJson([a |-> a, b |-> b, eq |-> NumEq(a, b)]))
      [] Mode = "int" -> PrintT("@" \o ToJson([n |-> a]))
      [] Mode = "ints" -> a = b => PrintT("@" \o ToJson([x |-> a, t |-> [i \in 1..4 |-> <<InType(a, <<8,16,32,64>>[i], FALSE), InType(a, <<8,16,32,64>>[i], TRUE)>>]]))
      [] Mode = "fixed" -> PrintT("@" \o ToJson([n |-> a, p |-> b]))
      [] Mode = "parts" -> a = b => PrintT("@" \o ToJson([n |-> a, m |-> FromParts(a)]))
      [] OTHER -> TRUE
=============================================================================
