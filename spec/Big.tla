-------------------------------- MODULE Big --------------------------------
(***************************************************************************)
(* Natural numbers of any size.  TLC integers have 32 bits, hit counts do   *)
(* not: a natural is the little-endian sequence of its base-10000 digits,   *)
(* without leading zeros (zero is <<>>), so equality of numbers is equality *)
(* of sequences.                                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences

BigBase == 10000

RECURSIVE BNorm(_)
BNorm(a) == IF a = <<>> \/ a[Len(a)] # 0 THEN a
            ELSE BNorm(SubSeq(a, 1, Len(a) - 1))

RECURSIVE BFrom(_)
BFrom(n) == IF n = 0 THEN <<>> ELSE <<n % BigBase>> \o BFrom(n \div BigBase)

BZero == <<>>
BOne  == <<1>>

BDig(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE BAddC(_, _, _, _)
BAddC(a, b, i, c) ==
    IF i > Len(a) /\ i > Len(b)
    THEN IF c = 0 THEN <<>> ELSE <<c>>
    ELSE LET s == BDig(a, i) + BDig(b, i) + c
         IN  <<s % BigBase>> \o BAddC(a, b, i + 1, s \div BigBase)

BAdd(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE BAddC(a, b, 1, 0)

RECURSIVE BMul1(_, _, _, _)     \* a * d + carry, d a digit
BMul1(a, d, i, c) ==
    IF i > Len(a) THEN IF c = 0 THEN <<>> ELSE <<c>>
    ELSE LET s == a[i] * d + c
         IN  <<s % BigBase>> \o BMul1(a, d, i + 1, s \div BigBase)

RECURSIVE BMulI(_, _, _)
BMulI(a, b, i) ==
    IF i > Len(b) THEN <<>>
    ELSE LET rest == BMulI(a, b, i + 1)
             hi   == IF rest = <<>> THEN <<>> ELSE <<0>> \o rest
             lo   == IF b[i] = 0 THEN <<>> ELSE BMul1(a, b[i], 1, 0)
         IN  BAdd(lo, hi)

BMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE BMulI(a, b, 1)

RECURSIVE BCmpI(_, _, _)        \* same length: compare from the top digit
BCmpI(a, b, i) ==
    IF i = 0 THEN 0
    ELSE IF a[i] < b[i] THEN 0 - 1
    ELSE IF a[i] > b[i] THEN 1
    ELSE BCmpI(a, b, i - 1)

BCmp(a, b) == IF Len(a) < Len(b) THEN 0 - 1
              ELSE IF Len(a) > Len(b) THEN 1
              ELSE BCmpI(a, b, Len(a))

BLeq(a, b) == BCmp(a, b) <= 0
BLt(a, b)  == BCmp(a, b) < 0

\* |a - b| <= t, without subtraction
BNear(a, b, t) == BLeq(a, BAdd(b, t)) /\ BLeq(b, BAdd(a, t))

\* Well-formed big natural
IsBig(a) == /\ \A i \in 1..Len(a) : a[i] \in 0..(BigBase - 1)
            /\ a = <<>> \/ a[Len(a)] # 0

\* Rationals: [n |-> numerator, d |-> denominator], d # 0
Rat(n, d)   == [n |-> n, d |-> d]
RatZero     == [n |-> BZero, d |-> BOne]
RatAdd(x, y) == IF x.d = y.d THEN [n |-> BAdd(x.n, y.n), d |-> x.d]
                ELSE [n |-> BAdd(BMul(x.n, y.d), BMul(y.n, x.d)), d |-> BMul(x.d, y.d)]
RatScale(x, k) == [n |-> BMul(x.n, k), d |-> x.d]
RatDiv(x, k)   == [n |-> x.n, d |-> BMul(x.d, k)]
RatLeq(x, y) == BLeq(BMul(x.n, y.d), BMul(y.n, x.d))
RatEq(x, y)  == BMul(x.n, y.d) = BMul(y.n, x.d)
=============================================================================
