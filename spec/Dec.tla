-------------------------------- MODULE Dec --------------------------------
(* Decimal arithmetic in units of 10^-6 (approximate: every operation may be *)
(* wrong by a few units), for parameters of any size: what the exact         *)
(* fixed-point arithmetic of Fix cannot represent.                           *)
EXTENDS Fix
The(set) == CHOOSE v \in set : TRUE
U == 1000000
\* a * b; needs |a b| < 2000 and |a|, |b| < 2000
MulDPos(a, b) == (a \div 1000) * (b \div 1000)
                 + ((a \div 1000) * (b % 1000) + (a % 1000) * (b \div 1000) + ((a % 1000) * (b % 1000)) \div 1000) \div 1000
MulD(a, b) == IF (a < 0) = (b < 0) THEN MulDPos(Abs(a), Abs(b)) ELSE -MulDPos(Abs(a), Abs(b))
\* digits of the remainder
RECURSIVE Digits(_, _, _)
Digits(r, b, k) == IF k = 0 THEN 0
                   ELSE ((r * 10) \div b) * (IF k = 6 THEN 100000 ELSE IF k = 5 THEN 10000 ELSE IF k = 4 THEN 1000
                                              ELSE IF k = 3 THEN 100 ELSE IF k = 2 THEN 10 ELSE 1)
                        + Digits((r * 10) % b, b, k - 1)
\* a / b for a >= 0, 0 < b < 200
DivD(a, b) == (a \div b) * U + Digits(a % b, b, 6)
\* square root for 0 <= v < 200 (Newton)
RECURSIVE Newton(_, _, _)
Newton(v, s, k) == IF k = 0 \/ s = 0 THEN s ELSE Newton(v, (s + DivD(v, s)) \div 2, k - 1)
SqrtD(v) == IF v <= 0 THEN 0 ELSE Newton(v, IF v < 10000 THEN 50000 ELSE IF v < U THEN 500000 ELSE 3 * U, 12)
\* exp(-x) for x >= 0
ExpSeries(x) == The({ U - x + q \div 2 - MulD(q, x) \div 6 + MulD(q, q) \div 24 : q \in {MulD(x, x)} })
ExpD(x) == IF x < 200000 THEN ExpSeries(x)
           ELSE IF x > 14000000 THEN 0
           ELSE MulD(ExpTab[2 * (x \div 15625) + 1], ExpSeries(x % 15625))
\* 1 - exp(-x), for x < 0.2 in units of 10^-8
OneMinus(x) == U - ExpD(x)
OneMinus8(x) ==
  The({ The({ 100 * x - x2 \div 2 + x3 \div 6 - MulD(x3, x) \div 24 + MulD(MulD(x3, x), x) \div 120
              : x3 \in {MulD(x2, x)} }) : x2 \in {MulD(100 * x, x)} })
=============================================================================
