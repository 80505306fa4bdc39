-------------------------------- MODULE Fix --------------------------------
(* Exact fixed-point arithmetic on TLC's 32-bit integers.                   *)
(* A real number x is represented by x*S.  Operations that would have to    *)
(* round are machinery errors (Assert), never silent approximations; the    *)
(* only approximate operators are Exp6 and Ln5, used for birth-death rates  *)
(* and free energies with explicit margins.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Tables

S == 1024

ExDiv(a, b) == IF a % b = 0 THEN a \div b ELSE Assert(FALSE, <<"inexact division", a, b>>)
Mul(a, b)   == ExDiv(a * b, S)
\* a * (r[1]/r[2])
Rat(a, r)   == ExDiv(a * r[1], r[2])
\* rounded to the nearest integer
RDiv(a, b)  == (2 * a + b) \div (2 * b)

Abs(a)      == IF a < 0 THEN -a ELSE a
Max2(a, b)  == IF a > b THEN a ELSE b
Min2(a, b)  == IF a < b THEN a ELSE b
SumSeq(s)   == FoldLeft(LAMBDA a, b : a + b, 0, s)
ProdSeq(s)  == FoldLeft(LAMBDA a, b : a * b, 1, s)
\* number of elements of the sequence that satisfy P
CountSeq(s, P(_)) == FoldLeft(LAMBDA a, b : IF P(b) THEN a + 1 ELSE a, 0, s)

RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN S ELSE IF n = 1 THEN x ELSE Mul(Pow(x, n - 1), x)

\* 10^6 * exp(-a/8192) for a >= 0
Exp6(a) == LET q == a \div 64
               r == a % 64
           IN IF q >= 1855 THEN 0
              ELSE ExpTab[q + 1] - ((ExpTab[q + 1] - ExpTab[q + 2]) * r) \div 64

\* 10^5 * ln(s / 10^6) for s >= 10^6
RECURSIVE Ln5(_)
Ln5(s) == IF s >= 2000000 THEN 69315 + Ln5(s \div 2)
          ELSE LET f == (s - 1000000) * 256
                   q == f \div 1000000
                   r == (f % 1000000) \div 1000
               IN LnMant[q + 1] + ((LnMant[q + 2] - LnMant[q + 1]) * r) \div 1000

\* 10^5 * ln(n) for an integer n
\* (n = q 2^k + r with q <= 2000: ln n = ln q + k ln 2 + r / (q 2^k))
RECURSIVE LnQ(_, _, _)
LnQ(q, k, n) == IF q > 2000 THEN LnQ(q \div 2, k + 1, n)
                ELSE LnTab[q] + (k * 693147) \div 10 + ((n - q * 2^k) * 100000) \div (q * 2^k)
LnI(n) == IF n <= 2000 THEN LnTab[n] ELSE LnQ(n, 0, n)

=============================================================================
