----------------------------- MODULE Potentials -----------------------------
(* C13: potential objects.  Polynomials are exact (Dyn); the Mueller-Brown  *)
(* potential is the published sum of four exponentials, in units of 10^-4,  *)
(* with positions on the lattice 1/16 and a tolerance for the exponential   *)
(* table.                                                                   *)
EXTENDS Dyn

MBA == <<-200, -100, -170, 15>>
\* coefficients times 10
MBa == <<-10, -10, -65, 7>>
MBb == <<0, 0, 110, 6>>
MBc == <<-100, -100, -65, 7>>
\* centres times 16
MBx == <<16, 0, -8, -16>>
MBy == <<0, 8, 24, 16>>

\* exponent times 2560
MBArg(i, x, y) == LET dx == x - MBx[i]  dy == y - MBy[i]
                  IN MBa[i] * dx * dx + MBb[i] * dx * dy + MBc[i] * dy * dy
\* 10^6 * exp(-a/2560), a >= 0
ExpFine(a) == LET q == (a * 32) \div 640
                  r == (a * 32) % 640
              IN IF a > 36000 THEN 0
                 ELSE ExpTab[q + 1] - ((ExpTab[q + 1] - ExpTab[q + 2]) * r) \div 640
\* exp(k) in units of 10^-4 for k = 1, 2, ...
EK == <<27183, 73891, 200855, 545982>>
\* 10^4 * A_i * exp(arg)
MBTerm(i, x, y) ==
  LET a == MBArg(i, x, y)
  IN IF a <= 0 THEN (MBA[i] * ExpFine(-a)) \div 100
     ELSE LET k == (a \div 2560) + 1
              e == ExpFine(2560 * k - a)
          IN MBA[i] * ((EK[k] * (e \div 1000) + (EK[k] * (e % 1000)) \div 1000) \div 1000)
MulDiv(v, f, d) == (v \div d) * f + ((v % d) * f) \div d
Scaled(v, sf) == MulDiv(v, sf[1], sf[2])
MBEnergy(sf, x, y) == Scaled(SumSeq([i \in 1..4 |-> MBTerm(i, x, y)]), sf)
\* derivative of the exponent times 160
MBDx(i, x, y) == 2 * MBa[i] * (x - MBx[i]) + MBb[i] * (y - MBy[i])
MBDy(i, x, y) == MBb[i] * (x - MBx[i]) + 2 * MBc[i] * (y - MBy[i])
MBForce(sf, x, y) == << -Scaled(SumSeq([i \in 1..4 |-> MulDiv(MBTerm(i, x, y), MBDx(i, x, y), 160)]), sf),
                        -Scaled(SumSeq([i \in 1..4 |-> MulDiv(MBTerm(i, x, y), MBDy(i, x, y), 160)]), sf) >>
\* bound of the error of the table: 2*10^-5 of the absolute terms (energy), with the
\* derivative of the exponent for the force
MBMag(x, y) == SumSeq([i \in 1..4 |-> Abs(MBTerm(i, x, y))])
MBTolE(sf, x, y) == Scaled(MBMag(x, y) \div 25000 + 60, sf) + 5
MBTolF(sf, x, y) == Scaled(SumSeq([i \in 1..4 |-> MulDiv(Abs(MBTerm(i, x, y)) \div 25000 + 10,
                             Abs(MBDx(i, x, y)) + Abs(MBDy(i, x, y)) + 160, 160)]), sf) + 5
=============================================================================
