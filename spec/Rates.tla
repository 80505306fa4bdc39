------------------------------- MODULE Rates -------------------------------
(* Birth-death rates (original, additive and multiplicative approximation)  *)
(* and the acceptance decision, in units of 10^-5.                          *)
(*                                                                          *)
(* c.bd: stride, recalc (0/1), bw (rational per dimension), kt (rational),  *)
(* tau = timestep*stride*factor (rational), variant (0 orig, 1 add, 2 mult),*)
(* s2 (rational per dimension: kT / spring constant, only for variants 1,2: *)
(* the potential is then harmonic per dimension around cen), margin,        *)
(* statstride.                                                              *)
EXTENDS Dyn

\* d^2/(2 bw^2) in units of 1/8192
KArgD(bw, d) == IF Abs(d) * bw[2] > 6 * S * bw[1] THEN 200000
                ELSE RDiv(d * d * bw[2] * bw[2], 256 * bw[1] * bw[1])
KArg(c, x, y) == SumSeq([d \in 1..c.dim |-> KArgD(c.bd.bw[d], x[d] - y[d])])

\* ln of the kernel sum at walker i (own kernel included)
LnRho(c, ws, i) == Ln5(SumSeq([j \in 1..Len(ws) |-> Exp6(KArg(c, ws[i].x, ws[j].x))]))

\* from units of 1/S to units of 10^-5
E5(e) == (e \div 32) * 3125 + ((e % 32) * 3125) \div 32
\* energy / kT
EkT(c, x) == LET e == Energy(c, x)
             IN RDiv(E5(e) * c.bd.kt[2], c.bd.kt[1])

\* x^2 in units of 1/S (rounded), for the harmonic closed forms
Sq(x) == RDiv(x * x, S)
\* r * v / S in units of 10^-5 for a rational r
RECURSIVE GcdOf(_, _)
GcdOf(a, b) == IF b = 0 THEN a ELSE GcdOf(b, a % b)
R5(v, r) == LET g == GcdOf(r[1], r[2]) IN RDiv(E5(v) * (r[1] \div g), r[2] \div g)

\* additive correction  -ln((K*pi)/pi)(x) + <ln((K*pi)/pi)>_pi  for a harmonic well:
\* -1/2 (x^2 - s2) b2 / (s2 (s2 + b2))
AddCorr(c, x) ==
  -SumSeq([d \in 1..c.dim |->
     LET s == c.bd.s2[d]  b == c.bd.bw[d]
         b2 == <<b[1] * b[1], b[2] * b[2]>>
         sum == <<s[1] * b2[2] + b2[1] * s[2], s[2] * b2[2]>>
     IN R5(Sq(x[d] - c.bd.cen[d]) - RDiv(S * s[1], s[2]), <<b2[1] * s[2] * sum[2], 2 * b2[2] * s[1] * sum[1]>>)])
\* -ln (K*pi)(x) up to a constant: x^2 / (2 (s2 + b2))
MultTerm(c, x) ==
  SumSeq([d \in 1..c.dim |->
     LET s == c.bd.s2[d]  b == c.bd.bw[d]
         b2 == <<b[1] * b[1], b[2] * b[2]>>
         sum == <<s[1] * b2[2] + b2[1] * s[2], s[2] * b2[2]>>
     IN R5(Sq(x[d] - c.bd.cen[d]), <<sum[2], 2 * sum[1]>>)])

\* rates of all walkers (bound variables make TLC evaluate every part only once)
The(set) == CHOOSE x \in set : TRUE
Logs(c, ws) == [i \in 1..Len(ws) |-> LnRho(c, ws, i)
                  + (IF c.bd.variant = 2 THEN MultTerm(c, ws[i].x) ELSE EkT(c, ws[i].x))]
Betas(c, ws) ==
  The({ [i \in 1..Len(ws) |-> r[1][i] - r[2] + (IF c.bd.variant = 1 THEN AddCorr(c, ws[i].x) ELSE 0)]
        : r \in { <<l, RDiv(SumSeq(l), Len(ws))>> : l \in {Logs(c, ws)} } })

\* possible signs of the rate: rates closer to zero than the margin may count as either
Signs(c, b) == IF b > c.bd.margin THEN {1} ELSE IF b < -c.bd.margin THEN {-1} ELSE {1, -1}

\* the uniform random number is 1 - exp(-t): accepted iff t <= |b| tau
Accepts(c, b, t) ==
  LET thr == RDiv(Abs(b) * c.bd.tau[1], c.bd.tau[2])
      mar == RDiv(c.bd.margin * c.bd.tau[1], c.bd.tau[2]) + 5
  IN IF t = 0 /\ Abs(b) > c.bd.margin THEN {TRUE}
     ELSE IF t < thr - mar THEN {TRUE} ELSE IF t > thr + mar THEN {FALSE} ELSE {TRUE, FALSE}
=============================================================================
