------------------------------ MODULE InitDist ------------------------------
(* C14: initial distributions.                                              *)
EXTENDS Fix, Json
(* kind "frac": fr = sequence of rational fractions <<num, den>> with one   *)
(* common denominator (only the numerators matter), pos = positions         *)
FracCounts(n, fr) ==
  LET tot == SumSeq(fr)
      q == [i \in 1..Len(fr) |-> (n * fr[i]) \div tot]
  IN [q EXCEPT ![1] = @ + n - SumSeq(q)]
RECURSIVE Repeat(_, _)
Repeat(v, k) == IF k = 0 THEN <<>> ELSE <<v>> \o Repeat(v, k - 1)
\* all particles, ordered by position
FracWalkers(n, fr, pos) ==
  LET cn == FracCounts(n, fr)
  IN FoldLeft(LAMBDA a, i : a \o Repeat(pos[i], cn[i]), <<>>, [i \in 1..Len(pos) |-> i])

\* n trials, m equally likely outcomes: more than about six standard deviations off
Far(obs, n, m) == LET e == n \div m IN (obs - e) * (obs - e) > 36 * (e + 9)

Even(cnts, n) == \A i \in 1..Len(cnts) : ~Far(cnts[i], n, Len(cnts))
=============================================================================
