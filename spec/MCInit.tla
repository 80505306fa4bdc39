------------------------------- MODULE MCInit -------------------------------
(* Fractions for all small numbers of particles and integer fractions.      *)
EXTENDS InitDist
CONSTANTS MaxN, MaxF, MaxPos
VARIABLE v
Init == \E m \in 1..MaxPos : \E f \in [1..m -> 0..MaxF], n \in 1..MaxN :
          SumSeq(f) > 0 /\ v = [n |-> n, f |-> f]
Next == FALSE /\ v' = v
Cn == FracCounts(v.n, v.f)
\* every particle is placed, no share is negative, nobody gets less than the integer part
\* and only the first one more
Total == SumSeq(Cn) = v.n
Shares == \A i \in 1..Len(v.f) : Cn[i] >= 0 /\ Cn[i] * SumSeq(v.f) <= v.n * v.f[i] + (IF i = 1 THEN SumSeq(v.f) * Len(v.f) ELSE 0)
                                 /\ (Cn[i] + 1) * SumSeq(v.f) > v.n * v.f[i]
Exact == (\A i \in 1..Len(v.f) : (v.n * v.f[i]) % SumSeq(v.f) = 0) => \A i \in 1..Len(v.f) : Cn[i] * SumSeq(v.f) = v.n * v.f[i]
Walkers == Len(FracWalkers(v.n, v.f, [i \in 1..Len(v.f) |-> i])) = v.n
=============================================================================
