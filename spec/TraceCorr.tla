----------------------------- MODULE TraceCorr -----------------------------
(* C22: rates of the additive and multiplicative approximations for         *)
(* equilibrium densities of any form, given on a grid.  The bandwidth is a  *)
(* multiple m of the step per dimension, the walkers are at grid points     *)
(* away from the edges.  Integers: density 1 .. 1000 (any unit), kernel     *)
(* values times 10^4, logarithms and rates times 10^5.                      *)
EXTENDS Rates, Json
VARIABLES cid, done
Trace == ndJsonDeserialize("trace.ndjson")
Case == Trace[cid]
C == Case.cfg
Dims == 1..C.dim

RECURSIVE Ln6(_)
Ln6(k) == IF k >= 1000000 THEN Ln5(k) + 1381551 ELSE Ln6(2 * k) - 69315

\* row-major indices
RECURSIVE UnR(_, _)
UnR(k, d) == IF d = 0 THEN <<>> ELSE UnR(k \div Case.n[d], d - 1) \o <<(k % Case.n[d]) + 1>>
Un(k) == UnR(k - 1, C.dim)
Flat(ix) == FoldLeft(LAMBDA a, d : a * Case.n[d] + ix[d] - 1, 0, [d \in Dims |-> d]) + 1
Total == ProdSeq(Case.n)

\* kernel on the steps -5m .. 5m (per dimension, index 5m+1 is the centre)
Kern(d) == [k \in 1..(10 * Case.m[d] + 1) |->
              LET q == k - 1 - 5 * Case.m[d] IN RDiv(Exp6(RDiv(4096 * q * q, Case.m[d] * Case.m[d])), 100)]
At(pi, ix) == IF \E d \in Dims : ix[d] < 1 \/ ix[d] > Case.n[d] THEN 0 ELSE pi[Flat(ix)]
\* a * b / 100 without large products
MulDiv(a, b) == (b \div 100) * a + RDiv((b % 100) * a, 100)
Conv1(K, pi, ix) == SumSeq([k \in 1..Len(K[1]) |-> K[1][k] * At(pi, <<ix[1] + k - 1 - 5 * Case.m[1]>>)])
Conv2(K, pi, ix) ==
  SumSeq([k \in 1..Len(K[1]) |->
     MulDiv(K[1][k], RDiv(SumSeq([l \in 1..Len(K[2]) |->
        K[2][l] * At(pi, <<ix[1] + k - 1 - 5 * Case.m[1], ix[2] + l - 1 - 5 * Case.m[2]>>)]), 100))])
Conv(K, pi, ix) == IF C.dim = 1 THEN Conv1(K, pi, ix) ELSE Conv2(K, pi, ix)

\* kernel values are rounded: how much this may change ln(Conv)
Width(d) == 10 * Case.m[d] + 1
Win(pi, ix) == SumSeq([k \in 1..Width(1) |->
   IF C.dim = 1 THEN At(pi, <<ix[1] + k - 1 - 5 * Case.m[1]>>)
   ELSE SumSeq([l \in 1..Width(2) |-> At(pi, <<ix[1] + k - 1 - 5 * Case.m[1], ix[2] + l - 1 - 5 * Case.m[2]>>)])])
Round(K, pi, ix) == RDiv(Win(pi, ix) * 1000, Conv(K, pi, ix) \div 100)

Ws == [i \in 1..Len(Case.w) |-> [x |-> [d \in Dims |-> Case.lo[d] + (Case.w[i][d] - 1) * Case.st[d]]]]
Orig == [i \in 1..Len(Case.w) |-> LnRho(C, Ws, i) + (IF C.bd.variant = 2 THEN 0 ELSE EkT(C, Ws[i].x))]
Mean(s) == RDiv(SumSeq(s), Len(s))

\* ln((K*pi)/pi) at every grid point, K of sum one
LogTerm(K, pi) == LET norm == Ln6(ProdSeq([d \in Dims |-> IF d = 1 THEN SumSeq(K[d]) ELSE RDiv(SumSeq(K[d]), 10000)]))
                  IN [k \in 1..Total |-> Ln6(Conv(K, pi, Un(k))) - Ln6(pi[k]) - norm]
\* average over pi
Unit(pi) == IF SumSeq(pi) < 5000 THEN 1 ELSE SumSeq(pi) \div 5000
Avg(l, pi) == The({RDiv(SumSeq([k \in 1..Total |-> (l[k] * pi[k]) \div u]), SumSeq(pi) \div u) : u \in {Unit(pi)}})
\* ... and how much of it comes from the outermost points (any quadrature rule is fine)
EdgeAvg(l, pi) ==
  Avg([k \in 1..Total |-> IF \E d \in Dims : Un(k)[d] \in {1, Case.n[d]} THEN Abs(l[k]) ELSE 0], pi)

RatesAdd(K, pi) ==
  The({ [i \in 1..Len(Case.w) |-> r[1][i] - r[2] - r[3][Flat(Case.w[i])] + r[4]] \o <<r[5]>>
        : r \in UNION { { <<o, Mean(o), l, Avg(l, pi), EdgeAvg(l, pi)>> : o \in {Orig} } : l \in {LogTerm(K, pi)} } })
RatesMult(K, pi) ==
  The({ [i \in 1..Len(Case.w) |-> o[i] - Mean(o)] \o <<0>>
        : o \in { [i \in 1..Len(Case.w) |-> q[i] - Ln6(Conv(K, pi, Case.w[i]))] : q \in {Orig} } })

\* the last entry of the expected rates is an extra tolerance
Tol == 250
Init == cid \in 1..Len(Trace) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED cid
        /\ IF Case.ended # "" THEN PrintT(<<"MISS", Case.id, "run-failed", Case.ended>>)
           ELSE IF Case.obs = <<>> THEN PrintT(<<"ACCEPT", Case.id>>)
           ELSE \E K \in {[d \in Dims |-> Kern(d)]}, pi \in {Case.pi} :
                \E b \in {IF C.bd.variant = 1 THEN RatesAdd(K, pi) ELSE RatesMult(K, pi)} :
                IF Len(b) = Len(Case.obs) + 1 /\ \A i \in 1..Len(Case.obs) : Abs(b[i] - Case.obs[i]) <= Tol + b[Len(b)] + Round(K, pi, Case.w[i])
                THEN PrintT(<<"ACCEPT", Case.id>>)
                ELSE PrintT(<<"MISS", Case.id, "corrected-rates", b, Case.obs>>)
=============================================================================
