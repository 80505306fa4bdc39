------------------------------ MODULE TraceInit ------------------------------
(* Recorded initial states of runs.                                         *)
EXTENDS InitDist
VARIABLES cid, done
Trace == ndJsonDeserialize("trace.ndjson")
Case == Trace[cid]
N == Len(Case.x)

AtRest == /\ \A i \in 1..N : \A d \in 1..Case.dim : Case.p[i][d] = 0
          /\ Len(Case.p) = N
          /\ \A i \in 1..N : Case.m[i] = Case.mass
NumOk == N = Case.n
ShapeOk == \A i \in 1..N : Len(Case.x[i]) = Case.dim
FracOk == Case.x = FracWalkers(Case.n, Case.fr, Case.pos)
PosOk == \A i \in 1..N : \E j \in 1..Len(Case.pos) : Case.x[i] = Case.pos[j]
\* random-pos: every given position equally likely (equal positions count together);
\* cnt = observed number per position over all runs of the case
PosEven == Even(Case.cnt, SumSeq(Case.cnt))
\* random-global: in range; octiles per dimension and pairs of halves evenly filled
InRange == \A i \in 1..N : \A d \in 1..Case.dim : Case.x[i][d] >= Case.rlo[d] /\ Case.x[i][d] <= Case.rhi[d]
GlobalEven == /\ \A d \in 1..Case.dim : Even(Case.oct[d], SumSeq(Case.oct[d]))
              /\ Even(Case.joint, SumSeq(Case.joint))
              /\ Case.ndistinct = Case.total   \* all different

Bad == IF Case.ended # "" THEN <<"run-failed", Case.ended>>
       ELSE IF ~NumOk THEN <<"number", N>>
       ELSE IF ~ShapeOk THEN <<"dimension">>
       ELSE IF ~AtRest THEN <<"rest-or-mass", Case.p, Case.m>>
       ELSE IF Case.kind = "frac" THEN (IF FracOk THEN <<>> ELSE <<"fractions", FracCounts(Case.n, Case.fr), Case.x>>)
       ELSE IF Case.kind = "pos" THEN (IF ~PosOk THEN <<"positions", Case.x>> ELSE IF ~PosEven THEN <<"position-frequency", Case.cnt>> ELSE <<>>)
       ELSE IF ~InRange THEN <<"range", Case.x>>
       ELSE IF ~GlobalEven THEN <<"uniform", Case.oct, Case.joint>> ELSE <<>>
Init == cid \in 1..Len(Trace) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED cid
        /\ PrintT(IF Bad = <<>> THEN <<"ACCEPT", Case.id>> ELSE <<"MISS", Case.id>> \o Bad)
=============================================================================
