----------------------------- MODULE TraceTherm -----------------------------
(* C11 for parameters of any size: timestep, friction, thermal energy, mass, *)
(* harmonic potential and random numbers are arbitrary decimal numbers, the  *)
(* steps are followed in decimal arithmetic with a tolerance (one step at a  *)
(* time, from the recorded state before it).                                 *)
(*   overdamped:      x' = x + f(x) dt + sqrt(2 dt) z                         *)
(*   Bussi-Parinello: p1 = c1 p + c2 z1, p2 = p1 + f(x) dt/2, x' = x + p2 dt/m*)
(*                    p' = c1 (p2 + f(x') dt/2) + c2 z2                       *)
(*                    c1 = exp(-friction dt/2), c2 = sqrt((1-c1^2) m kT)      *)
EXTENDS Dec, Json
VARIABLES cid, done
Trace == ndJsonDeserialize("trace.ndjson")
Case == Trace[cid]
Dim == 1..Case.dim
\* force in direction d (potential lin[d] x + quad[d] x^2 per direction)
Frc(d, x) == -(Case.lin[d] + 2 * MulD(Case.quad[d], x))
DtM == DivD(Case.dt, Case.mass)
C1 == ExpD(MulD(Case.fric, Case.dt) \div 2)
\* 1 - c1^2 directly, where c1 is close to one
C2 == The({ IF x < 210000 THEN SqrtD(MulD(MulD(OneMinus8(x), Case.mass), Case.kt)) \div 10
            ELSE SqrtD(MulD(MulD(OneMinus(x), Case.mass), Case.kt)) : x \in {MulD(Case.fric, Case.dt)} })
NF == SqrtD(2 * Case.dt)

OvStep(w, z, k) == [x |-> [d \in Dim |-> w[1][d] + MulD(Frc(d, w[1][d]), Case.dt) + MulD(k[2], z[d])], p |-> w[2]]
BpStep(w, z, k) ==
  LET p2 == [d \in Dim |-> MulD(k[1], w[2][d]) + MulD(k[2], z[d]) + MulD(Frc(d, w[1][d]), Case.dt) \div 2]
      x  == [d \in Dim |-> w[1][d] + MulD(p2[d], DtM)]
  IN [x |-> x, p |-> [d \in Dim |-> MulD(k[1], p2[d] + MulD(Frc(d, x[d]), Case.dt) \div 2) + MulD(k[2], z[Case.dim + d])]]
\* what the arithmetic may be wrong by
Tol == 60
TolX == Tol + MulD(Tol, DtM)
Ok(w, z, v, k) ==
  \E e \in { IF Case.ld = 0 THEN OvStep(w, z, k) ELSE BpStep(w, z, k) } :
     \A d \in Dim : Abs(e.x[d] - v[1][d]) <= TolX /\ (Case.ld = 0 \/ Abs(e.p[d] - v[2][d]) <= Tol)

Init == cid \in 1..Len(Trace) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED cid
        /\ IF Case.ended # "" THEN PrintT(<<"MISS", Case.id, "run-failed", Case.ended>>)
           ELSE \E k \in { <<c1, IF Case.ld = 0 THEN NF ELSE C2>> : c1 \in {IF Case.ld = 0 THEN 0 ELSE C1} } :
                LET bad == {s \in 1..Len(Case.steps) : ~Ok(Case.steps[s][1], Case.steps[s][2], Case.steps[s][3], k)}
                IN IF bad = {} THEN PrintT(<<"ACCEPT", Case.id>>)
                   ELSE LET s == CHOOSE s \in bad : TRUE
                        IN PrintT(<<"MISS", Case.id, "step", k, Case.steps[s],
                                    IF Case.ld = 0 THEN OvStep(Case.steps[s][1], Case.steps[s][2], k)
                                                   ELSE BpStep(Case.steps[s][1], Case.steps[s][2], k)>>)
=============================================================================
