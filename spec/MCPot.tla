------------------------------- MODULE MCPot -------------------------------
(* The force of the specification is the gradient of its energy: for every  *)
(* small polynomial, the exact central difference with the exact remainder  *)
(* of Taylor's formula for degree <= 3, and its symmetry of second          *)
(* derivatives; for Mueller-Brown the central difference within tolerance.  *)
EXTENDS Potentials
CONSTANTS Exps, Coefs, Pts
VARIABLE v
Conf(p) == [dim |-> 2, pot |-> p]
Init == v \in [t1 : Exps \X Exps \X Coefs, t2 : Exps \X Exps \X Coefs, x : Pts, y : Pts]
Next == FALSE /\ v' = v
Terms == << <<v.t1[1], v.t1[2], v.t1[3] * S>>, <<v.t2[1], v.t2[2], -v.t2[3] * S>> >>
C == Conf(Terms)
h == 512
X(dx, dy) == << (v.x - 2) * 512 + dx, (v.y - 2) * 512 + dy >>
\* E(x+h) - E(x-h) = -2 h F + h^3/3 E''' exactly for degree <= 3
D3(t, d) == IF t[d] = 3 THEN 6 * Term(C, [t EXCEPT ![d] = 0], X(0, 0)) ELSE 0
Gradient ==
  /\ LET ex == Energy(C, X(h, 0)) - Energy(C, X(-h, 0))
     IN 3 * ex = -3 * 2 * Mul(h, Force(C, X(0, 0))[1]) + Mul(h, Mul(h, Mul(h, SumSeq([i \in 1..2 |-> D3(Terms[i], 1)]))))
  /\ LET ey == Energy(C, X(0, h)) - Energy(C, X(0, -h))
     IN 3 * ey = -3 * 2 * Mul(h, Force(C, X(0, 0))[2]) + Mul(h, Mul(h, Mul(h, SumSeq([i \in 1..2 |-> D3(Terms[i], 2)]))))
=============================================================================
