------------------------------ MODULE Boundary ------------------------------
(* C12: boundary conditions as a relation between the state of a walker     *)
(* before and after, and the exhaustive check that the functions used by    *)
(* the integrators (Dyn) implement it and keep walkers inside.              *)
EXTENDS Dyn, Json

\* periodic: shifted by whole multiples of the length into the range (if it was outside)
PerOk(lo, hi, x, y) == IF x >= lo /\ x <= hi THEN y = x
                       ELSE y >= lo /\ y <= hi /\ (y - x) % (hi - lo) = 0
RefOk(lo, hi, x, y, p, q) == IF x < lo THEN y = lo /\ q = -p
                             ELSE IF x > hi THEN y = hi /\ q = -p
                             ELSE y = x /\ q = p
BoundOk(c, w, v) ==
  /\ Len(v.x) = c.dim /\ Len(v.p) = c.dim
  /\ \A d \in 1..c.dim :
       CASE c.bc = 0 -> v.x[d] = w.x[d] /\ v.p[d] = w.p[d]
         [] c.bc = 1 -> PerOk(c.rlo[d], c.rhi[d], w.x[d], v.x[d]) /\ v.p[d] = w.p[d]
         [] c.bc = 2 -> RefOk(c.rlo[d], c.rhi[d], w.x[d], v.x[d], w.p[d], v.p[d])
=============================================================================
