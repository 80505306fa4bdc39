-------------------------------- MODULE Dyn --------------------------------
(* Potentials, boundary conditions and the two Langevin integrators.        *)
(*                                                                          *)
(* A configuration c has: dim, pot (sequence of terms <<e_1,..,e_dim,coeff>>*)
(* with integer exponents and fixed-point coefficient), rlo/rhi (range per  *)
(* dimension), bc (0 none, 1 periodic, 2 reflective), ld (0 overdamped,     *)
(* 1 Bussi-Parinello), dt, nf (noise factor sqrt(2 dt)), c1, c2, mass: all  *)
(* rationals <<num, den>>.  A walker is [x, p] (position, momentum).        *)
EXTENDS Fix

\* coeff * prod_d x_d^e_d
Term(c, t, x) == FoldLeft(LAMBDA a, d : IF t[d] = 0 THEN a ELSE Mul(a, Pow(x[d], t[d])),
                          t[c.dim + 1], [d \in 1..c.dim |-> d])
Energy(c, x) == SumSeq([k \in 1..Len(c.pot) |-> Term(c, c.pot[k], x)])

\* derivative of a term in direction d
DTerm(c, t, x, d) == IF t[d] = 0 THEN 0
                     ELSE t[d] * Term(c, [t EXCEPT ![d] = @ - 1], x)
Force(c, x) == [d \in 1..c.dim |-> -SumSeq([k \in 1..Len(c.pot) |-> DTerm(c, c.pot[k], x, d)])]

(* -------- boundary conditions --------------------------------------------*)
\* periodic: shifted by whole multiples of the length into the range
PerX(lo, hi, x) == IF x < lo \/ x > hi THEN lo + ((x - lo) % (hi - lo)) ELSE x
RefX(lo, hi, x) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Outside(lo, hi, x) == x < lo \/ x > hi

Bound(c, w) ==
  CASE c.bc = 0 -> w
    [] c.bc = 1 -> [w EXCEPT !.x = [d \in 1..c.dim |-> PerX(c.rlo[d], c.rhi[d], w.x[d])]]
    [] c.bc = 2 -> [w EXCEPT !.x = [d \in 1..c.dim |-> RefX(c.rlo[d], c.rhi[d], w.x[d])],
                             !.p = [d \in 1..c.dim |-> IF Outside(c.rlo[d], c.rhi[d], w.x[d])
                                                       THEN -w.p[d] ELSE w.p[d]]]

(* -------- integrators ----------------------------------------------------*)
\* Euler-Maruyama; z: noise per dimension
OverdampedStep(c, w, z) ==
  LET f == Force(c, w.x)
      x == [d \in 1..c.dim |-> w.x[d] + Rat(f[d], c.dt) + Rat(z[d], c.nf)]
  IN Bound(c, [w EXCEPT !.x = x])

Thermostat(c, p, z) == [d \in 1..c.dim |-> Rat(p[d], c.c1) + Rat(z[d], c.c2)]
Kick(c, p, f) == [d \in 1..c.dim |-> p[d] + Rat(f[d], <<c.dt[1], 2 * c.dt[2]>>)]
Drift(c, x, p) == [d \in 1..c.dim |-> x[d] + Rat(p[d], <<c.dt[1] * c.mass[2], c.dt[2] * c.mass[1]>>)]

\* thermostat, velocity Verlet, thermostat; z: first dim values, then dim values
BussiParinelloStep(c, w, z) ==
  LET p1 == Thermostat(c, w.p, SubSeq(z, 1, c.dim))
      p2 == Kick(c, p1, Force(c, w.x))
      b  == Bound(c, [w EXCEPT !.x = Drift(c, w.x, p2), !.p = p2])
      p3 == Kick(c, b.p, Force(c, b.x))
  IN [b EXCEPT !.p = Thermostat(c, p3, SubSeq(z, c.dim + 1, 2 * c.dim))]

(* -------- below the lattice ------------------------------------------------*)
(* Positions and momenta are double precision numbers.  Where a walker jumps *)
(* freely (its next position is the noise: x^2 with dt f = -x, and likewise   *)
(* p with a thermostat that refreshes it), what the noise has below the       *)
(* lattice is found again in the position and momentum: fine part f of the    *)
(* walker, in units far below single precision.                               *)
FineStep(c, w, zf) == [w EXCEPT !.f = <<SubSeq(zf, 1, c.dim), IF c.ld = 0 THEN w.f[2] ELSE SubSeq(zf, c.dim + 1, 2 * c.dim)>>]

LDStep(c, w, z) == IF c.ld = 0 THEN OverdampedStep(c, w, z) ELSE BussiParinelloStep(c, w, z)
=============================================================================
