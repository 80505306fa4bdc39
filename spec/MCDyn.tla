------------------------------- MODULE MCDyn -------------------------------
(* The integrators of Dyn over a small scope: three kinds of thermostat,    *)
(* all boundary conditions, a harmonic, linear or flat potential, all small *)
(* noise values.  Checked against independently written update formulas.    *)
EXTENDS Dyn
CONSTANTS MaxStep, NPs   \* NPs: initial momenta, shifted by S
VARIABLES c, w, w2, k
vars == <<c, w, w2, k>>
Z == {-S, 0, 2 * S}
Confs == { [dim |-> 1, ld |-> l, bc |-> b, pot |-> p, rlo |-> <<-2 * S>>, rhi |-> <<2 * S>>,
            dt |-> dt, nf |-> IF dt = <<1, 2>> THEN <<1, 1>> ELSE <<2, 1>>,
            c1 |-> t[1], c2 |-> t[2], mass |-> m]
           : l \in {0, 1}, b \in 0..2, p \in {<<>>, <<<<1, S>>>>, <<<<0, S>>, <<2, S \div 2>>>>},
             dt \in {<<1, 2>>, <<2, 1>>}, m \in {<<1, 1>>, <<2, 1>>},
             t \in { <<<<1, 1>>, <<0, 1>>>>, <<<<1, 2>>, <<1, 1>>>>, <<<<0, 1>>, <<2, 1>>>> } }
Init == /\ c \in Confs /\ k = 0
        /\ w \in {[x |-> <<x>>, p |-> <<p - S>>] : x \in {-2 * S, -S, 0, S}, p \in NPs}
        /\ w2 = [x |-> <<S>>, p |-> <<0>>]
Next == /\ k < MaxStep /\ k' = k + 1 /\ UNCHANGED c
        /\ \E a, b \in Z, a2 \in {0, S} :
             /\ w' = LDStep(c, w, <<a, b>>)
             /\ w2' = LDStep(c, w2, <<a2, a2>>)
Spec == Init /\ [][Next]_vars
TypeOk == Len(w.x) = 1 /\ Len(w.p) = 1

F1(x) == -SumSeq([i \in 1..Len(c.pot) |-> IF c.pot[i][1] = 0 THEN 0
                                          ELSE IF c.pot[i][1] = 1 THEN c.pot[i][2]
                                          ELSE 2 * Mul(c.pot[i][2], x)])
Wrap(x) == IF c.bc = 0 THEN x ELSE IF c.bc = 1 THEN PerX(-2 * S, 2 * S, x) ELSE Max2(-2 * S, Min2(2 * S, x))
\* Euler-Maruyama: x' = x + dt F(x) + sqrt(2 dt) z
Euler == [][c.ld = 0 => \E z \in Z : w'.x[1] = Wrap(w.x[1] + (F1(w.x[1]) * c.dt[1]) \div c.dt[2] + (z * c.nf[1]) \div c.nf[2])
                          /\ (c.bc # 2 => w'.p = w.p)]_vars
\* without thermostat and boundary: velocity Verlet, x' = x + dt/m (p + dt/2 F(x)),
\* p' = p + dt/2 (F(x) + F(x'))
Verlet == [][c.ld = 1 /\ c.c2 = <<0, 1>> /\ c.bc = 0 =>
               /\ (w'.x[1] - w.x[1]) * c.mass[1] * 2 * c.dt[2] * c.dt[2] =
                    c.dt[1] * (2 * c.dt[2] * w.p[1] + c.dt[1] * F1(w.x[1])) * c.mass[2]
               /\ 2 * c.dt[2] * (w'.p[1] - w.p[1]) = c.dt[1] * (F1(w.x[1]) + F1(w'.x[1]))]_vars
\* the second walker's motion does not depend on the first one
NoInfluence == [][\E a2 \in {0, S} : w2' = LDStep(c, w2, <<a2, a2>>)]_vars
=============================================================================
