-------------------------------- MODULE MCBd --------------------------------
(* Exhaustive check of birth-death: three walkers at all positions of a     *)
(* small lattice, all acceptance patterns (random numbers that reject,      *)
(* accept always, or accept depending on the rate), all processing orders   *)
(* and partners, both modes, several schedules.                             *)
EXTENDS BdldSim
CONSTANTS MaxStep, NW, Pos, Strides, StatStrides, Us, Modes

Off == [on |-> FALSE, file |-> FALSE, stride |-> 0, ws |-> 0]
ConfSet ==
  { [dim |-> 1, pot |-> <<<<2, S>>>>, rlo |-> <<-100 * S>>, rhi |-> <<100 * S>>, bc |-> 0, ld |-> 0,
     dt |-> <<1, 2>>, nf |-> <<1, 1>>, tr |-> Off, hi |-> Off, fes |-> Off, df |-> Off, pd |-> Off,
     bd |-> [on |-> TRUE, stride |-> st, statstride |-> ss, recalc |-> m, bw |-> <<<<1, 1>>>>,
             kt |-> <<1, 1>>, tau |-> <<st, 2>>, variant |-> 0, s2 |-> <<<<1, 1>>>>, margin |-> 40]]
    : st \in Strides, ss \in StatStrides, m \in Modes }

Walkers == [1..NW -> Pos]
\* distinct momenta identify the walkers: a copy has to be complete
Init == \E conf \in ConfSet, f \in Walkers :
          InitWith(conf, [i \in 1..NW |-> [x |-> <<f[i]>>, p |-> <<i>>]])
U == [1..NW -> Us]
\* the Langevin step is the identity here (noise that cancels the force)
Stay == LangevinStep([i \in 1..NW |-> <<ws[i].x[1]>>])
Next == \/ Stay \/ (\E u \in U : BdStart(u)) \/ (\E i \in 1..NW : BdEvent(i)) \/ BdEnd
        \/ Traj \/ Hist \/ Fes \/ Df \/ Pd \/ Final
        \/ step < MaxStep /\ NextStep
Spec == Init /\ [][Next]_vars

\* C07: one event overwrites at most one walker, by a complete copy of another one
OnlyCopies == [][phase = "bdev" =>
                   /\ Cardinality({i \in 1..NW : ws'[i] # ws[i]}) <= 1
                   /\ \A i \in 1..NW : \E j \in 1..NW : ws'[i] = ws[j]]_vars
\* C07: birth-death only acts in its phase
OnlyInRound == [][phase \notin {"bdev", "ld"} => ws' = ws]_vars
\* C08: at most one event per acting walker and round, none for overwritten ones
EventBound == phase = "bdev" /\ bd.mode = "bulk" => Cardinality(bd.killed) <= NW
\* C10: all rounds of the schedule so far, outputs come after birth-death
AfterRound == phase \in {"traj", "hist", "fes", "df", "pd", "end"} => nev.rounds = step \div c.bd.stride
=============================================================================
