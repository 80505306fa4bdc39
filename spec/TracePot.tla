------------------------------ MODULE TracePot ------------------------------
(* Histories of creating and evaluating potential objects.                  *)
EXTENDS Potentials, Json
VARIABLES cid, k, pots, off
Trace == ndJsonDeserialize("trace.ndjson")
Case == Trace[cid]
Op == Case.log[k]
P == pots[Op.id]
NoOff == 2000000000
Near(a, b, tol) == a - b <= tol /\ b - a <= tol

PolyOk ==
  LET c == P
  IN /\ Op.off = 0
     /\ Op.e = Energy(c, Op.x) /\ Op.e2 = Op.e
     /\ Op.f = Force(c, Op.x) /\ Op.f2 = Op.f
     /\ Op.xa = Op.x
\* offset of the energy of this object (the constant shift)
MBOff == IF off[Op.id] = NoOff THEN Op.e - MBEnergy(P.sf, Op.x[1], Op.x[2]) ELSE off[Op.id]
MBOk ==
  LET x == Op.x[1]  y == Op.x[2]
      f == MBForce(P.sf, x, y)
      te == 2 * MBTolE(P.sf, x, y)  tf == MBTolF(P.sf, x, y)
  IN /\ Near(Op.e - MBOff, MBEnergy(P.sf, x, y), te + Case.slack)
     /\ Near(Op.e2, Op.e, 2)
     /\ \A d \in 1..2 : Near(Op.f[d], f[d], tf) /\ Near(Op.f2[d], Op.f[d], 2)
     /\ Op.xa = Op.x

\* reference energies at a list of points
MinSeq(s) == FoldLeft(LAMBDA a, b : Min2(a, b), s[1], s)
RefOk == LET e == [i \in 1..Len(Op.pts) |-> Energy(P, Op.pts[i])]
             m == IF Op.zero THEN MinSeq(e) ELSE 0
         IN Op.off = 0 /\ Op.e = [i \in 1..Len(e) |-> e[i] - m]
\* density: ln(p_i / p_1) = -(E_i - E_1)/kT, sum of p times the cell volume is one
E5(e) == (e \div 32) * 3125 + ((e % 32) * 3125) \div 32
DensOk == /\ Len(Op.ln) = Len(Op.pts)
          /\ \A i \in 1..Len(Op.pts) :
               Near(Op.ln[i] - Op.ln[1],
                    RDiv(E5(Energy(P, Op.pts[1]) - Energy(P, Op.pts[i])) * Op.kt[2], Op.kt[1]), 6)
          /\ Near(Op.norm, 1000000, 2)

Good == CASE Op.op = "eval" /\ P.kind = "poly" -> PolyOk
          [] Op.op = "eval" /\ P.kind = "mb" -> MBOk
          [] Op.op = "ref" -> RefOk
          [] Op.op = "dens" -> DensOk
          [] Op.op = "new" -> TRUE
Spec13(id) == IF Op.kind = "mb" THEN [kind |-> "mb", sf |-> Op.sf]
              ELSE [kind |-> "poly", dim |-> Op.dim, pot |-> Op.pot]

Init == cid \in 1..Len(Trace) /\ k = 1 /\ pots = <<>> /\ off = <<>>
Next ==
  /\ k > 0 /\ UNCHANGED cid
  /\ IF k > Len(Case.log)
     THEN /\ PrintT(IF Case.ended = "" THEN <<"ACCEPT", Case.id>> ELSE <<"MISS", Case.id, "run-failed", Case.ended>>)
          /\ k' = 0 /\ UNCHANGED <<pots, off>>
     ELSE IF Op.op = "new"
     THEN pots' = Append(pots, Spec13(0)) /\ off' = Append(off, NoOff) /\ k' = k + 1
     ELSE /\ UNCHANGED pots
          /\ IF Good THEN /\ k' = k + 1
                          /\ off' = IF Op.op = "eval" /\ P.kind = "mb" THEN [off EXCEPT ![Op.id] = MBOff] ELSE off
             ELSE /\ PrintT(<<"MISS", Case.id, Op.op \o "-" \o P.kind, k, Op>>) /\ k' = 0 /\ UNCHANGED off
=============================================================================
