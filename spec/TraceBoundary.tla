---------------------------- MODULE TraceBoundary ----------------------------
(* Recorded calls on potential objects whose boundary condition is set and  *)
(* changed in between.                                                      *)
EXTENDS Boundary
VARIABLES cid, k, bc
Trace == ndJsonDeserialize("trace.ndjson")
Case == Trace[cid]
Conf == [dim |-> Case.dim, rlo |-> Case.rlo, rhi |-> Case.rhi, bc |-> bc]
W(a) == [x |-> a[1], p |-> a[2]]
Init == cid \in 1..Len(Trace) /\ k = 1 /\ bc = Trace[cid].first
Next ==
  /\ k > 0 /\ UNCHANGED cid
  /\ IF k > Len(Case.log)
     THEN /\ PrintT(IF Case.ended = "" THEN <<"ACCEPT", Case.id>> ELSE <<"MISS", Case.id, "run-failed", Case.ended>>)
          /\ k' = 0 /\ UNCHANGED bc
     ELSE LET o == Case.log[k]
          IN IF o.op = "set" THEN bc' = o.bc /\ k' = k + 1
             ELSE /\ UNCHANGED bc
                  /\ IF BoundOk(Conf, W(o.before), W(o.after)) THEN k' = k + 1
                     ELSE PrintT(<<"MISS", Case.id, "boundary", bc, o.before, o.after>>) /\ k' = 0
=============================================================================
