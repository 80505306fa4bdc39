----------------------------- MODULE TraceRuns -----------------------------
(* Recorded families of runs: every run has to agree with all earlier ones. *)
EXTENDS Streams, Json, Integers
VARIABLES cid, pos
Trace == ndJsonDeserialize("trace.ndjson")
Case == Trace[cid]
R(k) == Case.runs[k]
Init == cid \in 1..Len(Trace) /\ pos = 0
BadWith(k) == {j \in 1..(k - 1) : Conflict(R(j), R(k)) # ""}
Next == /\ UNCHANGED cid
        /\ \/ /\ pos >= 0 /\ pos < Len(Case.runs)
              /\ IF R(pos + 1).ended # "" THEN PrintT(<<"MISS", Case.id, "run-failed", pos + 1, R(pos + 1).ended>>) /\ pos' = -1
                 ELSE IF BadWith(pos + 1) # {}
                 THEN LET j == CHOOSE j \in BadWith(pos + 1) : TRUE
                      IN PrintT(<<"MISS", Case.id, Conflict(R(j), R(pos + 1)), j, R(j).how, pos + 1, R(pos + 1).how>>) /\ pos' = -1
                 ELSE pos' = pos + 1
           \/ pos = Len(Case.runs) /\ PrintT(<<"ACCEPT", Case.id>>) /\ pos' = -2
=============================================================================
