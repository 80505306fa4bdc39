----------------------------- MODULE TraceRows -----------------------------
(* C01, C02 for any time step: the rows of trajectory and delta-f files of  *)
(* runs with decimal time steps, to the last printed digit.                 *)
(* Numbers are pairs <<m, r>>: m units of 10^-6 and r units of 10^-9.       *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Check
VARIABLES cid, done
Trace == ndJsonDeserialize("trace.ndjson")
Case == Trace[cid]
Abs(v) == IF v < 0 THEN -v ELSE v
\* at most one unit of the last digit apart
Near(a, b) == Abs(a[1] - b[1]) <= 1 /\ Abs((a[1] - b[1]) * 1000 + a[2] - b[2]) <= 1
Time(step) == <<step * Case.dt, 0>>
Rows(st) == Case.nsteps \div st
TrajOk(i) == /\ Len(Case.traj[i]) = Rows(Case.st)
             /\ \A k \in 1..Rows(Case.st) :
                   LET row == Case.traj[i][k]  w == Case.log[k * Case.st][i]
                   IN /\ Len(row) = 1 + Len(w) /\ Near(row[1], Time(k * Case.st))
                      /\ \A q \in 1..Len(w) : Near(row[q + 1], w[q])
DfOk == Case.dst = 0 \/ /\ Len(Case.df) = Rows(Case.dst)
                        /\ \A k \in 1..Rows(Case.dst) : Near(Case.df[k], Time(k * Case.dst))
Bad == {k \in Check : CASE k = "traj" -> \E i \in 1..Len(Case.traj) : ~TrajOk(i) [] k = "df" -> ~DfOk}
Init == cid \in 1..Len(Trace) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED cid
        /\ IF Case.ended # "" THEN PrintT(<<"MISS", Case.id, "run-failed", Case.ended>>)
           ELSE IF Bad = {} THEN PrintT(<<"ACCEPT", Case.id>>) ELSE PrintT(<<"MISS", Case.id, "rows", Bad>>)
=============================================================================
