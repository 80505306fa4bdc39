----------------------------- MODULE TraceLong -----------------------------
(* Very long runs.  The model goes from one time step with a record to the  *)
(* next one: a trajectory row, a particle-distribution row, a free energy   *)
(* difference, statistics or a histogram snapshot.  Only there the walkers  *)
(* were logged.  The records have to be those of exactly these steps.       *)
EXTENDS Analyses, Json
CONSTANT Check
VARIABLES cid, step, n     \* n: number of records so far per kind
Trace == ndJsonDeserialize("trace.ndjson")
Case == Trace[cid]
c == Case.cfg
O == Case.obs
\* strides of the kinds of records (0: none)
Str == [traj |-> IF c.tr.on /\ c.tr.file THEN c.tr.stride ELSE 0,
        pd |-> IF c.pd.on THEN c.pd.stride ELSE 0, df |-> IF c.df.on THEN c.df.stride ELSE 0,
        stats |-> IF c.bd.on THEN c.bd.statstride ELSE 0, hist |-> IF c.hi.on THEN c.hi.ws ELSE 0]
Kinds == {k \in DOMAIN Str : Str[k] # 0}
NextOf(s) == s * (step \div s + 1)
Least(q) == CHOOSE v \in q : \A u \in q : v <= u
Step == Least({NextOf(Str[k]) : k \in Kinds})
Due(k) == k \in Kinds /\ Step % Str[k] = 0
Walkers == [i \in 1..Len(Case.log[1][2]) |-> [x |-> Case.log[n.log + 1][2][i]]]
Samples(t) == Len(Case.log[1][2]) * (t \div c.hi.stride)
RowOk(k) ==
  CASE k = "traj" -> \A i \in 1..Len(O.traj) : /\ Len(O.traj[i]) > n.traj
                                               /\ O.traj[i][n.traj + 1][1] = Step
                                               /\ O.traj[i][n.traj + 1][2] = Case.log[n.log + 1][2][i]
    [] k = "pd" -> Len(O.pd) > n.pd /\ O.pd[n.pd + 1] = <<Step, PdValues(c, Walkers)>>
    [] k = "df" -> Len(O.df) > n.df /\ O.df[n.df + 1][1] = Step
    \* every walker is attempted in every round (default mode)
    [] k = "stats" -> /\ Len(O.stats) > n.stats /\ O.stats[n.stats + 1][1] = Step
                      /\ \E v \in {O.stats[n.stats + 1][2]} :
                            /\ Len(v) = 4 /\ v[1] <= v[2] /\ v[3] <= v[4]
                            /\ v[2] + v[4] = Len(Case.log[1][2]) * (Step \div c.bd.stride)
                            /\ n.stats = 0 \/ \A q \in 1..4 : v[q] >= O.stats[n.stats][2][q]
    \* all positions are inside the range: the number of samples is known
    [] k = "hist" -> /\ Len(O.hist) > n.hist /\ O.hist[n.hist + 1][1] = Step
                     /\ SumSeq(O.hist[n.hist + 1][2]) = Samples(Step - (Step % c.tr.ws))
Left(k) ==
  CASE k = "traj" -> \E i \in 1..Len(O.traj) : Len(O.traj[i]) # n.traj
    [] k = "pd" -> Len(O.pd) # n.pd
    [] k = "df" -> Len(O.df) # n.df
    [] k = "stats" -> Len(O.stats) # n.stats
    [] k = "hist" -> Len(O.hist) # n.hist + 1 \/ O.hist[n.hist + 1][1] # 0 \/ SumSeq(O.hist[n.hist + 1][2]) # Samples(Case.last)
Judged(k) == k \in Kinds /\ k \in Check
Init == cid \in 1..Len(Trace) /\ step = 0 /\ n = [log |-> 0, traj |-> 0, pd |-> 0, df |-> 0, stats |-> 0, hist |-> 0]
End(what) == step' = -1 /\ PrintT(what) /\ UNCHANGED <<cid, n>>
Next ==
  /\ step >= 0
  /\ IF Case.ended # "" THEN End(<<"MISS", Case.id, "run-failed", Case.ended>>)
     ELSE IF Step > Case.last
     THEN LET bad == {k \in Kinds : Judged(k) /\ Left(k)}
          IN IF bad = {} THEN End(<<"ACCEPT", Case.id>>) ELSE End(<<"MISS", Case.id, "more-or-fewer", step, bad, n>>)
     ELSE IF Case.log[n.log + 1][1] # Step THEN End(<<"MISS", Case.id, "log", Step>>)
     ELSE LET bad == {k \in Kinds : Due(k) /\ Judged(k) /\ ~RowOk(k)}
          IN IF bad # {} THEN End(<<"MISS", Case.id, "record", Step, bad, n>>)
             ELSE /\ step' = Step /\ UNCHANGED cid
                  /\ n' = [k \in DOMAIN n |-> IF k = "log" THEN n.log + 1 ELSE IF Due(k) THEN n[k] + 1 ELSE n[k]]
=============================================================================
