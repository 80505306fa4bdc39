------------------------------ MODULE TraceDir ------------------------------
(* Recorded histories of runs in one directory; for each run also the files *)
(* it makes in an empty directory.                                          *)
EXTENDS Dir, Json, Integers
VARIABLES cid, pos, d
Trace == ndJsonDeserialize("trace.ndjson")
Case == Trace[cid]
SetOf(s) == {s[i] : i \in 1..Len(s)}
Init == cid \in 1..Len(Trace) /\ pos = 0 /\ d = SetOf(Case.before)
L == Case.log[pos + 1]
Want == Run(d, SetOf(L.out))
Got == SetOf(L.after)
Next == \/ /\ pos < Len(Case.log) /\ pos >= 0
           /\ IF Got = Want /\ L.same THEN pos' = pos + 1 /\ d' = Want
              ELSE /\ PrintT(IF ~L.same THEN <<"MISS", Case.id, "different-end", pos + 1>>
                             ELSE IF \E f \in d : ~(\E g \in Got : g[3] = f[3]) THEN <<"MISS", Case.id, "lost", pos + 1, Want \ Got, Got \ Want>>
                             ELSE <<"MISS", Case.id, "directory", pos + 1, Want \ Got, Got \ Want>>)
                   /\ pos' = -1 /\ d' = d
           /\ UNCHANGED cid
        \/ /\ pos = Len(Case.log) /\ PrintT(<<"ACCEPT", Case.id>>) /\ pos' = -2 /\ UNCHANGED <<cid, d>>
=============================================================================
