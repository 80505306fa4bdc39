----------------------------- MODULE TraceFiles -----------------------------
EXTENDS FileSpec, Json
VARIABLES cid, done
Trace == ndJsonDeserialize("trace.ndjson")
Case == Trace[cid]
Init == cid \in 1..Len(Trace) /\ done = FALSE
BadFiles == {i \in 1..Len(Case.files) : Bad(Case.files[i]) # ""}
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED cid
        /\ PrintT(IF Case.ended # "" THEN <<"MISS", Case.id, "run-failed", Case.ended>>
                  ELSE IF BadFiles = {} THEN <<"ACCEPT", Case.id>>
                  ELSE LET i == CHOOSE i \in BadFiles : TRUE
                       IN <<"MISS", Case.id, Bad(Case.files[i]), Case.files[i].name>>)
=============================================================================
