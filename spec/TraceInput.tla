----------------------------- MODULE TraceInput -----------------------------
(* Recorded runs on valid and invalid input files.                          *)
EXTENDS InputSpec, Json, TLC
VARIABLES cid, done
Trace == ndJsonDeserialize("trace.ndjson")
Case == Trace[cid]
F == Case.file
Mention == {Case.mention[i] : i \in 1..Len(Case.mention)}
Bad == IF Valid(F)
       THEN IF Case.code # 0 THEN <<"valid-input-refused", Case.code, Case.msg>>
            ELSE IF Case.draws # Draws(F) THEN <<"steps-run", Case.draws, Draws(F)>>
            ELSE <<>>
       ELSE IF Case.code = 0 THEN <<"invalid-input-accepted", Faults(F)>>
            ELSE IF Case.draws # 0 THEN <<"steps-before-refusal", Case.draws, Faults(F)>>
            ELSE IF MustName(F) /\ Names(F) \cap Mention = {} THEN <<"message-names-nothing", Faults(F), Case.msg>>
            ELSE <<>>
Init == cid \in 1..Len(Trace) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED cid
        /\ PrintT(<<IF Valid(F) THEN "VALID" ELSE "INVALID", Case.id>>)
        /\ PrintT(IF Bad = <<>> THEN <<"ACCEPT", Case.id>> ELSE <<"MISS", Case.id>> \o Bad)
=============================================================================
