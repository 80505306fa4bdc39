----------------------------- MODULE TraceDens -----------------------------
(* C08: the kernel density at the walkers, asked directly from every way    *)
(* the program has to calculate it (there are several, for different        *)
(* numbers of walkers).  Only density ratios matter for the rates.          *)
EXTENDS Rates, Json
VARIABLES cid, done
Trace == ndJsonDeserialize("trace.ndjson")
Case == Trace[cid]
C == [dim |-> Len(Case.x[1]), bd |-> [bw |-> Case.bw]]
Ws == [i \in 1..Len(Case.x) |-> [x |-> Case.x[i]]]
Ln == [i \in 1..Len(Case.x) |-> LnRho(C, Ws, i)]
Init == cid \in 1..Len(Trace) /\ done = FALSE
Bad(l, o) == {i \in 1..Len(l) : Abs((o[i] - o[1]) - (l[i] - l[1])) > 40}
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED cid
        /\ IF Case.ended # "" THEN PrintT(<<"MISS", Case.id, "run-failed", Case.ended>>)
           ELSE \E l \in {Ln} :
                LET bad == {k \in 1..Len(Case.obs) : Len(Case.obs[k]) # Len(l) \/ Bad(l, Case.obs[k]) # {}}
                IN IF bad = {} THEN PrintT(<<"ACCEPT", Case.id>>)
                   ELSE PrintT(<<"MISS", Case.id, "density", bad, l, Case.obs[CHOOSE k \in bad : TRUE]>>)
=============================================================================
