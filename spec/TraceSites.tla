----------------------------- MODULE TraceSites -----------------------------
(* C08 for very many walkers: m[s] walkers at site s, exactly one walker    *)
(* (alone at site Case.act) whose random number may lead to an event.       *)
(* The rates only depend on the number of walkers per site.                 *)
EXTENDS Rates, Json
VARIABLES cid, done
Trace == ndJsonDeserialize("trace.ndjson")
Case == Trace[cid]
c == Case.cfg
K == Len(Case.x)
Tot == SumSeq(Case.m)
\* ln of the kernel sum at site s up to a constant (kernels in units of 1/125000)
Sum8(s) == SumSeq([t \in 1..K |-> Case.m[t] * (Exp6(KArg(c, Case.x[s], Case.x[t])) \div 8)])
Sum1(s) == SumSeq([t \in 1..K |-> Case.m[t] * Exp6(KArg(c, Case.x[s], Case.x[t]))])
LnSite(s) == (IF Sum8(s) > 200000000 THEN Ln5(Sum8(s)) + 207944 ELSE Ln5(Sum1(s))) + EkT(c, Case.x[s])
\* average over the walkers relative to the acting one, in units of 10^-3
Mean3(l) == RDiv(SumSeq([t \in 1..K |-> Case.m[t] * RDiv(l[t] - l[Case.act], 100)]), Tot)
Rate(l) == -100 * Mean3(l)
Margin == 200
\* what is seen of an event of the acting walker (number i): it dies, or another one
\* becomes its copy
Died == Len(Case.ch) = 1 /\ Case.ch[1][1] = Case.i /\ Case.ch[1][2] # Case.act
Bred == Len(Case.ch) = 1 /\ Case.ch[1][1] # Case.i /\ Case.ch[1][2] = Case.act
Nothing == Len(Case.ch) = 0
Ok(b) == LET a == Accepts([c EXCEPT !.bd.margin = Margin], b, Case.u)
         IN /\ Abs(b) > Margin
            /\ \/ TRUE \in a /\ (IF b > 0 THEN Died ELSE Bred)
               \/ FALSE \in a /\ Nothing
\* C10: attempted and successful events of this one round (duplications, removals), where
\* no rate is close to zero; every walker counts with the sign of its rate
Signed(l) == [s \in 1..K |-> RDiv(l[s] - l[Case.act], 1) + Rate(l)]
Sure(l) == \A s \in 1..K : Abs(Signed(l)[s]) > 2 * Margin
Kills(l) == SumSeq([s \in 1..K |-> IF Signed(l)[s] > 0 THEN Case.m[s] ELSE 0])
StatsOk(l) == Case.stats = <<IF Bred THEN 1 ELSE 0, Tot - Kills(l), IF Died THEN 1 ELSE 0, Kills(l)>>

Init == cid \in 1..Len(Trace) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED cid
        /\ IF Case.ended # "" THEN PrintT(<<"MISS", Case.id, "run-failed", Case.ended>>)
           ELSE \E l \in {[s \in 1..K |-> LnSite(s)]} : \E b \in {Rate(l)} :
                IF Ok(b) THEN IF Case.stats # <<>> /\ Sure(l) /\ ~StatsOk(l)
                              THEN PrintT(<<"MISS", Case.id, "statistics", Case.stats, Kills(l), Tot, Case.ch>>)
                              ELSE PrintT(<<"ACCEPT", Case.id>>)
                ELSE PrintT(<<"MISS", Case.id, "decision", b, Case.u, Case.ch>>)
=============================================================================
