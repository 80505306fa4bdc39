----------------------------- MODULE TracePoly -----------------------------
(* C13 for coefficients and positions of any size: energy and force of a    *)
(* polynomial in exact arithmetic.  Coefficients are given in 2^-a, the     *)
(* positions in 2^-b; everything is compared in units of 2^-(a + b deg).     *)
(* Negative numbers: [n |-> negative, v |-> absolute value].                 *)
EXTENDS Big, FiniteSets, TLC, Json
VARIABLES cid, done
Trace == ndJsonDeserialize("trace.ndjson")
Case == Trace[cid]
Dim == 1..Case.dim
Two(k) == BPow(<<2>>, k)
RECURSIVE Total(_, _)
Total(e, d) == IF d = 0 THEN 0 ELSE e[d] + Total(e, d - 1)
\* coefficient * product of powers of x, e: exponents, m: factor, brought to the common unit
RECURSIVE Prod(_, _, _)
Prod(x, e, d) == IF d = 0 THEN <<1>> ELSE BMul(BPow(x[d].v, e[d]), Prod(x, e, d - 1))
Odd(x, e) == Cardinality({d \in Dim : x[d].n /\ e[d] % 2 = 1}) % 2 = 1
Term(t, x, e, m) == [n |-> t.c.n # Odd(x, e),
                     v |-> BMul(BMul(BNat(m), t.c.v), BMul(Prod(x, e, Case.dim), Two(Case.b * (Case.deg - Total(e, Case.dim)))))]
Terms == Case.terms
EnergyTerms(x) == [i \in 1..Len(Terms) |-> Term(Terms[i], x, Terms[i].e, 1)]
\* minus the derivative in direction d
ForceTerms(x, d) == [i \in 1..Len(Terms) |->
   IF Terms[i].e[d] = 0 THEN [n |-> FALSE, v |-> <<>>]
   ELSE LET q == Term(Terms[i], x, [Terms[i].e EXCEPT ![d] = @ - 1], Terms[i].e[d]) IN [n |-> ~q.n, v |-> q.v]]
RECURSIVE Sum(_, _, _)
Sum(ts, neg, i) == IF i = 0 THEN <<>> ELSE IF ts[i].n = neg THEN BAdd(ts[i].v, Sum(ts, neg, i - 1)) ELSE Sum(ts, neg, i - 1)
\* equal up to rounding: 2^-36 of the sum of the absolute values
Near(ts, o) == \E p \in {Sum(ts, FALSE, Len(ts))}, q \in {Sum(ts, TRUE, Len(ts))} :
   LET diff == IF o.n THEN BDiff(BAdd(p, o.v), q) ELSE BDiff(p, BAdd(q, o.v))
   IN ~BLess(BAdd(BAdd(p, q), Two(37)), BMul(diff, Two(36)))
Init == cid \in 1..Len(Trace) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED cid
        /\ IF Case.ended # "" THEN PrintT(<<"MISS", Case.id, "failed", Case.ended>>)
           ELSE LET bad == {k \in 1..Len(Case.obs) : ~(Near(EnergyTerms(Case.obs[k].x), Case.obs[k].e)
                                                       /\ Near(EnergyTerms(Case.obs[k].x), Case.obs[k].e2))
                              \/ \E d \in Dim : ~(Near(ForceTerms(Case.obs[k].x, d), Case.obs[k].f[d])
                                                  /\ Near(ForceTerms(Case.obs[k].x, d), Case.obs[k].f2[d]))}
                IN IF bad = {} THEN PrintT(<<"ACCEPT", Case.id>>)
                   ELSE PrintT(<<"MISS", Case.id, "value", Case.obs[CHOOSE k \in bad : TRUE]>>)
=============================================================================
