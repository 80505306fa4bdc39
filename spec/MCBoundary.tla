----------------------------- MODULE MCBoundary -----------------------------
(* A walker kicked arbitrarily far, in all small ranges.                    *)
EXTENDS Boundary
CONSTANTS NLos, Lens, NKicks, NMoms, Dim   \* N..: shifted to natural numbers
Los == {v - 3 : v \in NLos}
Kicks == {v - 30 : v \in NKicks}
Moms == {v - 2 : v \in NMoms}
VARIABLES c, w, prev
vars == <<c, w, prev>>
Init == /\ \E b \in 0..2, lo \in [1..Dim -> Los], ln \in [1..Dim -> Lens] :
             c = [dim |-> Dim, bc |-> b, rlo |-> lo, rhi |-> [d \in 1..Dim |-> lo[d] + ln[d]]]
        /\ \E x \in [1..Dim -> Los \union Kicks], p \in [1..Dim -> Moms] : w = [x |-> x, p |-> p] /\ prev = w
Next == /\ \E k \in [1..Dim -> Kicks], p \in [1..Dim -> Moms] :
             LET u == [x |-> [d \in 1..Dim |-> w.x[d] + k[d]], p |-> p]
             IN prev' = u /\ w' = Bound(c, u)
        /\ \A d \in 1..Dim : w'.x[d] \in -40..40
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Correct == [][BoundOk(c, prev', w')]_vars
Inside == [][c.bc # 0 => \A d \in 1..Dim : w'.x[d] >= c.rlo[d] /\ w'.x[d] <= c.rhi[d]]_vars
\* a second application changes nothing
Stable == [][Bound(c, w') = w' \/ c.bc = 0]_vars
=============================================================================
