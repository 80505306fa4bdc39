------------------------------ MODULE ListSpec ------------------------------
(* C21: the list of walkers of a dynamics object under adding, inserting,   *)
(* overwriting, removing and stepping.  A configuration is one of Dyn       *)
(* without mass and c2, which belong to the walker: [x, p, m, c2].          *)
EXTENDS Dyn
\* g: what the position has below the lattice; kept where nothing depends on the position
NewWalker(c, x, m, c2, g) == [x |-> x, p |-> [d \in 1..c.dim |-> 0], m |-> m, c2 |-> c2, g |-> g]
\* positions in a list count from 0; -1 is the last one
At(l, i) == IF i < 0 THEN Len(l) + i + 1 ELSE i + 1
Has(l, i) == At(l, i) \in 1..Len(l)
AddEnd(l, w) == Append(l, w)
Put(l, i, w) == [j \in 1..(Len(l) + 1) |-> IF j < At(l, i) THEN l[j] ELSE IF j = At(l, i) THEN w ELSE l[j - 1]]
Over(l, i, w) == [l EXCEPT ![At(l, i)] = w]
Del(l, i) == [j \in 1..(Len(l) - 1) |-> IF j < At(l, i) THEN l[j] ELSE l[j + 1]]
Own(c, w) == [c EXCEPT !.mass = w.m, !.c2 = w.c2]
\* one step of all walkers; z: noise per walker
Moved(c, w, z) == LET n == LDStep(Own(c, w), [x |-> w.x, p |-> w.p], z) IN [w EXCEPT !.x = n.x, !.p = n.p]
StepAll(c, l, z) == [j \in 1..Len(l) |-> Moved(c, l[j], z[j])]
=============================================================================
