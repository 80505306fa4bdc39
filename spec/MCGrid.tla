------------------------------- MODULE MCGrid -------------------------------
(* Laws of the grid operations on all small grids.                          *)
EXTENDS GridSpec
CONSTANTS MaxN, Vals
VARIABLES g, h
Shapes == UNION {[1..dm -> 2..MaxN] : dm \in 1..2}
Mk(sh, data) == [lo |-> [d \in 1..Len(sh) |-> 4 * d], st |-> [d \in 1..Len(sh) |-> 8], n |-> sh, data |-> data]
Init == \E sh \in Shapes, hs \in Shapes : Len(sh) = Len(hs) /\ Size(sh) <= 6 /\ Size(hs) <= 4 /\
          \E a \in [1..Size(sh) -> Vals], b \in [1..Size(hs) -> {S, 2 * S}] : g = Mk(sh, a) /\ h = Mk(hs, b)
Next == FALSE /\ g' = g /\ h' = h
Idx == \A k \in 1..Size(g.n) : FlatOf(g.n, IndexOf(g.n, k)) = k
RowMajor == \A k \in 1..(Size(g.n) - 1) :
              LET a == Points(g)[k]  b == Points(g)[k + 1]
              IN \E d \in 1..Dim(g) : a[d] < b[d] /\ \A e \in 1..(d - 1) : a[e] = b[e]
AtPoints == \A k \in 1..Size(g.n) : Interp(g, Points(g)[k]) = g.data[k]
SparseKeeps == Sparse(g, [d \in 1..Dim(g) |-> 9]) = g
SparseRange == LET s == Sparse(g, [d \in 1..Dim(g) |-> 2])
               IN \A d \in 1..Dim(g) : s.lo[d] = g.lo[d] /\ s.lo[d] + (s.n[d] - 1) * s.st[d] = g.lo[d] + (g.n[d] - 1) * g.st[d]
Total(x) == SumSeq(x.data)
\* the two orders of a valid convolution agree, and its points are inside
Commutes == Covers(g, h) => ConvValid(g, h).data = ConvValid(h, g).data
Within == Covers(g, h) => \A k \in 1..Size(ConvValid(g, h).n) : Inside(g, Points(ConvValid(g, h))[k])
\* every valid value is a value of the same convolution shifted by the offset between the two
SubOfSame == Covers(g, h) => {ConvValid(g, h).data[k] : k \in 1..Len(ConvValid(g, h).data)} \subseteq
               {Volume(g, FullAt(g, h, ix)) : ix \in [1..Dim(g) -> 0..(2 * MaxN)]}
AddSub == WithSeq("sub", WithSeq("add", g, g.data), g.data) = g /\ WithNum("mul", g, S) = g
=============================================================================
