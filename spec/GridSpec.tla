------------------------------ MODULE GridSpec ------------------------------
(* C20: grids.  Coordinates in units of 1/16, data in units of 1/1024.      *)
(* A grid is [lo, st, n : one value per dimension, data : row-major values, *)
(* <<>> if none were set].                                                  *)
EXTENDS Fix
U == 16
Dim(g) == Len(g.n)
Size(n) == ProdSeq(n)
\* index vector (from 0) of point k (from 1): last coordinate fastest
Place(n, d) == ProdSeq([i \in 1..(Len(n) - d) |-> n[d + i]])
IndexOf(n, k) == [d \in 1..Len(n) |-> ((k - 1) \div Place(n, d)) % n[d]]
FlatOf(n, ix) == 1 + SumSeq([d \in 1..Len(n) |-> ix[d] * Place(n, d)])
PointAt(g, ix) == [d \in 1..Dim(g) |-> g.lo[d] + ix[d] * g.st[d]]
Points(g) == [k \in 1..Size(g.n) |-> PointAt(g, IndexOf(g.n, k))]
SamePoints(g, h) == g.lo = h.lo /\ g.n = h.n /\ \A d \in 1..Dim(g) : g.n[d] > 1 => g.st[d] = h.st[d]
With(g, data) == [g EXCEPT !.data = data]
Empty(g) == With(g, <<>>)

NewGrid(lo, hi, n) == [lo |-> lo, st |-> [d \in 1..Len(n) |-> ExDiv(hi[d] - lo[d], n[d] - 1)], n |-> n, data |-> <<>>]
\* from step sizes: extended to the next point beyond the range, or shrunk to the last one inside
StepGrid(lo, hi, st, shrink) ==
  [lo |-> lo, st |-> st, data |-> <<>>,
   n |-> [d \in 1..Len(st) |-> 1 + (IF shrink THEN (hi[d] - lo[d]) \div st[d] ELSE (hi[d] - lo[d] + st[d] - 1) \div st[d])]]

\* c0 + sum c_d p_d + cx * product of all p_d
Func(c, p) ==
  c.c0 * S + SumSeq([d \in 1..Len(p) |-> c.cs[d] * p[d] * (S \div U)])
  + (CASE Len(p) = 1 -> 0 [] Len(p) = 2 -> c.cx * p[1] * p[2] * 4 [] OTHER -> ExDiv(c.cx * p[1] * p[2] * p[3], 4))

FloorDiv(a, b) == IF b > 0 THEN a \div b ELSE (-a) \div (-b)
RECURSIVE IntPow(_, _)
IntPow(a, k) == IF k = 0 THEN S ELSE IF k = 1 THEN a ELSE Mul(IntPow(a, k - 1), a)
Arith(op, a, b) ==
  CASE op = "add" -> a + b
    [] op = "sub" -> a - b
    [] op = "mul" -> Mul(a, b)
    [] op = "truediv" -> IF b > 0 THEN ExDiv(a * S, b) ELSE ExDiv(-a * S, -b)
    [] op = "floordiv" -> FloorDiv(a, b) * S
    [] op = "mod" -> a - b * FloorDiv(a, b)
    [] op = "pow" -> IntPow(a, ExDiv(b, S))
MapData(g, F(_)) == With(g, [k \in 1..Len(g.data) |-> F(g.data[k])])
WithNum(op, g, v) == MapData(g, LAMBDA x : Arith(op, x, v))
WithSeq(op, g, s) == With(g, [k \in 1..Len(g.data) |-> Arith(op, g.data[k], s[k])])

\* linear interpolation at a point
Inside(g, q) == \A d \in 1..Dim(g) : q[d] >= g.lo[d] /\ q[d] <= g.lo[d] + (g.n[d] - 1) * g.st[d]
Cell(g, q, d) == Min2((q[d] - g.lo[d]) \div g.st[d], g.n[d] - 2)
Rest(g, q, d) == q[d] - g.lo[d] - Cell(g, q, d) * g.st[d]
Corners(g) == [1..Dim(g) -> {0, 1}]
Weight(g, q, c) == ProdSeq([d \in 1..Dim(g) |-> IF c[d] = 1 THEN Rest(g, q, d) ELSE g.st[d] - Rest(g, q, d)])
Interp(g, q) ==
  ExDiv(FoldSet(LAMBDA c, a : a + Weight(g, q, c) * g.data[FlatOf(g.n, [d \in 1..Dim(g) |-> Cell(g, q, d) + c[d]])], 0, Corners(g)),
        ProdSeq(g.st))
\* where the linear interpolant is unique
OnPoint(g, q) == \A d \in 1..Dim(g) : Rest(g, q, d) \in {0, g.st[d]}
Affine(g) ==
  \A k \in 1..Len(g.data) :
    LET ix == IndexOf(g.n, k)
        unit(d) == [e \in 1..Dim(g) |-> IF e = d THEN 1 ELSE 0]
        zero == [e \in 1..Dim(g) |-> 0]
    IN g.data[k] = g.data[1] + SumSeq([d \in 1..Dim(g) |-> IF g.n[d] = 1 THEN 0 ELSE ix[d] * (g.data[FlatOf(g.n, unit(d))] - g.data[1])])
Unique(g, q) == Dim(g) = 1 \/ OnPoint(g, q) \/ Affine(g)

\* same range, at most max points per dimension
SparseGrid(g, max) ==
  LET m == [d \in 1..Dim(g) |-> Min2(g.n[d], max[d])]
  IN NewGrid(g.lo, [d \in 1..Dim(g) |-> g.lo[d] + (g.n[d] - 1) * g.st[d]], m)
Sparse(g, max) == LET e == SparseGrid(g, max) IN With(e, [k \in 1..Size(e.n) |-> Interp(g, Points(e)[k])])
SparseUnique(g, max) == \A k \in 1..Size(SparseGrid(g, max).n) : Unique(g, Points(SparseGrid(g, max))[k])

\* convolution: full sum at offset ix (from 0), times the cell volume
Volume(g, v) == ExDiv(v * ProdSeq([d \in 1..Dim(g) |-> g.st[d]]), ProdSeq([d \in 1..Dim(g) |-> U]))
InGrid(g, ix) == \A d \in 1..Dim(g) : ix[d] >= 0 /\ ix[d] < g.n[d]
FullAt(g, h, ix) ==
  SumSeq([k \in 1..Size(h.n) |->
    LET j == IndexOf(h.n, k)
        i == [d \in 1..Dim(g) |-> ix[d] - j[d]]
    IN IF InGrid(g, i) THEN Mul(g.data[FlatOf(g.n, i)], h.data[k]) ELSE 0])
ConvSame(g, h) ==
  With(g, [k \in 1..Size(g.n) |->
    LET ix == IndexOf(g.n, k) IN Volume(g, FullAt(g, h, [d \in 1..Dim(g) |-> ix[d] + (h.n[d] - 1) \div 2]))])
\* fully overlapping points (one grid at least as large as the other in all dimensions)
Covers(g, h) == \A d \in 1..Dim(g) : g.n[d] >= h.n[d]
ConvValid(a, b) ==
  LET g == IF Covers(a, b) THEN a ELSE b
      h == IF Covers(a, b) THEN b ELSE a
      e == [lo |-> [d \in 1..Dim(g) |-> g.lo[d] + ExDiv((h.n[d] - 1) * g.st[d], 2)], st |-> g.st,
            n |-> [d \in 1..Dim(g) |-> g.n[d] - h.n[d] + 1], data |-> <<>>]
  IN With(e, [k \in 1..Size(e.n) |->
       LET ix == IndexOf(e.n, k) IN Volume(g, FullAt(g, h, [d \in 1..Dim(g) |-> ix[d] + h.n[d] - 1]))])
=============================================================================
