------------------------------- MODULE MCFile -------------------------------
(* The row order of grid files for all small grids.                         *)
EXTENDS FileSpec
CONSTANTS MaxBins
VARIABLE f
Init == \E dm \in 1..3 : \E b \in [1..dm -> 1..MaxBins] :
          f = [dim |-> dm, bins |-> b, lo |-> [d \in 1..dm |-> 0], hi |-> [d \in 1..dm |-> 2000 * b[d]], kind |-> "hist"]
Next == FALSE /\ f' = f
Before(a, b) == \E d \in 1..f.dim : a[d] < b[d] /\ \A e \in 1..(d - 1) : a[e] = b[e]
\* every bin exactly once, ordered with the first coordinate slowest
RowMajor == \A r \in 1..(NBins(f) - 1) : Before(RowX(f, r), RowX(f, r + 1))
AllBins == {RowX(f, r) : r \in 1..NBins(f)} = {[d \in 1..f.dim |-> 2000 * i[d] - 1000] : i \in {j \in [1..f.dim -> 1..MaxBins] : \A d \in 1..f.dim : j[d] <= f.bins[d]}}
=============================================================================
