------------------------------ MODULE Analyses ------------------------------
(* The output and analysis actions as operators on an analysis state A.     *)
(* Implementation-shaped: ring buffers, last-write markers, and the index   *)
(* arithmetic of action.get_valid_data.                                     *)
(*                                                                          *)
(* c.tr: on, file, stride, ws                                               *)
(* c.hi: on, file, stride, ws (0 = no snapshots), reset (sequence of steps),*)
(*       min, max, bins (per dimension)                                     *)
(* c.fes: on, file, stride (0 = none), ws (0 = none), kt, plot, ps (0 = none)*)
(* c.df: on, file, stride (0 = none), ws, states (sequence of boxes)        *)
(* c.pd: the same on walker positions                                       *)
(* a box is a sequence of <<lo, hi>> per dimension                          *)
EXTENDS Fix

(* ---------------- ring buffer access (action.get_valid_data) ------------ *)
\* indices (1-based) of the not yet written entries of a buffer of length len
ValidIdx(len, t0, stride, us, lw0) ==
  LET t  == t0 - (t0 % us)   \* there is no data between the updates
      lw == lw0 - (lw0 % us)
  IN
  IF t = lw THEN <<>>
  ELSE LET ws == len * us
           aw == (lw % ws) \div us
           le == (t % ws) \div us
           k  == stride \div us
           first == aw + k - 1 - (lw % stride) \div us
           hi == IF le = 0 THEN len ELSE le
       IN IF stride = us /\ aw = 0 /\ le = 0 THEN [i \in 1..len |-> i]
          ELSE IF first >= hi THEN <<>>
          ELSE [i \in 1..((hi - first + k - 1) \div k) |-> first + (i - 1) * k + 1]

RingPos(t, ws, us) == IF t % ws = 0 THEN ws \div us ELSE (t % ws) \div us

(* ---------------- trajectories ------------------------------------------ *)
TrajWrite(c, A, t) ==
  IF ~c.tr.file THEN A
  ELSE LET idx == ValidIdx(c.tr.ws, t, c.tr.stride, 1, A.tlw)
       IN [A EXCEPT !.tfile = @ \o [k \in 1..Len(idx) |-> A.tb[idx[k]]], !.tlw = t]
TrajRun(c, A, t, ws) ==
  IF ~c.tr.on THEN A
  ELSE LET B == [A EXCEPT !.tb[RingPos(t, c.tr.ws, 1)] = [t |-> t, w |-> ws]]
       IN IF t % c.tr.ws = 0 THEN TrajWrite(c, B, t) ELSE B
TrajFinal(c, A, t) == IF c.tr.on THEN TrajWrite(c, A, t) ELSE A

(* ---------------- histogram ---------------------------------------------- *)
NBins(c) == ProdSeq(c.hi.bins)
\* twice the position of a walker, between two lattice points if it has a part below the lattice
Sgn(v) == IF v > 0 THEN 1 ELSE IF v < 0 THEN -1 ELSE 0
Pos2(w) == [d \in DOMAIN w.x |-> 2 * w.x[d] + (IF "f" \in DOMAIN w THEN IF w.f # <<>> THEN Sgn(w.f[1][d]) ELSE 0 ELSE 0)]
\* bin (per dimension, 1-based) of twice a coordinate, 0 if outside; the last bin is closed
BinD(c, d, x2) ==
  IF x2 < 2 * c.hi.min[d] \/ x2 > 2 * c.hi.max[d] THEN 0
  ELSE IF x2 = 2 * c.hi.max[d] THEN c.hi.bins[d]
  ELSE ((x2 - 2 * c.hi.min[d]) * c.hi.bins[d]) \div (2 * (c.hi.max[d] - c.hi.min[d])) + 1
\* row-major index of a position, 0 if outside
BinOf(c, dim, x2) ==
  LET b == [d \in 1..dim |-> BinD(c, d, x2[d])]
  IN IF \E d \in 1..dim : b[d] = 0 THEN 0
     ELSE FoldLeft(LAMBDA a, d : a * c.hi.bins[d] + b[d] - 1, 0, [d \in 1..dim |-> d]) + 1
\* per-dimension indices of a row-major index
RECURSIVE UnflatR(_, _, _)
UnflatR(bins, k, d) == IF d = 0 THEN <<>>
                       ELSE UnflatR(bins, k \div bins[d], d - 1) \o <<(k % bins[d]) + 1>>
Unflat(c, k) == UnflatR(c.hi.bins, k - 1, Len(c.hi.bins))
\* twice the centre coordinate of bin index j in dimension d
Centre2(c, d, j) == 2 * c.hi.min[d] + ExDiv((2 * j - 1) * (c.hi.max[d] - c.hi.min[d]), c.hi.bins[d])

AddPos(c, dim, h, ws) ==
  FoldLeft(LAMBDA a, w : LET b == BinOf(c, dim, Pos2(w)) IN IF b = 0 THEN a ELSE [a EXCEPT ![b] = @ + 1], h, ws)
HistAdd(c, A, t) ==
  LET idx == ValidIdx(c.tr.ws, t, c.hi.stride, 1, A.hlu)
  IN [A EXCEPT !.hist = FoldLeft(LAMBDA h, k : AddPos(c, c.dim, h, A.tb[k].w), @, idx), !.hlu = t]
HistWrite(c, A, name) == IF c.hi.file THEN [A EXCEPT !.hfiles = Append(@, [n |-> name, h |-> A.hist])] ELSE A
HistRun(c, A, t) ==
  IF ~c.hi.on THEN A
  ELSE LET B == IF t % c.tr.ws = 0 THEN HistAdd(c, A, t) ELSE A
           D == IF c.hi.ws # 0 /\ t % c.hi.ws = 0 THEN HistWrite(c, B, t) ELSE B
       IN IF \E k \in 1..Len(c.hi.reset) : c.hi.reset[k] = t
          THEN [D EXCEPT !.hist = [b \in DOMAIN @ |-> 0]] ELSE D
HistFinal(c, A, t) == IF ~c.hi.on THEN A ELSE HistWrite(c, HistAdd(c, A, t), 0)

(* ---------------- free energy (a snapshot of the counts) ------------------ *)
FesWrite(c, A, name) == IF c.fes.file THEN [A EXCEPT !.ffiles = Append(@, [n |-> name, h |-> A.fes])] ELSE A
FesPlot(c, A, name) == IF c.fes.plot THEN [A EXCEPT !.figs = Append(@, [n |-> name, h |-> A.fes])] ELSE A
FesRun(c, A, t) ==
  IF ~c.fes.on THEN A
  ELSE LET B == IF c.fes.stride # 0 /\ t % c.fes.stride = 0 THEN [A EXCEPT !.fes = A.hist] ELSE A
           D == IF c.fes.ws # 0 /\ t % c.fes.ws = 0 THEN FesWrite(c, B, t) ELSE B
       IN IF c.fes.ps # 0 /\ t % c.fes.ps = 0 THEN FesPlot(c, D, t) ELSE D
FesFinal(c, A, t) == IF ~c.fes.on THEN A ELSE FesPlot(c, FesWrite(c, [A EXCEPT !.fes = A.hist], 0), 0)

(* ---------------- delta-F -------------------------------------------------- *)
BinInBox(c, k, box) == LET j == Unflat(c, k)
                       IN \A d \in 1..c.dim : /\ 2 * box[d][1] <= Centre2(c, d, j[d])
                                              /\ Centre2(c, d, j[d]) <= 2 * box[d][2]
StateCount(c, h, box) == SumSeq([k \in 1..Len(h) |-> IF h[k] # 0 /\ BinInBox(c, k, box) THEN h[k] ELSE 0])
DfValues(c, h) == [s \in 1..Len(c.df.states) |-> StateCount(c, h, c.df.states[s])]
DfWrite(c, A, t) ==
  IF ~c.df.file THEN A
  ELSE LET idx == ValidIdx(c.df.ws \div c.df.stride, t, c.df.stride, c.df.stride, A.dlw)
       IN [A EXCEPT !.dfile = @ \o [k \in 1..Len(idx) |-> A.db[idx[k]]], !.dlw = t]
DfRun(c, A, t) ==
  IF ~c.df.on \/ c.df.stride = 0 THEN A
  ELSE LET B == IF t % c.df.stride = 0
                THEN [A EXCEPT !.db[RingPos(t, c.df.ws, c.df.stride)] = [t |-> t, v |-> DfValues(c, A.fes)]]
                ELSE A
       IN IF t % c.df.ws = 0 THEN DfWrite(c, B, t) ELSE B
DfFinal(c, A, t) ==
  IF ~c.df.on THEN A
  ELSE IF c.df.stride # 0 THEN DfWrite(c, A, t)
  ELSE IF c.df.file THEN [A EXCEPT !.dfile = Append(@, [t |-> t, v |-> DfValues(c, A.fes)])] ELSE A

(* ---------------- particle distribution ------------------------------------ *)
PosInBox(dim, x2, box) == \A d \in 1..dim : 2 * box[d][1] <= x2[d] /\ x2[d] <= 2 * box[d][2]
PdValues(c, ws) == [s \in 1..Len(c.pd.states) |-> CountSeq(ws, LAMBDA w : PosInBox(c.dim, Pos2(w), c.pd.states[s]))]
PdWrite(c, A, t) ==
  IF ~c.pd.file THEN A
  ELSE LET idx == ValidIdx(c.pd.ws \div c.pd.stride, t, c.pd.stride, c.pd.stride, A.plw)
       IN [A EXCEPT !.pfile = @ \o [k \in 1..Len(idx) |-> A.pb[idx[k]]], !.plw = t]
PdRun(c, A, t, ws) ==
  IF ~c.pd.on \/ c.pd.stride = 0 THEN A
  ELSE LET B == IF t % c.pd.stride = 0
                THEN [A EXCEPT !.pb[RingPos(t, c.pd.ws, c.pd.stride)] = [t |-> t, v |-> PdValues(c, ws)]]
                ELSE A
       IN IF t % c.pd.ws = 0 THEN PdWrite(c, B, t) ELSE B
PdFinal(c, A, t, ws) ==
  IF ~c.pd.on THEN A
  ELSE IF c.pd.stride # 0 THEN PdWrite(c, A, t)
  ELSE IF c.pd.file THEN [A EXCEPT !.pfile = Append(@, [t |-> t, v |-> PdValues(c, ws)])] ELSE A

(* ---------------- all of them ----------------------------------------------- *)
NoRow == [t |-> -1]
AInit(c) ==
  LET zero == IF c.hi.on THEN [b \in 1..NBins(c) |-> 0] ELSE <<>>
      len(s) == IF s.on /\ s.stride # 0 THEN s.ws \div s.stride ELSE 0
  IN [tb |-> IF c.tr.on THEN [k \in 1..c.tr.ws |-> NoRow] ELSE <<>>, tlw |-> 0, tfile |-> <<>>,
      hist |-> zero, hlu |-> 0, hfiles |-> <<>>,
      fes |-> zero, ffiles |-> <<>>, figs |-> <<>>,
      db |-> [k \in 1..len(c.df) |-> NoRow], dlw |-> 0, dfile |-> <<>>,
      pb |-> [k \in 1..len(c.pd) |-> NoRow], plw |-> 0, pfile |-> <<>>]

RunAll(c, A, t, ws) == PdRun(c, DfRun(c, FesRun(c, HistRun(c, TrajRun(c, A, t, ws), t), t), t), t, ws)
FinalAll(c, A, t, ws) == PdFinal(c, DfFinal(c, FesFinal(c, HistFinal(c, TrajFinal(c, A, t), t), t), t), t, ws)
=============================================================================
