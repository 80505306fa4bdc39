------------------------------ MODULE BdldSim ------------------------------
(* One simulation run of bdld as a state machine.                           *)
(*                                                                          *)
(* A time step is: Langevin step of all walkers, birth-death round (on      *)
(* schedule), then the output actions trajectories, histogram, fes,         *)
(* delta-f, particle-distribution in this order; after the last step every  *)
(* action does its final run in the same order.  A crash may happen between *)
(* any two actions.                                                         *)
EXTENDS Rates, Analyses

VARIABLES c,      \* configuration, constant during a behaviour
          step,   \* current time step (1..)
          phase,  \* next action
          ws,     \* walkers: sequence of [x, p]
          bd,     \* state of the running birth-death round
          cnt,    \* statistics counters
          sout,   \* statistics written so far
          A,      \* state of the output actions, and the files
          hst,    \* ghost: walkers at the end of every finished step
          nev,    \* ghost: birth-death events so far, rounds so far
          flush   \* ghost: step of the last trajectory flush

vars == <<c, step, phase, ws, bd, cnt, sout, A, hst, nev, flush>>

NoBd == [mode |-> "idle"]
Cnt0 == [dup |-> 0, dupa |-> 0, kill |-> 0, killa |-> 0]

InitWith(conf, walkers) ==
  /\ c = conf /\ ws = walkers
  /\ step = 1 /\ phase = "ld" /\ bd = NoBd /\ cnt = Cnt0 /\ sout = <<>>
  /\ A = AInit(conf) /\ hst = <<>> /\ nev = [ev |-> 0, rounds |-> 0] /\ flush = 0

(* ---------------- Langevin dynamics --------------------------------------- *)
\* nz: noise values per walker
LangevinStep(nz) ==
  /\ phase = "ld"
  /\ ws' = [i \in 1..Len(ws) |-> LDStep(c, ws[i], nz[i])]
  /\ phase' = "bd"
  /\ UNCHANGED <<c, step, bd, cnt, sout, A, hst, nev, flush>>

(* ---------------- birth-death --------------------------------------------- *)
RoundDue == c.bd.on /\ step % c.bd.stride = 0 /\ Len(ws) >= 2

\* default mode: rates and decisions of the start of the round
BdStart(u) ==
  /\ phase = "bd" /\ RoundDue
  /\ phase' = "bdev"
  /\ IF c.bd.recalc = 1
     THEN /\ bd' = [mode |-> "recalc", rem |-> 1..Len(ws), u |-> u]
          /\ UNCHANGED cnt
     ELSE \E b \in {Betas(c, ws)} :
          LET n == Len(ws)
              ac == [i \in 1..n |-> Accepts(c, b[i], u[i])]
              si == [i \in 1..n |-> Signs(c, b[i])]
              sure == {i \in 1..n : ac[i] = {TRUE}}
              death == {i \in 1..n : si[i] = {1}}
          \* accepted walkers and walkers that die; where the margins allow both, either
          IN \E ev \in SUBSET {i \in 1..n : Cardinality(ac[i]) = 2},
                kl \in SUBSET {i \in 1..n : Cardinality(si[i]) = 2} :
               LET sg == [i \in 1..n |-> IF i \in death \union kl THEN 1 ELSE -1]
                   k == Cardinality(death \union kl)
               IN /\ bd' = [mode |-> "bulk", rem |-> sure \union ev, killed |-> {}, sg |-> sg]
                  /\ cnt' = [cnt EXCEPT !.killa = @ + k, !.dupa = @ + n - k]
  /\ nev' = [nev EXCEPT !.rounds = @ + 1]
  /\ UNCHANGED <<c, step, ws, sout, A, hst, flush>>

\* the walker `kill` becomes a complete copy of `dup`
Replace(dup, kill) == ws' = [ws EXCEPT ![kill] = ws[dup]]

BulkEvent(i, j) ==
  /\ bd.mode = "bulk" /\ i \in bd.rem
  /\ IF i \in bd.killed
     THEN /\ j = i  \* already overwritten: no event of its own
          /\ bd' = [bd EXCEPT !.rem = @ \ {i}]
          /\ UNCHANGED <<ws, cnt, nev>>
     ELSE /\ j # i
          /\ nev' = [nev EXCEPT !.ev = @ + 1]
          /\ IF bd.sg[i] = 1
             THEN /\ Replace(j, i)
                  /\ cnt' = [cnt EXCEPT !.kill = @ + 1]
                  /\ bd' = [bd EXCEPT !.rem = @ \ {i}, !.killed = @ \union {i}]
             ELSE /\ Replace(i, j)
                  /\ cnt' = [cnt EXCEPT !.dup = @ + 1]
                  /\ bd' = [bd EXCEPT !.rem = @ \ {i}, !.killed = @ \union {j}]
\* with recalculation a vanishing rate need not be counted as an attempt
Attempts(b) == IF Abs(b) > c.bd.margin THEN {1} ELSE {0, 1}
RecalcEvent(i) ==
  /\ bd.mode = "recalc" /\ i \in bd.rem
  /\ bd' = [bd EXCEPT !.rem = @ \ {i}]
  /\ \E b \in {Betas(c, ws)[i]} :
        \E s \in Signs(c, b), a \in Accepts(c, b, bd.u[i]), n \in Attempts(b) :
          /\ a => n = 1
          /\ LET cn == IF s = 1 THEN [cnt EXCEPT !.killa = @ + n] ELSE [cnt EXCEPT !.dupa = @ + n]
             IN IF ~a THEN cnt' = cn /\ UNCHANGED <<ws, nev>>
                ELSE /\ nev' = [nev EXCEPT !.ev = @ + 1]
                     /\ cnt' = IF s = 1 THEN [cn EXCEPT !.kill = @ + 1] ELSE [cn EXCEPT !.dup = @ + 1]
                     /\ \E j \in (1..Len(ws)) \ {i} : IF s = 1 THEN Replace(j, i) ELSE Replace(i, j)
\* the walker i is processed, with some other one as its partner
BdEvent(i) ==
  /\ phase = "bdev"
  /\ (\E j \in 1..Len(ws) : BulkEvent(i, j)) \/ RecalcEvent(i)
  /\ UNCHANGED <<c, step, phase, sout, A, hst, flush>>

StatRow == [t |-> step, v |-> <<cnt.dup, cnt.dupa, cnt.kill, cnt.killa>>]
StatRun == IF c.bd.on /\ c.bd.statstride # 0 /\ step % c.bd.statstride = 0
           THEN sout' = Append(sout, StatRow) ELSE UNCHANGED sout
RoundEnds ==
  /\ \/ phase = "bd" /\ ~RoundDue
     \/ phase = "bdev" /\ bd.rem = {}
  /\ phase' = "traj" /\ bd' = NoBd
  /\ StatRun
  /\ UNCHANGED <<c, step, ws, cnt, A, nev, flush>>
BdEnd == RoundEnds /\ hst' = Append(hst, ws)

(* ---------------- outputs --------------------------------------------------- *)
OutAction(ph, nx, B) == /\ phase = ph /\ phase' = nx /\ A' = B
                        /\ UNCHANGED <<c, step, ws, bd, cnt, sout, hst, nev>>
Traj == /\ OutAction("traj", "hist", TrajRun(c, A, step, ws))
        /\ flush' = IF c.tr.on /\ step % c.tr.ws = 0 THEN step ELSE flush
Hist == OutAction("hist", "fes", HistRun(c, A, step)) /\ UNCHANGED flush
Fes  == OutAction("fes", "df", FesRun(c, A, step)) /\ UNCHANGED flush
Df   == OutAction("df", "pd", DfRun(c, A, step)) /\ UNCHANGED flush
Pd   == OutAction("pd", "end", PdRun(c, A, step, ws)) /\ UNCHANGED flush

\* somebody asks for the trajectories to be written now (TrajectoryAction.write)
ExtraWrite == /\ phase = "end" /\ c.tr.on
              /\ A' = TrajWrite(c, A, step) /\ flush' = step
              /\ UNCHANGED <<c, step, phase, ws, bd, cnt, sout, hst, nev>>

NextStep == /\ phase = "end" /\ step' = step + 1 /\ phase' = "ld"
            /\ UNCHANGED <<c, ws, bd, cnt, sout, A, hst, nev, flush>>

Final == /\ phase = "end" /\ phase' = "done"
         /\ A' = FinalAll(c, A, step, ws) /\ flush' = step
         /\ sout' = IF c.bd.on /\ c.bd.statstride = 0 THEN Append(sout, StatRow) ELSE sout
         /\ UNCHANGED <<c, step, ws, bd, cnt, hst, nev>>

(* =============== what the outputs have to be (ideal, history based) ========= *)
MultiplesUpTo(s, t) == [k \in 1..(t \div s) |-> k * s]
IdealTraj(t) == LET m == MultiplesUpTo(c.tr.stride, t)
                IN [k \in 1..Len(m) |-> [t |-> m[k], w |-> hst[m[k]]]]

\* C01 / C03: the trajectory rows are those up to the last flush, which is not before
\* the last multiple of the write stride
TrajExact == c.tr.on /\ c.tr.file => A.tfile = IdealTraj(flush)
TrajDue   == phase \in {"hist", "fes", "df", "pd", "end"} /\ c.tr.on
               => flush >= (step \div c.tr.ws) * c.tr.ws
TrajDone  == phase = "done" /\ c.tr.on => flush = step

\* C04: samples of multiples of the stride in (a, b]
RECURSIVE SampleCount(_, _, _)
SampleCount(h, a, b) ==
  IF b <= a THEN h
  ELSE SampleCount(IF b % c.hi.stride = 0 THEN AddPos(c, c.dim, h, hst[b]) ELSE h, a, b - 1)
ZeroH == [b \in 1..NBins(c) |-> 0]
\* steps already collected after the actions of step t (in-run): multiples of the write stride
Collected(t) == (t \div c.tr.ws) * c.tr.ws
LastReset(t) == LET r == {k \in 1..t : \E i \in 1..Len(c.hi.reset) : c.hi.reset[i] = k}
                IN IF r = {} THEN 0 ELSE CHOOSE k \in r : \A l \in r : l <= k
\* a reset at step r discards what had been collected by then
IdealHist(t, r) == SampleCount(ZeroH, IF r = 0 THEN 0 ELSE Collected(r), t)
HistExact ==
  c.hi.on =>
    /\ phase \in {"fes", "df", "pd", "end"} => A.hist = IdealHist(Collected(step), LastReset(step))
    /\ phase = "done" => A.hist = IdealHist(step, LastReset(step))
HistFiles ==
  c.hi.on /\ c.hi.file =>
    LET snaps == IF c.hi.ws = 0 THEN <<>>
                 ELSE MultiplesUpTo(c.hi.ws, IF phase \in {"fes", "df", "pd", "end", "done"} THEN step ELSE step - 1)
        \* the snapshot of step t is written before a reset of that step
        ideal == [k \in 1..Len(snaps) |-> [n |-> snaps[k], h |-> IdealHist(Collected(snaps[k]), LastReset(snaps[k] - 1))]]
    IN A.hfiles = IF phase = "done" THEN Append(ideal, [n |-> 0, h |-> A.hist]) ELSE ideal

\* C05: the surface is that of the histogram at its latest calculation
FesCalc(t) == IF c.fes.stride = 0 THEN 0 ELSE (t \div c.fes.stride) * c.fes.stride
HistAt(t) == IF t = 0 THEN ZeroH ELSE IdealHist(Collected(t), LastReset(t))
FesExact ==
  c.fes.on =>
    /\ phase \in {"df", "pd", "end"} => A.fes = HistAt(FesCalc(step))
    /\ phase = "done" => A.fes = A.hist
FesFiles ==
  c.fes.on /\ c.fes.file =>
    LET snaps == IF c.fes.ws = 0 THEN <<>>
                 ELSE MultiplesUpTo(c.fes.ws, IF phase \in {"df", "pd", "end", "done"} THEN step ELSE step - 1)
        ideal == [k \in 1..Len(snaps) |-> [n |-> snaps[k], h |-> HistAt(FesCalc(snaps[k]))]]
    IN A.ffiles = IF phase = "done" THEN Append(ideal, [n |-> 0, h |-> A.hist]) ELSE ideal
\* C23: the plots
FigsExact ==
  c.fes.on /\ c.fes.plot =>
    LET snaps == IF c.fes.ps = 0 THEN <<>>
                 ELSE MultiplesUpTo(c.fes.ps, IF phase \in {"df", "pd", "end", "done"} THEN step ELSE step - 1)
        ideal == [k \in 1..Len(snaps) |-> [n |-> snaps[k], h |-> HistAt(FesCalc(snaps[k]))]]
    IN A.figs = IF phase = "done" THEN Append(ideal, [n |-> 0, h |-> A.hist]) ELSE ideal

\* C02 / C03 / C05 / C06: record-keeping analyses
RecordsUpTo(s, t, V(_)) == LET m == MultiplesUpTo(s, t) IN [k \in 1..Len(m) |-> [t |-> m[k], v |-> V(m[k])]]
DfExact ==
  c.df.on /\ c.df.file =>
    IF c.df.stride = 0
    THEN A.dfile = IF phase = "done" THEN <<[t |-> step, v |-> DfValues(c, A.hist)]>> ELSE <<>>
    ELSE LET last == IF phase = "done" THEN step
                     ELSE ((IF phase \in {"pd", "end"} THEN step ELSE step - 1) \div c.df.ws) * c.df.ws
         IN A.dfile = RecordsUpTo(c.df.stride, last, LAMBDA t : DfValues(c, HistAt(FesCalc(t))))
PdExact ==
  c.pd.on /\ c.pd.file =>
    IF c.pd.stride = 0
    THEN A.pfile = IF phase = "done" THEN <<[t |-> step, v |-> PdValues(c, ws)]>> ELSE <<>>
    ELSE LET last == IF phase = "done" THEN step
                     ELSE ((IF phase = "end" THEN step ELSE step - 1) \div c.pd.ws) * c.pd.ws
         IN A.pfile = RecordsUpTo(c.pd.stride, last, LAMBDA t : PdValues(c, hst[t]))

\* C07: birth-death never changes the number of walkers
PopulationKept == [][Len(ws') = Len(ws)]_vars
\* C10
CountsExact == /\ cnt.kill + cnt.dup = nev.ev
               /\ cnt.kill <= cnt.killa /\ cnt.dup <= cnt.dupa
               /\ c.bd.on /\ c.bd.recalc = 0 => cnt.killa + cnt.dupa = Len(ws) * nev.rounds
RoundsExact == c.bd.on /\ phase = "traj" /\ Len(ws) >= 2 => nev.rounds = step \div c.bd.stride
StatSchedule == c.bd.on /\ c.bd.statstride # 0 /\ phase \in {"traj", "hist", "fes", "df", "pd", "end", "done"}
                  => [k \in 1..Len(sout) |-> sout[k].t] = MultiplesUpTo(c.bd.statstride, step)
=============================================================================
