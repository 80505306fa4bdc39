------------------------------ MODULE TraceSim ------------------------------
(* Conformance of recorded runs of the real program with BdldSim.           *)
(*                                                                          *)
(* Every line of trace.ndjson is one run: its configuration, its scripted   *)
(* random numbers, the walkers observed before the first step, after every  *)
(* Langevin step and at the end of every time step, the places where it was *)
(* interrupted or asked for additional writes, and the contents of all      *)
(* files it left.  Check is the set of clauses a property is about; for the *)
(* other parts the logged state is adopted without judging it.              *)
(* A run conforms iff some behaviour of the specification (choice of        *)
(* birth-death order and partners, which are not logged) reaches ACCEPT.    *)
EXTENDS BdldSim, Json
CONSTANT Check
VARIABLE cid
Trace == ndJsonDeserialize("trace.ndjson")
Case == Trace[cid]
tvars == <<vars, cid>>

W(l) == [i \in 1..Len(l) |-> [x |-> l[i][1], p |-> l[i][2], f |-> IF Len(l[i]) > 2 THEN l[i][3] ELSE <<>>]]
\* runs with numbers that are not on the lattice
Fine == Case.fine # <<>>
Log == Case.steps[step]
O == Case.obs

Miss(clause, detail) == /\ PrintT(<<"MISS", Case.id, clause, step, detail>>)
                        /\ phase' = "dead"
                        /\ UNCHANGED <<c, step, ws, bd, cnt, sout, A, hst, nev, flush, cid>>

Init == /\ cid \in 1..Len(Trace)
        /\ InitWith(Trace[cid].cfg, W(Trace[cid].init))

(* ---------------- Langevin step: logged noise, logged result -------------- *)
TLangevin ==
  /\ phase = "ld"
  /\ IF step > Len(Case.steps) THEN Miss("steps", Len(Case.steps))
     ELSE LET exp == [i \in 1..Len(ws) |-> LDStep(c, IF Fine THEN FineStep(c, ws[i], Case.fine[step][i]) ELSE ws[i], Case.noise[step][i])]
              judge == \/ "ld" \in Check
                       \/ "ldcopy" \in Check /\ step > 1 /\ Case.steps[step - 1].ev = 1
          IN IF judge /\ Log.off # 0 THEN Miss("ld-offgrid", Log.ld)
             ELSE IF judge /\ exp # W(Log.ld) THEN Miss("ld", <<exp, Log.ld>>)
             ELSE /\ ws' = W(Log.ld) /\ phase' = "bd"
                  /\ UNCHANGED <<c, step, bd, cnt, sout, A, hst, nev, flush, cid>>

(* ---------------- birth-death round: logged randoms, logged result -------- *)
InferEvents == Check \cap {"bd", "stats"} # {}
Round == nev.rounds + 1
TBdStart ==
  /\ phase = "bd" /\ InferEvents /\ RoundDue
  /\ PrintT(<<"AT", Case.id, "bd", step>>)
  /\ BdStart(Case.u[Round])
  /\ UNCHANGED cid
\* in the recalculation mode a walker whose random number is beyond every rate has no
\* event: unless attempts are counted, its place in the order does not matter
NEVER == 100000000
Idle == IF bd.mode = "recalc" /\ "stats" \notin Check THEN {i \in bd.rem : bd.u[i] = NEVER} ELSE {}
TBdEvent ==
  /\ phase = "bdev"
  /\ IF Idle # {}
     THEN /\ bd' = [bd EXCEPT !.rem = @ \ Idle]
          /\ UNCHANGED <<c, step, phase, ws, cnt, sout, A, hst, nev, flush>>
     ELSE \E i \in bd.rem : BdEvent(i)
  /\ UNCHANGED cid
\* end of the round: the inferred walkers have to be the logged ones
TBdEnd ==
  /\ \/ phase = "bd" /\ ~(InferEvents /\ RoundDue)
     \/ phase = "bdev" /\ bd.rem = {}
  /\ LET end == W(Log.end)
     IN IF InferEvents /\ phase = "bdev"
        THEN /\ ws = end       \* otherwise this branch of the inference ends here
             /\ IF "stats" \in Check
                THEN /\ RoundEnds /\ UNCHANGED hst   \* the history is only needed for the invariants
                     \* counters that are contradicted by the statistics end the branch as well
                     /\ Len(sout') > Len(sout) /\ Len(O.stats) >= Len(sout')
                          => O.stats[Len(sout')] = <<step, sout'[Len(sout')].v>>
                ELSE /\ phase' = "traj" /\ bd' = NoBd
                     /\ cnt' = Cnt0 /\ nev' = [nev EXCEPT !.ev = 0]  \* forget what is not judged
                     /\ UNCHANGED <<c, step, ws, sout, A, hst, flush>>
        ELSE IF "bdoff" \in Check /\ ~RoundDue /\ end # ws THEN Miss("change-outside-round", Log.end)
        ELSE IF "bdpop" \in Check /\ Len(end) # Len(ws) THEN Miss("population", Len(end))
        ELSE IF "bdpop" \in Check /\ \E i \in 1..Len(ws) : \A j \in 1..Len(ws) : end[i] # ws[j]
             THEN Miss("no-copy", Log.end)
        ELSE IF "bdpop" \in Check /\ Len(ws) = 1 /\ end # ws THEN Miss("lone-walker", Log.end)
        ELSE /\ ws' = end /\ phase' = "traj" /\ bd' = NoBd
             /\ StatRun
             /\ UNCHANGED <<c, step, cnt, A, hst, nev, flush>>
  /\ UNCHANGED cid

(* ---------------- outputs --------------------------------------------------- *)
InSeq(s, v) == \E k \in 1..Len(s) : s[k] = v
TOut ==
  /\ phase = "traj"
  /\ LET B == RunAll(c, A, step, ws)
     IN /\ A' = IF InSeq(Case.extra, step) THEN TrajWrite(c, B, step) ELSE B
        /\ flush' = IF c.tr.on /\ (step % c.tr.ws = 0 \/ InSeq(Case.extra, step)) THEN step ELSE flush
  /\ phase' = "end"
  /\ UNCHANGED <<c, step, ws, bd, cnt, sout, hst, nev, cid>>
TNext ==
  /\ phase = "end" /\ step < Case.last
  /\ step' = step + 1 /\ phase' = "ld"
  /\ UNCHANGED <<c, ws, bd, cnt, sout, A, hst, nev, flush, cid>>
TFinal ==
  /\ phase = "end" /\ step = Case.last
  /\ IF Case.crash THEN phase' = "cmp" /\ UNCHANGED <<c, step, ws, bd, cnt, sout, A, hst, nev, flush>>
     ELSE /\ A' = FinalAll(c, A, step, ws) /\ flush' = step /\ phase' = "cmp"
          /\ sout' = IF c.bd.on /\ c.bd.statstride = 0 THEN Append(sout, StatRow) ELSE sout
          /\ UNCHANGED <<c, step, ws, bd, cnt, hst, nev>>
  /\ UNCHANGED cid

(* ---------------- comparison with the files --------------------------------- *)
TrajRowOk(row, i, o) ==
  /\ o[1] = row.t
  /\ o[2] = row.w[i].x
  /\ Case.mom => o[3] = row.w[i].p
  /\ Fine => o[4] = row.w[i].f[1] /\ (Case.mom => o[5] = row.w[i].f[2])
TrajOk == \A i \in 1..Len(ws) :
            /\ Len(O.traj[i]) = Len(A.tfile)
            /\ \A k \in 1..Len(A.tfile) : TrajRowOk(A.tfile[k], i, O.traj[i][k])
HistOk == /\ Len(O.hist) = Len(A.hfiles)
          /\ \A k \in 1..Len(A.hfiles) : O.hist[k][1] = A.hfiles[k].n /\ O.hist[k][2] = A.hfiles[k].h

INF == 999999999
NAN == 888888888
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
KTLn(n, m) == RDiv((LnI(n) - LnI(m)) * c.fes.kt[1], c.fes.kt[2])   \* kT ln(n/m)
Tol == RDiv(6 * c.fes.kt[1], c.fes.kt[2]) + 4
MaxCount(h) == FoldLeft(LAMBDA a, b : Max2(a, b), 0, h)
FesOkVals(h, o) ==
  /\ Len(h) = Len(o)
  /\ LET m == MaxCount(h)
     IN \A k \in 1..Len(h) : IF h[k] = 0 THEN o[k] = INF
                             ELSE o[k] # INF /\ o[k] # NAN /\ o[k] # -INF /\ Near(o[k], KTLn(m, h[k]), Tol)
FesOk == /\ Len(O.fes) = Len(A.ffiles)
         /\ \A k \in 1..Len(A.ffiles) : O.fes[k][1] = A.ffiles[k].n /\ FesOkVals(A.ffiles[k].h, O.fes[k][2])
\* a plot shows the surface: in one dimension a curve over the bin centres next to the
\* reference, in two dimensions the values at the places of the bins (row-major)
Fin(h, o) == {o[k] : k \in {q \in 1..Len(h) : h[q] # 0}}
CurveX(l) == \A k \in 1..Len(l[1]) : Near(l[1][k], RDiv(Centre2(c, 1, k) * 125, 256), 1)
RefVals == LET e == [k \in 1..c.hi.bins[1] |-> Energy(c, <<ExDiv(Centre2(c, 1, k), 2)>>)]
               m == FoldLeft(LAMBDA a, b : Min2(a, b), e[1], e)
           IN [k \in 1..Len(e) |-> ((e[k] - m) \div 32) * 3125 + RDiv(((e[k] - m) % 32) * 3125, 32)]
IsRef(l) == Len(l[2]) = c.hi.bins[1] /\ CurveX(l) /\ LET r == RefVals IN \A k \in 1..Len(r) : Near(l[2][k], r[k], 3)
IsFes(h, l) == Len(l[2]) = Len(h) /\ CurveX(l) /\ FesOkVals(h, l[2])
RangeOk(h, vals, r) == IF Case.dom # <<>> THEN r = Case.dom ELSE \A v \in Fin(h, vals) : r[1] <= v /\ v <= r[2]
PlotOk(h, o) ==
  CASE c.dim = 1 -> /\ \E k \in 1..Len(o.lines) : IsFes(h, o.lines[k]) /\ RangeOk(h, o.lines[k][2], o.range)
                    /\ \E k \in 1..Len(o.lines) : IsRef(o.lines[k])
                    /\ \A k \in 1..Len(o.lines) : IsFes(h, o.lines[k]) \/ IsRef(o.lines[k])
    [] c.dim = 2 -> FesOkVals(h, o.img) /\ RangeOk(h, o.img, o.range)
    [] OTHER -> TRUE
FigsOk == c.dim = 3 \/
          (/\ [k \in 1..Len(O.figs) |-> O.figs[k].n] = [k \in 1..Len(A.figs) |-> A.figs[k].n]
           /\ {O.pngs[k] : k \in 1..Len(O.pngs)} = {A.figs[k].n : k \in 1..Len(A.figs)}
           /\ \A k \in 1..Len(A.figs) : PlotOk(A.figs[k].h, O.figs[k]))
\* delta-F of state s relative to state 1; undefined values (empty states) only have to
\* be non-finite
DfVal(v, s, o) ==
  IF v[1] > 0 /\ v[s] > 0 THEN o \notin {INF, -INF, NAN} /\ Near(o, KTLn(v[1], v[s]), Tol)
  ELSE IF v[1] > 0 THEN o = INF
  ELSE o \in {INF, -INF, NAN}
DfTimesOk == [k \in 1..Len(O.df) |-> O.df[k][1]] = [k \in 1..Len(A.dfile) |-> A.dfile[k].t]
DfValsOk == /\ Len(O.df) = Len(A.dfile)
            /\ \A k \in 1..Len(A.dfile) :
                 /\ Len(O.df[k][2]) = Len(A.dfile[k].v) - 1
                 /\ \A s \in 2..Len(A.dfile[k].v) : DfVal(A.dfile[k].v, s, O.df[k][2][s - 1])
PdTimesOk == [k \in 1..Len(O.pd) |-> O.pd[k][1]] = [k \in 1..Len(A.pfile) |-> A.pfile[k].t]
PdValsOk == /\ Len(O.pd) = Len(A.pfile)
            /\ \A k \in 1..Len(A.pfile) : O.pd[k][2] = A.pfile[k].v
StatTimesOk == Case.nostat \/ [k \in 1..Len(O.stats) |-> O.stats[k][1]]
                  = IF ~c.bd.on THEN <<>>
                    ELSE IF c.bd.statstride = 0 THEN (IF Case.crash THEN <<>> ELSE <<step>>)
                    ELSE MultiplesUpTo(c.bd.statstride, step)
\* in the crash-free comparison the number of attempts and successes count as well
StatsOk == Case.nostat \/
           (/\ Len(O.stats) = Len(sout)
            /\ \A k \in 1..Len(sout) : O.stats[k][1] = sout[k].t /\ O.stats[k][2] = sout[k].v)

ClauseNames == <<"traj", "hist", "fes", "dft", "dfv", "pdt", "pdv", "statt", "stats", "figs">>
Ok(k) == CASE k = "traj" -> TrajOk [] k = "hist" -> HistOk [] k = "fes" -> FesOk
           [] k = "dft" -> DfTimesOk [] k = "dfv" -> DfValsOk [] k = "pdt" -> PdTimesOk
           [] k = "pdv" -> PdValsOk [] k = "statt" -> StatTimesOk [] k = "stats" -> StatsOk
           [] k = "figs" -> FigsOk
Detail(k) == CASE k = "traj" -> <<A.tfile, O.traj>> [] k = "hist" -> <<A.hfiles, O.hist>>
               [] k = "fes" -> <<A.ffiles, O.fes>> [] k \in {"dft", "dfv"} -> <<A.dfile, O.df>>
               [] k \in {"pdt", "pdv"} -> <<A.pfile, O.pd>> [] k = "figs" -> <<A.figs, O.figs, O.pngs>>
               [] OTHER -> <<sout, O.stats>>

TCompare ==
  /\ phase = "cmp"
  /\ LET bad == {k \in 1..Len(ClauseNames) : ClauseNames[k] \in Check /\ ~Ok(ClauseNames[k])}
     IN IF bad # {} THEN LET k == CHOOSE k \in bad : \A l \in bad : k <= l
                         IN Miss(ClauseNames[k], Detail(ClauseNames[k]))
        ELSE IF Case.ended # "" THEN Miss("run-failed", Case.ended)
        ELSE IF Len(Case.steps) # Case.last THEN Miss("steps", Len(Case.steps))
        ELSE /\ PrintT(<<"ACCEPT", Case.id>>) /\ phase' = "acc"
             /\ UNCHANGED <<c, step, ws, bd, cnt, sout, A, hst, nev, flush, cid>>

Next == TLangevin \/ TBdStart \/ TBdEvent \/ TBdEnd \/ TOut \/ TNext \/ TFinal \/ TCompare
=============================================================================
