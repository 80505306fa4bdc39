------------------------------ MODULE Streams ------------------------------
(* C17/C18: which parts of a run depend on which seeds.                     *)
(* A run record r: cfg (what determines the motion), out (output sections), *)
(* sp, sl, sb (seeds of particles, ld, birth-death), and observations:      *)
(* init, post (walkers after the Langevin part of each step), end (walkers  *)
(* at the end of each step), files.                                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
First(r) == IF \E k \in 1..Len(r.end) : r.post[k] # r.end[k]
            THEN CHOOSE k \in 1..Len(r.end) : r.post[k] # r.end[k] /\ \A m \in 1..(k - 1) : r.post[m] = r.end[m]
            ELSE Len(r.end) + 1
Min(a, b) == IF a < b THEN a ELSE b
\* what a pair of runs has to have in common
SameInit(r, q) == r.init = q.init
SameMotion(r, q) == r.init = q.init /\ r.post = q.post /\ r.end = q.end
SameBeforeEvent(r, q) ==
  LET k == Min(First(r), First(q))
  IN /\ r.init = q.init
     /\ \A m \in 1..Min(k, Min(Len(r.post), Len(q.post))) : r.post[m] = q.post[m]
     /\ \A m \in 1..Min(k - 1, Min(Len(r.end), Len(q.end))) : r.end[m] = q.end[m]
     /\ Len(r.post) = Len(q.post)
SameFiles(r, q) == r.files = q.files
\* so many walkers were replaced that two independent streams cannot agree by chance
ManyEvents(r) == r.n >= 11 /\ r.moved >= 20 /\ r.rounds >= 3
Conflict(r, q) ==
  IF r.cfg # q.cfg THEN ""
  ELSE IF r.sp = q.sp /\ ~SameInit(r, q) THEN "initial-walkers"
  ELSE IF r.sp = q.sp /\ r.sl = q.sl /\ ~SameBeforeEvent(r, q) THEN "before-first-event"
  ELSE IF r.sp = q.sp /\ r.sl = q.sl /\ r.sb = q.sb /\ ~SameMotion(r, q) THEN "motion"
  ELSE IF r.sp = q.sp /\ r.sl = q.sl /\ r.sb = q.sb /\ r.out = q.out /\ ~SameFiles(r, q) THEN "files"
  \* a seed that is given is used
  ELSE IF r.sp # q.sp /\ r.rand /\ r.init = q.init THEN "particles-seed-ignored"
  ELSE IF r.sl # q.sl /\ r.sp = q.sp /\ r.post[1] = q.post[1] THEN "ld-seed-ignored"
  ELSE IF r.sb # q.sb /\ r.sp = q.sp /\ r.sl = q.sl /\ ManyEvents(r) /\ r.end = q.end THEN "birth-death-seed-ignored"
  ELSE ""
=============================================================================
