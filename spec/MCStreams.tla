----------------------------- MODULE MCStreams -----------------------------
(* Two runs side by side, each with its own seeds and output sections.      *)
(* Three independent streams; the output part reads the walkers only.       *)
EXTENDS Streams, Integers
CONSTANTS Seeds, NSteps, BdStride, Outs
VARIABLES run, x, k, phase, used
\* the j-th number of the stream of section s (1 particles, 2 ld, 3 birth-death) with a seed
Rnd(s, seed, j) == ((seed + 2) * 7 + s * 13 + j * j * 5 + j * seed * 3) % 17
vars == <<run, x, k, phase, used>>
New(sp, sl, sb, o) == [cfg |-> 1, out |-> o, sp |-> sp, sl |-> sl, sb |-> sb, rand |-> FALSE,
                       init |-> 0, post |-> <<>>, end |-> <<>>, files |-> <<>>, n |-> 2, moved |-> 0, rounds |-> 0]
Init == /\ \E a, b \in Seeds \X Seeds \X Seeds \X Outs :
             run = <<New(a[1], a[2], a[3], a[4]), New(b[1], b[2], b[3], b[4])>>
        /\ x = <<<<0, 0>>, <<0, 0>>>> /\ k = 0 /\ phase = "start" /\ used = <<<<0, 0, 0>>, <<0, 0, 0>>>>
Both == {1, 2}
Start == /\ phase = "start"
         /\ x' = [i \in Both |-> <<Rnd(1, run[i].sp, 1), Rnd(1, run[i].sp, 2)>>]
         /\ run' = [i \in Both |-> [run[i] EXCEPT !.init = x'[i]]]
         /\ phase' = "ld" /\ UNCHANGED <<k, used>>
Ld == /\ phase = "ld" /\ k < NSteps
      /\ x' = [i \in Both |-> [w \in 1..2 |-> (3 * x[i][w] + Rnd(2, run[i].sl, used[i][2] + w)) % 17]]
      /\ used' = [i \in Both |-> [used[i] EXCEPT ![2] = @ + 2]]
      /\ run' = [i \in Both |-> [run[i] EXCEPT !.post = Append(@, x'[i])]]
      /\ phase' = "bd" /\ k' = k + 1
\* an event copies one walker over the other
Bd == /\ phase = "bd"
      /\ IF k % BdStride = 0
         THEN /\ x' = [i \in Both |->
                  LET u == Rnd(3, run[i].sb, used[i][3] + 1)
                  IN IF u < 5 THEN <<x[i][2], x[i][2]>> ELSE IF u < 9 THEN <<x[i][1], x[i][1]>> ELSE x[i]]
              /\ used' = [i \in Both |-> [used[i] EXCEPT ![3] = @ + 1]]
         ELSE UNCHANGED <<x, used>>
      /\ run' = [i \in Both |-> [run[i] EXCEPT !.end = Append(@, x'[i])]]
      /\ phase' = "out" /\ UNCHANGED k
\* output and analysis of this step: only reads
Write == /\ phase = "out" /\ phase' = "ld"
         /\ run' = [i \in Both |-> IF run[i].out = 0 \/ k % run[i].out # 0 THEN run[i]
                                   ELSE [run[i] EXCEPT !.files = Append(@, x[i])]]
         /\ UNCHANGED <<x, k, used>>
Next == Start \/ Ld \/ Bd \/ Write
Agree(r, q) == Conflict(r, q) \notin {"initial-walkers", "before-first-event", "motion", "files"}
Determined == phase = "out" => Agree(run[1], run[2])
NoInfluence == (phase \in {"out", "ld"} /\ run[1].sp = run[2].sp /\ run[1].sl = run[2].sl /\ run[1].sb = run[2].sb)
               => SameMotion(run[1], run[2])
=============================================================================
