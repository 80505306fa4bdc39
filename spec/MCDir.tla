------------------------------- MODULE MCDir -------------------------------
(* Sequences of runs (each creating and appending to some files, possibly   *)
(* dying in between) in one directory.                                      *)
EXTENDS Dir
CONSTANTS Bases, MaxRuns, MaxApp
VARIABLES d, run, mine, ever, lastOf, start
vars == <<d, run, mine, ever, lastOf, start>>
\* content = <<run, number of appends>>; 0 = before the first run
Init == /\ d \in SUBSET {<<b, n, <<0, n>>>> : b \in Bases, n \in 0..2}
        /\ run = 0 /\ mine = {} /\ ever = d /\ lastOf = [b \in Bases |-> 0] /\ start = d
NewRun == run < MaxRuns /\ run' = run + 1 /\ mine' = {} /\ start' = d /\ ever' = ever \cup d /\ UNCHANGED <<d, lastOf>>
Make(b) == /\ run > 0 /\ b \notin mine
           /\ d' = Create(d, b, <<run, 0>>) /\ mine' = mine \cup {b} /\ lastOf' = [lastOf EXCEPT ![b] = run]
           /\ UNCHANGED <<run, ever, start>>
Add(b) == /\ b \in mine
          /\ \E k \in 0..(MaxApp - 1) : <<b, 0, <<run, k>>>> \in d /\ d' = Grow(d, b, <<run, k>>, <<run, k + 1>>)
          /\ UNCHANGED <<run, mine, ever, lastOf, start>>
Next == NewRun \/ \E b \in Bases : Make(b) \/ Add(b)
\* every file that a run found is still there with its content
NothingLost == \A f \in ever : \E g \in d : g[1] = f[1] /\ g[3] = f[3]
Latest == \A b \in Bases : lastOf[b] > 0 => \E g \in d : g[1] = b /\ g[2] = 0 /\ g[3][1] = lastOf[b]
OneEach == \A f, g \in d : f[1] = g[1] /\ f[2] = g[2] => f = g
\* the order in which files are made does not matter: the state is that of one Run()
AsRun == run > 0 => d = Run(start, {<<b, (CHOOSE g \in d : g[1] = b /\ g[2] = 0)[3]>> : b \in mine})
=============================================================================
