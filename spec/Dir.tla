-------------------------------- MODULE Dir --------------------------------
(* C16: output files in a directory that may already hold files.            *)
(* A directory is a set of <<base, n, content>>: n = 0 is the plain name,   *)
(* n = k + 1 the name bck.k.base.                                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Has(d, b, n) == \E f \in d : f[1] = b /\ f[2] = n
Free(d, b) == CHOOSE n \in 1..(Cardinality(d) + 1) : ~Has(d, b, n) /\ \A m \in 1..(n - 1) : Has(d, b, m)
\* before a file is created, an existing one of that name is renamed
Backup(d, b) == {IF f[1] = b /\ f[2] = 0 THEN <<b, Free(d, b), f[3]>> ELSE f : f \in d}
Create(d, b, c) == Backup(d, b) \cup {<<b, 0, c>>}
Grow(d, b, old, new) == (d \ {<<b, 0, old>>}) \cup {<<b, 0, new>>}
\* a whole run with the output files out = set of <<base, content>>
Run(d, out) ==
  LET bs == {o[1] : o \in out}
  IN {IF f[2] = 0 /\ f[1] \in bs THEN <<f[1], Free(d, f[1]), f[3]>> ELSE f : f \in d}
     \cup {<<o[1], 0, o[2]>> : o \in out}
=============================================================================
