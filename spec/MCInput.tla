------------------------------ MODULE MCInput ------------------------------
(* Editing an input file in small steps: which edits keep it valid.         *)
EXTENDS InputSpec
CONSTANTS MaxEdits
VARIABLES f, n, last
W(t) == [k |-> "word", s |-> 0, v |-> 0, w |-> t, b |-> t, f |-> FALSE]
I(x) == [k |-> "int", s |-> IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0, v |-> x, w |-> "#", b |-> "#", f |-> FALSE]
P(s, k, v) == [sec |-> s, key |-> k, val |-> v]
Base == [secs |-> <<"ld", "potential", "particles", "trajectories", "histogram", "fes", "delta-f">>,
         files |-> <<"C">>,
         opts |-> <<P("ld", "type", <<W("overdamped")>>), P("ld", "timestep", <<I(1)>>), P("ld", "n_steps", <<I(2)>>),
                    P("potential", "type", <<W("polynomial")>>), P("potential", "n_dim", <<I(2)>>),
                    P("potential", "min", <<I(-1), I(-1)>>), P("potential", "max", <<I(1), I(1)>>),
                    P("potential", "coeffs-file", <<W("C")>>),
                    P("particles", "number", <<I(1)>>), P("particles", "initial-distribution", <<W("random-global")>>),
                    P("trajectories", "stride", <<I(1)>>),
                    P("histogram", "min", <<I(-1), I(-1)>>), P("histogram", "max", <<I(1), I(1)>>),
                    P("histogram", "bins", <<I(3), I(3)>>), P("fes", "kt", <<I(1)>>),
                    P("delta-f", "state1-min", <<I(-1), I(-1)>>), P("delta-f", "state1-max", <<I(0), I(0)>>),
                    P("delta-f", "state2-min", <<I(0), I(0)>>), P("delta-f", "state2-max", <<I(1), I(1)>>)>>]
Del(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Init == f = Base /\ n = 0 /\ last = "none"
Step(g, w) == n < MaxEdits /\ f' = g /\ n' = n + 1 /\ last' = w
Next == \/ \E i \in 1..Len(f.opts) : Step([f EXCEPT !.opts = Del(@, i)], "drop")
        \/ \E i \in 1..Len(f.secs) : Step([f EXCEPT !.secs = Del(@, i)], "dropsec")
        \/ \E i \in 1..Len(f.opts), v \in {<<I(0)>>, <<I(-1)>>, <<W("x")>>, <<I(1), I(1), I(1)>>} :
              Step([f EXCEPT !.opts[i].val = v], "set")
        \/ \E s \in {"ld", "histogram", "DEFAULT"} : Step([f EXCEPT !.opts = Append(@, P(s, "unknown", <<W("x")>>))], "unknown")
        \/ \E i \in 1..Len(f.opts) : Step([f EXCEPT !.opts = <<f.opts[i]>> \o Del(@, i)], "order")
        \/ \E i \in 1..Len(f.secs) : Step([f EXCEPT !.secs = <<f.secs[i]>> \o Del(@, i)], "order")
        \/ Step([f EXCEPT !.secs = Append(@, "notes")], "unknown")
        \/ \E s \in {"ld", "particles"} : Idx(f, s, "seed") = {} /\ Step([f EXCEPT !.opts = Append(@, P(s, "seed", <<I(0)>>))], "optional")
Spec == Init /\ [][Next]_<<f, n, last>>
BaseValid == n = 0 => Valid(f)
\* order and things the program does not know never matter
Harmless == [][last' \in {"order", "unknown"} => Faults(f') = Faults(f)]_<<f, n, last>>
Optional == [][last' = "optional" => (Valid(f) => Valid(f'))]_<<f, n, last>>
\* a missing section is always a fault; what is missing stays a fault until it is given again
Sections == (\E s \in Required : ~HasSec(f, s)) => ~Valid(f)
Chain == (HasSec(f, "delta-f") /\ ~HasSec(f, "fes")) => <<"section", "fes", "">> \in Faults(f)
NoRepair == [][last' \in {"drop", "dropsec"} /\ last = "drop" /\ n = 1 /\ ~Valid(f)
               => (Valid(f') => Present(f') # Present(f) \/ \E x \in Faults(f) : x[3] = "write-stride" \/ x[1] \in {"dimension", "states"})]_<<f, n, last>>
=============================================================================
