------------------------------ MODULE FileSpec ------------------------------
(* C19: columns, header, order and number format of the output files.       *)
(* A file is [name, kind, lines]; a line is                                 *)
(*   [k |-> "h", w |-> words]           header line                         *)
(*   [k |-> "b"]                        blank line                          *)
(*   [k |-> "d", x |-> coordinates in 1/1000, t |-> tokens, len |-> length] *)
(* a token is <<class, decimals, length>>, class in f e d n(an/inf) ?       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
Max(a, b) == IF a > b THEN a ELSE b
Axis == <<"x", "y", "z">>
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Dims(f) == [d \in 1..f.dim |-> d]

\* names of the columns
Fields(f) ==
  CASE f.kind = "traj" -> <<"time">> \o [d \in 1..f.dim |-> "pos_" \o Axis[d] \o "." \o f.no]
                          \o (IF f.mom THEN [d \in 1..f.dim |-> "mom_" \o Axis[d] \o "." \o f.no] ELSE <<>>)
    [] f.kind = "hist" -> [d \in 1..f.dim |-> Axis[d]] \o <<"histo_count">>
    [] f.kind = "fes" -> [d \in 1..f.dim |-> Axis[d]] \o <<"fes">>
    [] f.kind = "df" -> <<"time">> \o [s \in 1..(f.nstates - 1) |-> "delta_f.1-" \o ToString(s + 1)]
    [] f.kind = "pd" -> <<"timestep">> \o [s \in 1..f.nstates |-> "n_particles_" \o ToString(s - 1)]
    [] f.kind = "stats" -> <<"timestep", "dup_succ", "dup_attempts", "kill_succ", "kill_attempts">>

\* the centre of bin i of dimension d in 1/1000 (all ranges are multiples that make it exact)
Centre(f, d, i) == f.lo[d] + ((2 * i - 1) * (f.hi[d] - f.lo[d])) \div (2 * f.bins[d])
NBins(f) == IF f.dim = 1 THEN f.bins[1] ELSE IF f.dim = 2 THEN f.bins[1] * f.bins[2] ELSE f.bins[1] * f.bins[2] * f.bins[3]
\* bin indices of row r, first coordinate slowest
Idx(f, r) ==
  IF f.dim = 1 THEN <<r>>
  ELSE IF f.dim = 2 THEN <<((r - 1) \div f.bins[2]) + 1, ((r - 1) % f.bins[2]) + 1>>
  ELSE <<((r - 1) \div (f.bins[2] * f.bins[3])) + 1, (((r - 1) \div f.bins[3]) % f.bins[2]) + 1, ((r - 1) % f.bins[3]) + 1>>
RowX(f, r) == [d \in 1..f.dim |-> Centre(f, d, Idx(f, r)[d])]
\* range and number of bins as the header gives them (free energy: range of the centres)
Lo(f, d) == IF f.kind = "hist" THEN f.lo[d] ELSE Centre(f, d, 1)
Hi(f, d) == IF f.kind = "hist" THEN f.hi[d] ELSE Centre(f, d, f.bins[d])
Consts(f) == UNION {{<<Axis[d] \o "_min", Lo(f, d)>>, <<Axis[d] \o "_max", Hi(f, d)>>, <<Axis[d] \o "_n_bins", f.bins[d] * 1000>>} : d \in 1..f.dim}

IsGrid(f) == f.kind \in {"hist", "fes"}
Data(f) == SelectSeq(f.lines, LAMBDA l : l.k = "d")
NHead(f) == Cardinality({i \in 1..Len(f.lines) : f.lines[i].k = "h"})
HeaderFirst(f) == NHead(f) >= 1 /\ \A i \in 1..Len(f.lines) : f.lines[i].k = "h" <=> i <= NHead(f)
HeaderNames(f) == f.lines[1].w = <<"#!", "FIELDS">> \o Fields(f)
Given(f) == {<<f.consts[i][1], f.consts[i][2]>> : i \in 1..Len(f.consts)}
HeaderConsts(f) == IsGrid(f) => Given(f) = Consts(f)
Columns(f) == \A i \in 1..Len(Data(f)) : Len(Data(f)[i].t) = Len(Fields(f))
Rows(f) == IsGrid(f) => Len(Data(f)) = NBins(f) /\ \A r \in 1..NBins(f) : Data(f)[r].x = RowX(f, r)
\* blank lines: exactly one after each block but the last (2d), none otherwise; ignoring the end of the file
LastData(f) == IF Data(f) = <<>> THEN 0 ELSE CHOOSE i \in 1..Len(f.lines) : f.lines[i].k = "d" /\ \A j \in (i + 1)..Len(f.lines) : f.lines[j].k # "d"
Blanks(f) ==
  LET want == IF IsGrid(f) /\ f.dim = 2 THEN {NHead(f) + b * (f.bins[2] + 1) : b \in 1..(f.bins[1] - 1)} ELSE {}
  IN {i \in 1..LastData(f) : f.lines[i].k = "b"} = want
\* number format <<class, decimals, width>>
TokOk(t, fmt) == \/ t[1] = "n"
                 \/ fmt[1] = "g"
                 \/ t[1] = fmt[1] /\ t[2] = fmt[2]
RECURSIVE Wide(_, _)
Wide(ts, w) == IF ts = <<>> THEN 0 ELSE Max(Head(ts)[3], w) + (IF Tail(ts) = <<>> THEN 0 ELSE 1) + Wide(Tail(ts), w)
Format(f) == \A i \in 1..Len(Data(f)) :
               LET l == Data(f)[i] IN /\ \A j \in 1..Len(l.t) : TokOk(l.t[j], f.fmt)
                                      /\ l.len = Wide(l.t, f.fmt[3])
Bad(f) == IF f.lines = <<>> THEN "empty-file"
          ELSE IF ~HeaderFirst(f) THEN "header-first"
          ELSE IF ~HeaderNames(f) THEN "column-names"
          ELSE IF ~HeaderConsts(f) THEN "header-constants"
          ELSE IF ~Columns(f) THEN "columns"
          ELSE IF ~Rows(f) THEN "bin-order"
          ELSE IF ~Blanks(f) THEN "blank-lines"
          ELSE IF ~Format(f) THEN "number-format" ELSE ""
=============================================================================
