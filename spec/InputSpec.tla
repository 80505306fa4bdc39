----------------------------- MODULE InputSpec -----------------------------
(* C15: what makes an input file valid.                                     *)
(* An input is a record                                                     *)
(*   secs  : sequence of section names in the file (without DEFAULT)        *)
(*   opts  : sequence of [sec, key, val], key in lower case, sec may be     *)
(*           "DEFAULT"; val = sequence of the comma separated tokens        *)
(*   files : names of the existing files                                    *)
(* a token is [k, s, v, w, b, f]: kind (int, float, word), sign, value of   *)
(* ints, text, text in lower case, can it be used to format numbers         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Required == {"ld", "potential", "particles"}
\* an optional section may need another one
Needs == {<<"histogram", "trajectories">>, <<"fes", "histogram">>, <<"delta-f", "fes">>}
Bools == {"1", "yes", "true", "on", "0", "no", "false", "off"}
LdTypes == {"bussi-parinello", "overdamped"}
PotTypes == {"polynomial", "mueller-brown"}
BcTypes == {"periodic", "reflective"}
InitTypes == {"random-global", "random-pos", "fractions-pos"}
Approx == {"orig", "original", "add", "additive", "mult", "multiplicative"}

HasSec(f, s) == \E i \in 1..Len(f.secs) : f.secs[i] = s
InSec(f, s, k) == {i \in 1..Len(f.opts) : f.opts[i].sec = s /\ f.opts[i].key = k}
\* options of the DEFAULT section are seen by all sections
Idx(f, s, k) == IF InSec(f, s, k) # {} THEN InSec(f, s, k) ELSE InSec(f, "DEFAULT", k)
Has(f, s, k) == Idx(f, s, k) # {}
Val(f, s, k) == f.opts[CHOOSE i \in Idx(f, s, k) : TRUE].val
Word(f, s, k) == IF Has(f, s, k) /\ Len(Val(f, s, k)) = 1 THEN Val(f, s, k)[1].w ELSE "-"
Num(f, s, k) == IF Has(f, s, k) /\ Len(Val(f, s, k)) = 1 /\ Val(f, s, k)[1].k = "int" THEN Val(f, s, k)[1].v ELSE 0

IsInt(t) == t.k = "int"
IsNum(t) == t.k \in {"int", "float"}
TypeOk(v, ty) ==
  CASE ty = "int" -> Len(v) = 1 /\ IsInt(v[1])
    [] ty = "float" -> Len(v) = 1 /\ IsNum(v[1])
    [] ty = "bool" -> Len(v) = 1 /\ v[1].b \in Bools
    [] ty = "ints" -> \A i \in 1..Len(v) : IsInt(v[i])
    [] ty = "floats" -> \A i \in 1..Len(v) : IsNum(v[i])
    [] OTHER -> TRUE
CondOk(v, c) ==
  CASE c = "any" -> TRUE
    [] c = "pos" -> \A i \in 1..Len(v) : v[i].s > 0
    [] c = "nonneg" -> \A i \in 1..Len(v) : v[i].s >= 0
    [] c = "weights" -> (\A i \in 1..Len(v) : v[i].s >= 0) /\ \E i \in 1..Len(v) : v[i].s > 0
    [] c = "pair" -> Len(v) = 2
    [] c = "format" -> Len(v) = 1 /\ v[1].f
    [] c = "dim" -> v[1].v \in 1..3
    [] c = "ldtype" -> Len(v) = 1 /\ v[1].w \in LdTypes
    [] c = "pottype" -> Len(v) = 1 /\ v[1].w \in PotTypes
    [] c = "bctype" -> Len(v) = 1 /\ v[1].w \in BcTypes
    [] c = "inittype" -> Len(v) = 1 /\ v[1].w \in InitTypes
    [] c = "approx" -> Len(v) = 1 /\ v[1].w \in Approx \cup {""}  \* empty: not given

NDim(f) == IF Word(f, "potential", "type") = "mueller-brown" THEN 2 ELSE Num(f, "potential", "n_dim")

O(k, ty, req, c) == [key |-> k, ty |-> ty, req |-> req, c |-> c]
Writer == {O("stride", "int", FALSE, "pos"), O("write-stride", "int", FALSE, "pos"),
           O("filename", "str", FALSE, "any"), O("fmt", "str", FALSE, "format")}
Numbered(f, s, pre, suf(_)) == {i \in 1..9 : \A j \in 1..i : Has(f, s, suf(j))}
PosKey(j) == <<"pos1", "pos2", "pos3", "pos4", "pos5", "pos6", "pos7", "pos8", "pos9">>[j]
MinKey(j) == <<"state1-min", "state2-min", "state3-min", "state4-min", "state5-min", "state6-min",
               "state7-min", "state8-min", "state9-min">>[j]
MaxKey(j) == <<"state1-max", "state2-max", "state3-max", "state4-max", "state5-max", "state6-max",
               "state7-max", "state8-max", "state9-max">>[j]
NPos(f) == Cardinality(Numbered(f, "particles", "", PosKey))
NMin(f, s) == Cardinality(Numbered(f, s, "", MinKey))
NMax(f, s) == Cardinality(Numbered(f, s, "", MaxKey))
States(f, s) == {O(MinKey(i), "floats", TRUE, "any") : i \in 1..NMin(f, s)}
                \cup {O(MaxKey(i), "floats", TRUE, "any") : i \in 1..NMax(f, s)}

\* the options that section s understands
Table(f, s) ==
  LET nd == NDim(f) IN
  CASE s = "ld" ->
        {O("type", "str", TRUE, "ldtype"), O("timestep", "float", TRUE, "nonneg"),
         O("n_steps", "int", TRUE, "pos"), O("seed", "int", FALSE, "nonneg")}
        \cup (IF Word(f, "ld", "type") = "bussi-parinello"
              THEN {O("kt", "float", TRUE, "pos"), O("friction", "float", TRUE, "nonneg")} ELSE {})
    [] s = "potential" ->
        {O("type", "str", TRUE, "pottype"), O("boundary-condition", "str", FALSE, "bctype")}
        \cup (IF Word(f, "potential", "type") = "mueller-brown"
              THEN {O("scaling-factor", "float", FALSE, "any"), O("n_dim", "int", FALSE, "any")}
              ELSE {O("n_dim", "int", TRUE, "dim")} \cup
                IF nd = 1 THEN {O("min", "float", TRUE, "any"), O("max", "float", TRUE, "any"),
                                O("coeffs", "floats", ~Has(f, s, "coeffs-file"), "any")}
                ELSE {O("min", "floats", TRUE, "any"), O("max", "floats", TRUE, "any"),
                      O("coeffs-file", "str", TRUE, "any")})
    [] s = "particles" ->
        {O("number", "int", TRUE, "pos"), O("mass", "float", FALSE, "pos"), O("seed", "int", FALSE, "nonneg"),
         O("initial-distribution", "str", TRUE, "inittype")}
        \cup (IF Word(f, s, "initial-distribution") \in {"random-pos", "fractions-pos"}
              THEN {O(PosKey(i), "floats", TRUE, "any") : i \in 1..NPos(f)} ELSE {})
        \cup (IF Word(f, s, "initial-distribution") = "fractions-pos" THEN {O("fractions", "floats", TRUE, "weights")} ELSE {})
    [] s = "birth-death" ->
        {O("stride", "int", TRUE, "pos"), O("exponential-factor", "float", FALSE, "pos"),
         O("correction-variant", "str", FALSE, "approx"), O("approximation-variant", "str", FALSE, "approx"),
         O("recalculate-probabilities", "bool", FALSE, "any"), O("stats-stride", "int", FALSE, "pos"),
         O("stats-filename", "str", FALSE, "any"), O("seed", "int", FALSE, "nonneg"),
         O("kernel-bandwidth", IF nd = 1 THEN "float" ELSE "floats", TRUE, "pos")}
    [] s = "trajectories" -> Writer \cup {O("momentum", "bool", FALSE, "any")}
    [] s = "histogram" ->
        Writer \cup {O("reset", "ints", FALSE, "pos")}
        \cup (IF nd = 1 THEN {O("min", "float", TRUE, "any"), O("max", "float", TRUE, "any"), O("bins", "int", TRUE, "pos")}
              ELSE {O("min", "floats", TRUE, "any"), O("max", "floats", TRUE, "any"), O("bins", "ints", TRUE, "pos")})
    [] s = "fes" ->
        Writer \cup {O("kt", "float", TRUE, "pos"), O("plot-stride", "int", FALSE, "any"),
                     O("plot-filename", "str", FALSE, "any"), O("plot-domain", "floats", FALSE, "pair"),
                     O("plot-title", "str", FALSE, "any")}
    [] s \in {"delta-f", "particle-distribution"} -> Writer \cup States(f, s)
    [] OTHER -> {}

Known == Required \cup {"birth-death", "trajectories", "histogram", "fes", "delta-f", "particle-distribution"}
Present(f) == {s \in Known : HasSec(f, s)}

SecFaults(f) == {<<"section", s, "">> : s \in {r \in Required : ~HasSec(f, r)}}
                \cup {<<"section", n[2], "">> : n \in {m \in Needs : HasSec(f, m[1]) /\ ~HasSec(f, m[2])}}
OptFaults(f) ==
  UNION {UNION {IF ~Has(f, s, o.key) THEN (IF o.req THEN {<<"missing", s, o.key>>} ELSE {})
                ELSE IF ~TypeOk(Val(f, s, o.key), o.ty) THEN {<<"type", s, o.key>>}
                ELSE IF ~CondOk(Val(f, s, o.key), o.c) THEN {<<"range", s, o.key>>} ELSE {}
                : o \in Table(f, s)} : s \in Present(f)}
\* number of values against dimensions (only judged where the values themselves are fine)
LenIs(f, s, k, n) == ~Has(f, s, k) \/ Len(Val(f, s, k)) = n
DimFaults(f) ==
  LET nd == NDim(f)
      bad(s, ks, n) == {<<"dimension", s, k>> : k \in {q \in ks : ~LenIs(f, s, q, n)}}
      P == Present(f)
  IN IF nd \notin 1..3 THEN {} ELSE
     (IF "potential" \in P /\ Word(f, "potential", "type") = "polynomial" THEN bad("potential", {"min", "max"}, nd) ELSE {})
     \cup (IF "birth-death" \in P THEN bad("birth-death", {"kernel-bandwidth"}, nd) ELSE {})
     \cup (IF "histogram" \in P THEN bad("histogram", {"min", "max", "bins"}, nd) ELSE {})
     \cup UNION {IF s \in P THEN bad(s, {MinKey(i) : i \in 1..NMin(f, s)} \cup {MaxKey(i) : i \in 1..NMax(f, s)}, nd)
                 ELSE {} : s \in {"delta-f", "particle-distribution"}}
     \cup (IF "particles" \in P /\ Word(f, "particles", "initial-distribution") \in {"random-pos", "fractions-pos"}
           THEN bad("particles", {PosKey(i) : i \in 1..NPos(f)}, nd) ELSE {})
\* numbers of states and positions, files
NumFaults(f) ==
  LET P == Present(f)
      dist == Word(f, "particles", "initial-distribution")
      usesFile == "potential" \in P /\ Word(f, "potential", "type") = "polynomial" /\ Has(f, "potential", "coeffs-file")
                  /\ ~(NDim(f) = 1 /\ Has(f, "potential", "coeffs"))
  IN UNION {IF s \in P /\ (NMin(f, s) # NMax(f, s) \/ NMin(f, s) < m)
            THEN {<<"states", s, "">>} ELSE {} : <<s, m>> \in {<<"delta-f", 2>>, <<"particle-distribution", 1>>}}
     \cup (IF "particles" \in P /\ dist \in {"random-pos", "fractions-pos"} /\ NPos(f) = 0 THEN {<<"positions", "particles", "">>} ELSE {})
     \cup (IF "particles" \in P /\ dist = "fractions-pos" /\ ~LenIs(f, "particles", "fractions", NPos(f)) THEN {<<"fractions", "particles", "fractions">>} ELSE {})
     \cup (IF usesFile /\ Word(f, "potential", "coeffs-file") \notin {f.files[i] : i \in 1..Len(f.files)} THEN {<<"file", "potential", "coeffs-file">>} ELSE {})

\* options that only make sense together
ComboFaults(f) ==
  LET P == Present(f)
      writes(s) == Has(f, s, "write-stride")
      file(s) == Has(f, s, "filename")
      every(s) == Has(f, s, "stride")
      mult(s) == Num(f, s, "stride") <= 0 \/ Num(f, s, "write-stride") % Num(f, s, "stride") = 0
      rec(s) == s \in P /\ every(s) /\ writes(s) /\ (~file(s) \/ ~mult(s))
  IN {<<"combination", s, "write-stride">> : s \in
        {x \in {"histogram", "fes", "delta-f", "particle-distribution"} :
           IF x = "histogram" THEN x \in P /\ writes(x) /\ ~file(x)
           ELSE IF x = "fes" THEN x \in P /\ writes(x) /\ ~(file(x) /\ every(x))
           ELSE rec(x)}}
     \cup (IF "fes" \in P /\ Num(f, "fes", "plot-stride") # 0 /\ ~(every("fes") /\ Has(f, "fes", "plot-filename"))
           THEN {<<"combination", "fes", "plot-stride">>} ELSE {})

Faults(f) == SecFaults(f) \cup OptFaults(f) \cup DimFaults(f) \cup NumFaults(f) \cup ComboFaults(f)
Valid(f) == Faults(f) = {}
\* faults whose option or section the message has to name
Named == {"section", "missing", "type", "range"}
\* what the message may name
Names(f) == {IF x[1] = "section" THEN x[2] ELSE x[3] : x \in Faults(f)}
MustName(f) == \A x \in Faults(f) : x[1] \in Named

\* random numbers of the dynamics in n_steps steps
Draws(f) == Num(f, "ld", "n_steps") * Num(f, "particles", "number") * NDim(f)
            * (IF Word(f, "ld", "type") = "overdamped" THEN 1 ELSE 2)
=============================================================================
