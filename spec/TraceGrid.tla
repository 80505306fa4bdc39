----------------------------- MODULE TraceGrid -----------------------------
(* Histories of grid operations.  After each operation all grids are        *)
(* compared with the model (so operands must not change).                   *)
EXTENDS GridSpec, Json
VARIABLES cid, k, gs
Trace == ndJsonDeserialize("trace.ndjson")
Case == Trace[cid]
Op == Case.log[k]
A == gs[Op.a]
B == gs[Op.b]
NAN == 888888888
Near(a, b, t) == a - b <= t /\ b - a <= t

Refused ==
  CASE Op.op = "gg" -> ~SamePoints(A, B)
    [] Op.op = "conv" -> Op.mode = "full" \/ A.st # B.st
                         \/ (Op.mode = "valid" /\ ~Covers(A, B) /\ ~Covers(B, A))
    [] Op.op = "set" -> Len(Op.vals) # Size(A.n)
    [] OTHER -> FALSE
\* the new or changed grid
Result ==
  CASE Op.op = "new" -> NewGrid(Op.lo, Op.hi, Op.n)
    [] Op.op = "step" -> StepGrid(Op.lo, Op.hi, Op.st, Op.shrink)
    [] Op.op = "copy" -> Empty(A)
    [] Op.op = "func" -> With(A, [i \in 1..Size(A.n) |-> Func(Op.c, Points(A)[i])])
    [] Op.op = "set" -> With(A, Op.vals)
    [] Op.op = "item" -> [A EXCEPT !.data[FlatOf(A.n, Op.ix)] = Op.v]
    [] Op.op = "gn" -> WithNum(Op.f, A, Op.v)
    [] Op.op = "ga" -> WithSeq(Op.f, A, Op.vals)
    [] Op.op = "gg" -> WithSeq(Op.f, A, B.data)
    [] Op.op = "neg" -> MapData(A, LAMBDA x : -x)
    [] Op.op = "plus" -> A
    [] Op.op = "sparse" -> Sparse(A, Op.max)
    [] Op.op = "conv" -> IF Op.mode = "same" THEN ConvSame(A, B) ELSE ConvValid(A, B)
InPlace == Op.op \in {"func", "set", "item"}
Query == Op.op \in {"interp", "exp", "log", "eq", "get", "dstep"}
NewGs == IF Op.refused \/ Query THEN gs ELSE IF InPlace THEN [gs EXCEPT ![Op.a] = Result] ELSE Append(gs, Result)
\* observed against model
GridOk(o, g) == /\ o.n = g.n /\ o.pts = Points(g) /\ o.data = g.data /\ o.off = 0
StoreOk(want) == Len(Op.store) = Len(want) /\ \A i \in 1..Len(want) : GridOk(Op.store[i], want[i])
QueryOk ==
  CASE Op.op = "interp" ->
         Len(Op.got) = Len(Op.qs) /\
         \A i \in 1..Len(Op.qs) :
           IF ~Inside(A, Op.qs[i]) THEN Op.got[i] = Op.fill
           ELSE Unique(A, Op.qs[i]) => Op.got[i] = Interp(A, Op.qs[i])
    [] Op.op = "exp" -> Op.pts = Points(A) /\ Len(Op.got) = Len(A.data) /\
                        \A i \in 1..Len(A.data) : Near(Op.got[i], RDiv(A.data[i] * 3125, 32), 2)
    [] Op.op = "log" -> Op.pts = Points(A) /\ Op.got = A.data
    [] Op.op = "eq" -> Op.got = (SamePoints(A, B) /\ A.data = B.data)
    \* decimal steps and ranges, all in units of 10^-u
    [] Op.op = "dstep" -> LET g == StepGrid(Op.lo, Op.hi, Op.st, Op.shrink) IN Op.got = Points(g) /\ Op.n = g.n /\ Op.off = 0
    [] Op.op = "get" -> Op.got = A.data[FlatOf(A.n, Op.ix)]
Bad == IF Op.refused # Refused THEN <<IF Refused THEN "not-refused" ELSE "failed", Op.err>>
       ELSE IF Query THEN (IF ~QueryOk THEN <<"result", Op.got>> ELSE IF ~StoreOk(gs) THEN <<"operand-changed">> ELSE <<>>)
       ELSE IF StoreOk(NewGs) THEN <<>>
       ELSE IF Len(NewGs) = Len(Op.store) /\ GridOk(Op.store[IF InPlace THEN Op.a ELSE Len(NewGs)], NewGs[IF InPlace THEN Op.a ELSE Len(NewGs)])
            THEN <<"operand-changed">>
       ELSE <<"result", IF Op.store = <<>> THEN <<>> ELSE Op.store[Len(Op.store)], NewGs[Len(NewGs)]>>
Init == cid \in 1..Len(Trace) /\ k = 1 /\ gs = <<>>
Next == /\ UNCHANGED cid
        /\ \/ /\ k > 0 /\ k <= Len(Case.log)
              /\ IF Bad = <<>> THEN k' = k + 1 /\ gs' = NewGs
                 ELSE PrintT(<<"MISS", Case.id, Op.op, k>> \o Bad) /\ k' = 0 /\ gs' = gs
           \/ k = Len(Case.log) + 1 /\ k' = -1 /\ gs' = gs
              /\ PrintT(IF Case.ended = "" THEN <<"ACCEPT", Case.id>> ELSE <<"MISS", Case.id, "run-failed", Case.ended>>)
=============================================================================
