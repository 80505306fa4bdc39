----------------------------- MODULE TraceList -----------------------------
(* Histories of operations on the walkers of the real dynamics objects; the *)
(* whole list is compared after every operation.                            *)
EXTENDS ListSpec, Json
VARIABLES cid, k, l
Trace == ndJsonDeserialize("trace.ndjson")
Case == Trace[cid]
Op == Case.log[k]
c == Case.conf
W == NewWalker(c, Op.x, Op.m, Op.c2, Op.g)
Refused == CASE Op.op \in {"add", "put"} -> Len(Op.x) # c.dim
             [] Op.op = "over" -> Len(Op.x) # c.dim \/ ~Has(l, Op.i)
             [] Op.op = "del" -> ~Has(l, Op.i)
             [] OTHER -> FALSE
\* observed: position, momentum, mass, energy, force of every walker
WalkerOk(o, w) == /\ o.off = 0 /\ o.x = w.x /\ (c.pot = <<>> /\ c.bc = 0 => o.g = w.g) /\ o.p = w.p /\ o.m[1] * w.m[2] = w.m[1] * o.m[2]
                  /\ o.e = Energy(c, w.x) /\ o.f = Force(c, w.x)
\* a birth-death round: every walker is one of those before (itself if it looks like itself);
\* which ones is not judged here
Source(j) == IF WalkerOk(Op.got[j], l[j]) THEN {j} ELSE {i \in 1..Len(l) : WalkerOk(Op.got[j], l[i])}
Copies == IF Len(Op.got) # Len(l) THEN l
          ELSE [j \in 1..Len(l) |-> IF Source(j) = {} THEN l[j] ELSE l[CHOOSE i \in Source(j) : TRUE]]
Want == IF Refused THEN l
        ELSE CASE Op.op = "add" -> AddEnd(l, W)
               [] Op.op = "put" -> Put(l, Op.i, W)
               [] Op.op = "over" -> Over(l, Op.i, W)
               [] Op.op = "del" -> Del(l, Op.i)
               [] Op.op = "step" -> StepAll(c, l, Op.z)
               [] Op.op = "round" -> Copies
               [] Op.op = "touch" -> l      \* the caller changes a position it passed before
Wrong == IF Op.refused # Refused THEN IF Refused THEN "not-refused" ELSE "refused"
         ELSE IF Len(Op.got) # Len(Want) THEN "length"
         ELSE IF \E j \in 1..Len(Want) : ~WalkerOk(Op.got[j], Want[j]) THEN "walkers"
         ELSE ""
Init == cid \in 1..Len(Trace) /\ k = 1 /\ l = <<>>
Next ==
  /\ k > 0 /\ UNCHANGED cid
  /\ IF k > Len(Case.log)
     THEN /\ PrintT(IF Case.ended = "" THEN <<"ACCEPT", Case.id>> ELSE <<"MISS", Case.id, "run-failed", Case.ended>>)
          /\ k' = 0 /\ UNCHANGED l
     ELSE IF Wrong = "" THEN k' = k + 1 /\ l' = Want
     ELSE PrintT(<<"MISS", Case.id, Op.op, Wrong, k, Op, Want>>) /\ k' = 0 /\ UNCHANGED l
=============================================================================
