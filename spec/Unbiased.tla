------------------------------ MODULE Unbiased ------------------------------
(* C09: the distribution of the results of a birth-death round.             *)
(* The walkers with events are processed in uniformly random order, every   *)
(* partner is uniform among the other walkers.  For one recorded case       *)
(* (positions, random numbers deciding about events) the exact probability  *)
(* of every possible result is computed by enumerating all orders and       *)
(* partners; the observed frequencies have to agree with it.                *)
EXTENDS Rates, Json
VARIABLES cid, done
Trace == ndJsonDeserialize("trace.ndjson")
Case == Trace[cid]
cc == Case.cfg
N == Len(Case.x)
WsOf(lab) == [i \in 1..N |-> [x |-> Case.x[lab[i]], p |-> <<>>]]

Only(s) == IF Cardinality(s) = 1 THEN CHOOSE v \in s : TRUE ELSE Assert(FALSE, <<"ambiguous", Case.id, s>>)
Acc(b, i) == Only(Accepts(cc, b[i], Case.u[i]))
Sign(b, i) == Only(Signs(cc, b[i]))

RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
RECURSIVE IPow(_, _)
IPow(b, e) == IF e = 0 THEN 1 ELSE b * IPow(b, e - 1)
D(k) == Fact(k) * IPow(N - 1, k)     \* k: number of processed walkers

Get(f, o) == IF o \in DOMAIN f THEN f[o] ELSE 0
Merge(f, g) == [o \in DOMAIN f \union DOMAIN g |-> Get(f, o) + Get(g, o)]
Empty == [o \in {} |-> 0]
MergeAll(S_, F(_)) == FoldLeft(LAMBDA a, e : Merge(a, F(e)), Empty, SetToSeq(S_))

\* default mode: rem = walkers with events left, wt = weight of this path
RECURSIVE Bulk(_, _, _, _, _)
Bulk(b, rem, killed, lab, wt) ==
  IF rem = {} THEN lab :> wt
  ELSE LET w1 == ExDiv(wt, Cardinality(rem))
       IN MergeAll(rem, LAMBDA i :
            IF i \in killed THEN Bulk(b, rem \ {i}, killed, lab, w1)
            ELSE MergeAll((1..N) \ {i}, LAMBDA j :
                   LET w2 == ExDiv(w1, N - 1)
                   IN IF Sign(b, i) = 1
                      THEN Bulk(b, rem \ {i}, killed \union {i}, [lab EXCEPT ![i] = lab[j]], w2)
                      ELSE Bulk(b, rem \ {i}, killed \union {j}, [lab EXCEPT ![j] = lab[i]], w2)))

\* all walkers are processed, those in `quiet' never have an event (their random number
\* is beyond every rate): they only take a place in the order, which does not matter
RECURSIVE Recalc(_, _, _)
Recalc(rem, lab, wt) ==
  IF rem = {} THEN lab :> wt
  ELSE LET w1 == ExDiv(wt, Cardinality(rem))
           b == Betas(cc, WsOf(lab))
       IN MergeAll(rem, LAMBDA i :
            IF ~Acc(b, i) THEN Recalc(rem \ {i}, lab, w1)
            ELSE MergeAll((1..N) \ {i}, LAMBDA j :
                   LET w2 == ExDiv(w1, N - 1)
                   IN IF Sign(b, i) = 1 THEN Recalc(rem \ {i}, [lab EXCEPT ![i] = lab[j]], w2)
                                        ELSE Recalc(rem \ {i}, [lab EXCEPT ![j] = lab[i]], w2)))

Id == [i \in 1..N |-> i]
NEVER == 100000000
Active == {i \in 1..N : Case.u[i] # NEVER}
Expected ==
  LET b == Betas(cc, WsOf(Id))
  IN IF cc.bd.recalc = 0
     THEN LET ev == {i \in Active : Acc(b, i)} IN [k |-> Cardinality(ev), f |-> Bulk(b, ev, {}, Id, D(Cardinality(ev)))]
     ELSE [k |-> Cardinality(Active), f |-> Recalc(Active, Id, D(Cardinality(Active)))]

Total == SumSeq([k \in 1..Len(Case.seen) |-> Case.seen[k][2]])
SeenOf(o) == SumSeq([k \in 1..Len(Case.seen) |-> IF Case.seen[k][1] = o THEN Case.seen[k][2] ELSE 0])
\* more than about 5.5 standard deviations off
Far(obs, exp) == (obs - exp) * (obs - exp) > 30 * (exp + 9)

(* Rounds in which every walker has an event of its own (default mode), of    *)
(* too many walkers for the enumeration: only the numbers of duplications and *)
(* removals are judged.  a / k: walkers left that duplicate / die and have    *)
(* not been overwritten; the next one of them is uniform, the victim of a     *)
(* duplication uniform among the other walkers; d, e: events so far.          *)
ONE == 1000000
Part(w, f, g) == RDiv(w * f, g)
Step1(st, w) ==
  LET a == st[1]  k == st[2]
      up == Part(w, a, a + k)
      q == <<a - 2, k, st[3] + 1, st[4]>> :> Part(up, a - 1, N - 1)
      r == <<a - 1, k - 1, st[3] + 1, st[4]>> :> Part(up, k, N - 1)
      s == <<a - 1, k, st[3] + 1, st[4]>> :> Part(up, N - a - k, N - 1)
      t == <<a, k - 1, st[3], st[4] + 1>> :> (w - up)
      Some(f) == [o \in {v \in DOMAIN f : f[v] > 0} |-> f[o]]
  IN Merge(Merge(Some(q), Some(r)), Merge(Some(s), Some(t)))
Left(f) == {st \in DOMAIN f : st[1] + st[2] > 0}
RECURSIVE Forward(_)
Forward(f) ==
  IF Left(f) = {} THEN f
  ELSE Forward(Merge([st \in DOMAIN f \ Left(f) |-> f[st]], MergeAll(Left(f), LAMBDA st : Step1(st, f[st]))))
Counts ==
  The({ LET up == Cardinality({i \in 1..N : Sign(b, i) = -1})
        IN IF \A i \in 1..N : Acc(b, i) THEN Forward(<<up, N - up, 0, 0>> :> ONE)
           ELSE Assert(FALSE, <<"not every walker acts", Case.id>>) : b \in {Betas(cc, WsOf(Id))} })
SeenCount(d, e) == SumSeq([k \in 1..Len(Case.events) |-> IF Case.events[k][1] = <<d, e>> THEN Case.events[k][2] ELSE 0])
Rounds == SumSeq([k \in 1..Len(Case.events) |-> Case.events[k][2]])
OfCount(w) == RDiv(Rounds * RDiv(w, 10), ONE \div 10)
JudgeCounts ==
  \E f \in {Counts} :
     LET imp == {k \in 1..Len(Case.events) : <<0, 0, Case.events[k][1][1], Case.events[k][1][2]>> \notin DOMAIN f}
         far == {o \in DOMAIN f : Far(SeenCount(o[3], o[4]), OfCount(f[o]))}
     IN IF imp # {} /\ SumSeq([k \in 1..Len(Case.events) |-> IF k \in imp THEN Case.events[k][2] ELSE 0]) > 9
        THEN PrintT(<<"MISS", Case.id, "impossible-counts", Case.events[CHOOSE k \in imp : TRUE]>>)
        ELSE IF far # {} THEN LET o == CHOOSE o \in far : TRUE
                              IN PrintT(<<"MISS", Case.id, "counts", o, SeenCount(o[3], o[4]), OfCount(f[o]), Rounds>>)
        ELSE PrintT(<<"ACCEPT", Case.id>>)

Init == cid \in 1..Len(Trace) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED cid
        /\ IF Case.ended # "" THEN PrintT(<<"MISS", Case.id, "run-failed", Case.ended>>)
           ELSE IF Case.events # <<>> THEN JudgeCounts
           ELSE LET e == Expected
                    imp == {k \in 1..Len(Case.seen) : Case.seen[k][1] \notin DOMAIN e.f}
                    far == {o \in DOMAIN e.f : Far(SeenOf(o), RDiv(Total * e.f[o], D(e.k)))}
                IN IF imp # {} THEN PrintT(<<"MISS", Case.id, "impossible-result", Case.seen[CHOOSE k \in imp : TRUE]>>)
                   ELSE IF far # {} THEN LET o == CHOOSE o \in far : TRUE
                                         IN PrintT(<<"MISS", Case.id, "frequency", o, SeenOf(o), RDiv(Total * e.f[o], D(e.k)), Total>>)
                   ELSE PrintT(<<"ACCEPT", Case.id>>)
=============================================================================
