------------------------------- MODULE MCList -------------------------------
(* All short histories of list operations and steps.                        *)
EXTENDS ListSpec
CONSTANTS MaxOps, MaxLen, Lds
VARIABLES c, l, n, last
vars == <<c, l, n, last>>
Conf(ld, bc) == [dim |-> 1, ld |-> ld, bc |-> bc, pot |-> <<<<1, S>>>>, rlo |-> <<-2 * S>>, rhi |-> <<2 * S>>,
                 dt |-> <<1, 2>>, nf |-> <<1, 1>>, c1 |-> <<0, 1>>, c2 |-> <<0, 1>>, mass |-> <<1, 1>>]
Ws == {NewWalker(c, <<x>>, m, m, <<x + 1>>) : x \in {0, S}, m \in {<<1, 1>>, <<2, 1>>}}
Init == (\E ld \in Lds, bc \in {0, 2} : c = Conf(ld, bc)) /\ l = <<>> /\ n = 0 /\ last = <<"start">>
Edit == \/ \E w \in Ws : Len(l) < MaxLen /\ l' = AddEnd(l, w) /\ last' = <<"add", Len(l), w>>
        \/ \E w \in Ws, i \in 0..Len(l) : Len(l) < MaxLen /\ l' = Put(l, i, w) /\ last' = <<"put", i, w>>
        \/ \E w \in Ws, i \in (-1)..(Len(l) - 1) : Has(l, i) /\ l' = Over(l, i, w) /\ last' = <<"over", At(l, i) - 1, w>>
        \/ \E i \in (-1)..(Len(l) - 1) : Has(l, i) /\ l' = Del(l, i) /\ last' = <<"del", At(l, i) - 1>>
Step == \E z \in [1..Len(l) -> {-S, S}] :
          l' = StepAll(c, l, [j \in 1..Len(l) |-> <<z[j], z[j]>>]) /\ last' = <<"step", z>>
Next == n < MaxOps /\ n' = n + 1 /\ UNCHANGED c /\ (Edit \/ Step)
Spec == Init /\ [][Next]_vars
\* an edit changes nothing but the named walker: the others keep value and order
Without(s, i) == [j \in 1..(Len(s) - 1) |-> IF j <= i THEN s[j] ELSE s[j + 1]]
OnlyThat == [][CASE last'[1] \in {"add", "put"} -> Len(l') = Len(l) + 1 /\ l'[last'[2] + 1] = last'[3] /\ Without(l', last'[2]) = l
                 [] last'[1] = "over" -> Len(l') = Len(l) /\ l'[last'[2] + 1] = last'[3] /\ Without(l', last'[2]) = Without(l, last'[2])
                 [] last'[1] = "del" -> l' = Without(l, last'[2])
                 [] OTHER -> TRUE]_vars
\* everyone takes part in a step, with its own mass, as if alone
Everyone == [][last'[1] = "step" => Len(l') = Len(l) /\ \A j \in 1..Len(l) :
                 /\ l'[j].m = l[j].m
                 /\ l'[j] = StepAll(c, <<l[j]>>, <<<<last'[2][j], last'[2][j]>>>>)[1]]_vars
Rest == \A j \in 1..Len(l) : last[1] \in {"add", "put", "over"} /\ j = last[2] + 1 => l[j].p = <<0>>
=============================================================================
