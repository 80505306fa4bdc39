------------------------------- MODULE MCOut -------------------------------
(* Exhaustive check of the output schedules: every combination of small     *)
(* strides, every possible end of the run and crash point (an invariant in  *)
(* every state is a statement about every crash point), extra trajectory    *)
(* writes at any moment.  Walker 1 moves by one unit per step, so every     *)
(* position identifies its time step and has its own histogram bin.         *)
EXTENDS BdldSim
CONSTANTS MaxStep, TStr, TWs, HStr, HWs, Resets, FStr, FWs, FPs, DStr, DMul, PStr, PMul, Files, MaxExtra
VARIABLE extra

NoResets == {<<>>}
Resets1 == {<<>>, <<4>>}
Resets2 == {<<>>, <<2>>, <<4>>, <<3, 6>>}
Off == [on |-> FALSE, file |-> FALSE, stride |-> 0, ws |-> 0, plot |-> FALSE, ps |-> 0]
Boxes == << <<<<0, 3 * S>>>>, <<<<2 * S, 100 * S>>>>, <<<<5 * S, 5 * S>>>> >>
ConfSet ==
  { [dim |-> 1, pot |-> <<>>, rlo |-> <<-100 * S>>, rhi |-> <<100 * S>>, bc |-> 0, ld |-> 0,
     dt |-> <<1, 2>>, nf |-> <<1, 1>>,
     tr |-> [on |-> TRUE, file |-> f, stride |-> ts, ws |-> tw],
     hi |-> IF hs = 0 THEN Off
            ELSE [on |-> TRUE, file |-> TRUE, stride |-> hs, ws |-> hw, reset |-> rs,
                  min |-> <<0>>, max |-> <<(MaxStep + 1) * S>>, bins |-> <<MaxStep + 1>>],
     fes |-> IF hs = 0 THEN Off ELSE [on |-> TRUE, file |-> TRUE, stride |-> fs, ws |-> fs * fw,
                                              plot |-> TRUE, ps |-> IF fs = 0 THEN 0 ELSE fp],
     df |-> IF hs = 0 THEN Off ELSE [on |-> TRUE, file |-> TRUE, stride |-> ds, ws |-> ds * dm, states |-> Boxes],
     pd |-> [on |-> TRUE, file |-> TRUE, stride |-> ps, ws |-> ps * pm, states |-> Boxes],
     bd |-> [on |-> FALSE, stride |-> 1, statstride |-> 0, recalc |-> 0]]
    : ts \in TStr, tw \in TWs, f \in Files, hs \in HStr, hw \in HWs, rs \in Resets,
      fs \in FStr, fw \in FWs, fp \in FPs, ds \in DStr, dm \in DMul, ps \in PStr, pm \in PMul }

Init == /\ \E conf \in ConfSet : InitWith(conf, <<[x |-> <<0>>, p |-> <<0>>], [x |-> <<5 * S>>, p |-> <<0>>]>>)
        /\ extra = 0
Next == \/ /\ \/ LangevinStep(<<<<S>>, <<0>>>>) \/ BdEnd
              \/ Traj \/ Hist \/ Fes \/ Df \/ Pd \/ Final
              \/ step < MaxStep /\ NextStep
           /\ UNCHANGED extra
        \/ extra < MaxExtra /\ flush # step /\ ExtraWrite /\ extra' = extra + 1
=============================================================================
