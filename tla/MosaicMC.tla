------------------------------ MODULE MosaicMC ------------------------------
(* Every history of adding (three different models, one malformed),           *)
(* finalizing and restarting, up to Depth steps.                              *)
EXTENDS Mosaic, Json
CONSTANTS Depth, Emit
VARIABLES M, steps, before
vars == <<M, steps, before>>
P == [weight |-> "ivm", ignore |-> 0, ratio |-> 1, n |-> 2, spread |-> 1, flux |-> 1]
Mod(g, e, me, d, s, v, q) ==
  [map |-> <<1, 2>>, v |-> v, q |-> q, rn |-> <<1, 2>>, sky |-> <<1, 1>>, ps |-> <<2, 1>>, fl |-> <<1, 3>>, er |-> <<1, 2>>,
   level |-> NoValue, taken |-> FALSE, group |-> g, exp |-> e, meas |-> me, dur |-> d, start |-> s, end |-> s + e]
Cat == <<Mod("a", 4, 3, 5, 10, <<1, 2>>, <<0, 0>>), Mod("a", 6, NoValue, 2, 2, <<5, 9>>, <<0, 1>>), Mod("b", 1, 1, NoValue, 30, <<7, 3>>, <<1, 0>>)>>
Init == M = New /\ steps = <<>> /\ before = New
Do(s, N) == Len(steps) < Depth /\ steps' = Append(steps, s) /\ M' = N /\ before' = M
Next == \/ \E i \in DOMAIN Cat : Do(i, Add(M, Cat[i]))
        \/ Do(10, M)              \* a malformed model
        \/ Do(20, Finalize(M))
        \/ Do(30, Reset(M))
Spec == Init /\ [][Next]_vars
Last == IF steps = <<>> THEN 0 ELSE steps[Len(steps)]
Since == LET r == {i \in DOMAIN steps : steps[i] = 30} IN IF r = {} THEN 0 ELSE Max(r)
\* what a mosaic holds is what was added since the start, before it was finalized
Holds == LET k == Since
             f == {i \in (k + 1)..Len(steps) : steps[i] = 20}
             upto == IF f = {} THEN Len(steps) ELSE Min(f)
             added == SelectSeq(SubSeq(steps, k + 1, upto), LAMBDA s : s \in DOMAIN Cat)
         IN  M.models = [i \in DOMAIN added |-> Cat[added[i]]]
Once == (Last = 20 /\ before.fin) => M = before
Closed == (Last \in DOMAIN Cat /\ before.fin) => M = before
Fresh == Last = 30 => M = New
Times == M.models # <<>> => /\ Pointings(M.models) = Cardinality(Firsts(M.models))
                            /\ Exposure(M.models) = SumOver(Groups(M.models), LAMBDA g : M.models[Min({i \in DOMAIN M.models : M.models[i].group = g})].exp)
                            /\ Start(M.models) < End(M.models)
\* adding a model that has no good pixel for an output pixel changes nothing there
Flagged == (Last \in DOMAIN Cat /\ ~before.fin /\ ~before.void) =>
              \A o \in 1..2 : Into(P, Cat[Last], o) = {} => Vsum(P, M.models, o) = Vsum(P, before.models, o) /\ Wsum(P, M.models, o) = Wsum(P, before.models, o)
\* the weighted mean lies between the values that went in
Between == \A o \in 1..2 : Wsum(P, M.models, o) > 0 =>
              \E a, b \in {Value(M.models[k], o) : k \in Contributors(P, M.models, o)} :
                 a * Wsum(P, M.models, o) <= Vsum(P, M.models, o) /\ Vsum(P, M.models, o) <= b * Wsum(P, M.models, o)
Better == \A o \in 1..2 : \A k \in Contributors(P, M.models, o) : Variance(P, M.models, "rn", o) <= Own(P, M.models[k], M.models[k].rn, o)
Emitted == /\ (Emit /\ Len(steps) = Depth) => PrintT("@@" \o ToJson([steps |-> steps]))
           /\ (Emit /\ steps = <<>>) => PrintT("@@" \o ToJson([cat |-> Cat]))
=============================================================================
