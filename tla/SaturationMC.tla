---------------------------- MODULE SaturationMC ----------------------------
(* Every integration of NP pixels in a row and NG groups over a few values.   *)
EXTENDS Saturation, Json
CONSTANTS NP, NG, Emit
VARIABLES set, thr, d, S, phase, g
vars == <<set, thr, d, S, phase, g>>
LOCAL NaN == 2000000001
F == [dnu |-> 1, sat |-> 2, floor |-> 64, nochk |-> 2097152]
T == 60
Vals == {0, 20, 45, 60}
Patterns == {<<>>, <<<<1>>, <<2, 3>>, <<4, 5>>, <<6>>>>, <<<<1, 2>>, <<3, 4>>, <<9, 12>>, <<13, 16>>>>}
P == [F |-> F, nc |-> NP, grow |-> set.grow, reads |-> set.reads, limit |-> 100]
Un == [j \in 1..NP |-> Unchecked(P, thr[j], 0)]
Thr == [k \in 1..NG |-> [j \in 1..NP |-> Threshold(P, thr[j], 0)]]
Bias == [j \in 1..NP |-> 10]
Init == /\ set \in [grow : {0, 1}, reads : Patterns]
        /\ thr \in [1..NP -> {T, NoValue}]
        /\ d \in [1..NG -> [1..NP -> Vals]]
        /\ S = [sat |-> {}, q |-> [k \in 1..NG |-> [j \in 1..NP |-> 0]]]
        /\ phase = "forward" /\ g = 1
Ahead == /\ phase = "forward" /\ g <= NG
         /\ S' = Forward(P, S, d, Thr, g)
         /\ IF g = NG THEN phase' = "backward" /\ g' = NG - 1 ELSE phase' = phase /\ g' = g + 1
         /\ UNCHANGED <<set, thr, d>>
Back == /\ phase = "backward"
        /\ S' = Backward(P, S, d, Thr, [k \in 1..NG |-> Un], g)
        /\ IF g = 1 THEN phase' = "second" /\ g' = 0 ELSE phase' = phase /\ g' = g - 1
        /\ UNCHANGED <<set, thr, d>>
Two == /\ phase = "second"
       /\ S' = GroupTwo(P, S, d, Thr, Bias)
       /\ phase' = "done" /\ UNCHANGED <<set, thr, d, g>>
Next == Ahead \/ Back \/ Two
Spec == Init /\ [][Next]_vars

Done == phase = "done"
Full(j, k) == \E h \in 1..k : Reaches(d[h][j], Thr[h][j])
NearFull(j, k) == \E i \in 1..NP : Abs(i - j) <= set.grow /\ Full(i, k)
Complete == Done => \A k \in 1..NG : \A j \in 1..NP : Has(S.q[k][j], F.sat) <=> NearFull(j, k)
Persistent == Done => \A k \in 1..(NG - 1) : \A j \in 1..NP : Has(S.q[k][j], F.sat) => Has(S.q[k + 1][j], F.sat)
Floor == Done => \A k \in 1..NG : \A j \in 1..NP : /\ Has(S.q[k][j], F.floor) <=> d[k][j] <= 0
                                                   /\ Has(S.q[k][j], F.floor) => Has(S.q[k][j], F.dnu)
\* beyond the floor, groups become unusable only just before a saturated group, and only with averaged reads
Unusable == Done => \A k \in 1..NG : \A j \in 1..NP : (Has(S.q[k][j], F.dnu) /\ ~Has(S.q[k][j], F.floor)) =>
               /\ set.reads # <<>> /\ k < NG
               /\ \E i \in 1..NP : Abs(i - j) <= set.grow /\ Has(S.q[k + 1][i], F.sat) /\ ~Has(S.q[k][i], F.sat)
Unchecked1 == Done => \A j \in 1..NP : (Un[j] /\ set.grow = 0) => \A k \in 1..NG : ~Has(S.q[k][j], F.sat)
OnlyAdds == [][\A k \in 1..NG : \A j \in 1..NP : Without(S.q[k][j], S'.q[k][j]) = 0]_vars
Emitted == (Done /\ Emit) => PrintT("@@" \o ToJson([set |-> set, thr |-> thr, d |-> d]))
=============================================================================
