----------------------------- MODULE OutlierMC -----------------------------
(* Every image of NR x NC pixels over a few values, tested in two passes;     *)
(* and every list of weights, clipped step by step.                            *)
EXTENDS Outlier, Json
CONSTANTS NR, NC, Emit
VARIABLES set, m, off, err, first, mask, x, kept, k
vars == <<set, m, off, err, first, mask, x, kept, k>>
P == [nc |-> NC, snr1 |-> set[1], snr2 |-> set[2], scale1 |-> set[3], scale2 |-> set[4], backg |-> set[5]]
Px == 1..(NR * NC)
Sci == [j \in Px |-> IF off[j] = NoValue THEN NoValue ELSE IF m[j] = NoValue THEN 7 ELSE m[j] + off[j]]
Settings == {<<16, 8, 4, 2, 0>>, <<12, 12, 0, 0, 0>>, <<8, 4, 2, 1, 3>>}
Init == \/ /\ set \in Settings /\ m \in [Px -> {0, 4, NoValue}] /\ off \in [Px -> {0, 3, 9}]
           /\ err \in {[j \in Px |-> 1], [j \in Px |-> IF j = 2 THEN NoValue ELSE 2]}
           /\ Cardinality({j \in Px : m[j] = NoValue}) <= 1
           /\ first = {} /\ mask = {} /\ k = 0 /\ x = <<>> /\ kept = {}
        \/ /\ set = <<>> /\ m = <<>> /\ off = <<>> /\ err = <<>> /\ first = {} /\ mask = {} /\ k = 10
           /\ x \in {[i \in 1..(a + b + 2) |-> IF i <= a THEN 3 ELSE IF i <= a + b THEN 4 ELSE IF i = a + b + 1 THEN u ELSE v] :
                     a \in 4..14, b \in 0..4, u \in {0, 5, 9, 40}, v \in {NoValue, 7, 100}}
           /\ kept = Weighed(x)
One == k = 0 /\ first' = First(P, Sci, err, m) /\ k' = 1 /\ UNCHANGED <<set, m, off, err, mask, x, kept>>
Two == k = 1 /\ mask' = Near(P, first, Px) \cap Second(P, Sci, err, m) /\ k' = 2 /\ UNCHANGED <<set, m, off, err, first, x, kept>>
Clipping == k \in 10..14 /\ kept' = ClipStep(x, kept) /\ k' = (IF kept' = kept THEN 15 ELSE k + 1)
            /\ UNCHANGED <<set, m, off, err, first, mask, x>>
Next == One \/ Two \/ Clipping
Spec == Init /\ [][Next]_vars
Result == k = 2 => mask = Resampled(P, Sci, err, m)
Invalid == \A j \in mask : m[j] # NoValue /\ off[j] # NoValue
\* with the laxer second thresholds, whatever stands off in the first test is flagged
Kept == (k = 2 /\ set[2] <= set[1] /\ set[4] <= set[3]) => first \subseteq mask
Close == k = 2 => \A j \in mask : \E i \in first : i \in Around(P, Px, j)
None == (k = 2 /\ first = {}) => mask = {}
Clipped == (k = 15) => kept = Clip(x, Weighed(x), 5)
Some == (k > 10 /\ Weighed(x) # {}) => kept # {}
Emitted == (k = 2 /\ Emit) => PrintT("@@" \o ToJson([set |-> set, m |-> m, sci |-> Sci, err |-> err]))
=============================================================================
