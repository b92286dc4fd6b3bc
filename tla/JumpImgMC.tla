----------------------------- MODULE JumpImgMC -----------------------------
(* A column of pixels whose rows are divided among processes, whose  *)
(* results are put together; the flags that spread over slice borders are added at the end.  *)
EXTENDS Jump, Slices, Json
CONSTANTS NR, Kinds, Emit
VARIABLES px, set, n, hits, whole, out
vars == <<px, set, n, hits, whole, out>>
F == [dnu |-> 1, sat |-> 2, jump |-> 4]
base == [F |-> F, S |-> 1, dt |-> <<1>>, nn |-> <<2>>, t |-> 8, t3 |-> 10, t2 |-> 12, onlyInts |-> FALSE,
         minGroups |-> 3, minSig |-> 1000, minPass |-> 100, mn |-> 10, mx |-> 60, e1 |-> 100, e2 |-> 10000]
Settings == {[nb |-> b, n1 |-> a, n2 |-> 0] @@ base : b \in BOOLEAN, a \in {0, 1}}
NG == 6
R(steps, q) == [rn |-> 4, ints |-> <<[d |-> [g \in 1..NG |-> IF g = 1 THEN 3 ELSE FoldSeq(LAMBDA a, b : a + b, 3, SubSeq(steps, 1, g - 1))],
                                      q |-> q]>>]
Z == <<0, 0, 0, 0, 0, 0>>
Pixel == [quiet |-> R(<<5, 5, 6, 5, 6>>, Z),
          mid   |-> R(<<5, 70, 6, 5, 6>>, Z),            \* spreads to its neighbours
          huge  |-> R(<<5, 900, 6, 5, 6>>, Z),           \* too large to spread
          grow  |-> R(<<5, 55, 56, 54, 6>>, Z),          \* large steps that are no jumps by themselves
          sat   |-> R(<<5, 70, 0, 0, 0>>, <<0, 0, 2, 2, 2, 2>>),
          dnu   |-> R(<<5, 6, 5, 6, 5>>, <<0, 0, 1, 0, 0, 0>>),
          late  |-> R(<<5, 6, 5, 6, 80>>, Z)]
P == [j \in 1..NR |-> Pixel[px[j]]]
Sl == LastTakesRest(NR, n)
Part(k) == SubSeq(P, Sl[k][1] + 1, Sl[k][1] + Sl[k][2])
Init == /\ px \in [1..NR -> Kinds] /\ set \in Settings /\ n \in 1..NR
        /\ hits = <<>> /\ whole = <<>> /\ out = <<>>
Run == /\ out = <<>>
       /\ hits' = [j \in 1..NR |-> Detect(set, "iterative", P[j]).hit]
       /\ whole' = Whole(set, 1, P).q
       /\ out' = IF n = 1 THEN whole' ELSE InSlices(set, 1, P, Sl).q
       /\ UNCHANGED <<px, set, n>>
Next == Run
Spec == Init /\ [][Next]_vars
Done == out # <<>>
J(j, g) == Has(out[j][1][g], F.jump)
Hit(j, g) == g > 1 /\ <<1, g - 1>> \in hits[j]
NeverOnUnusable == Done => \A j \in 1..NR, g \in 1..NG : J(j, g) => ~Bad(set, P[j].ints[1].q[g])
OnlyAdds == Done => \A j \in 1..NR, g \in 1..NG : Without(out[j][1][g], F.jump) = Without(P[j].ints[1].q[g], F.jump)
Local == Done => \A j \in 1..NR, g \in 1..NG : J(j, g) =>
  \/ Hit(j, g)
  \/ set.nb /\ \E k \in {j - 1, j + 1} \cap (1..NR) : Hit(k, g)
  \/ set.n1 > 0 /\ \E h \in 1..(g - 1) : g <= h + set.n1 /\ J(j, h)
Off == (Done /\ ~set.nb /\ set.n1 = 0) => \A j \in 1..NR, g \in 1..NG : J(j, g) <=> (Hit(j, g) /\ ~Bad(set, P[j].ints[1].q[g]))
\* The number of processes makes no difference, but for one thing: a large step that is no jump by itself, flagged
\* only because a jump across a slice border spread to it, is not followed by after-jump flags.
SameInSlices == Done => \A j \in 1..NR, g \in 1..NG :
  \/ J(j, g) = Has(whole[j][1][g], F.jump)
  \/ /\ set.nb /\ set.n1 > 0 /\ ~J(j, g)
     /\ \E h \in 2..(g - 1) : /\ g <= h + set.n1 /\ J(j, h) /\ ~Hit(j, h)
                              /\ \E k \in {j - 1, j + 1} \cap (1..NR) : Hit(k, h) /\
                                   \E s \in 1..n : Sl[s][1] < j /\ j <= Sl[s][1] + Sl[s][2] /\ ~(Sl[s][1] < k /\ k <= Sl[s][1] + Sl[s][2])
Emitted == (Done /\ Emit) => PrintT("@@" \o ToJson([px |-> px, nb |-> set.nb, n1 |-> set.n1, n |-> n]))
=============================================================================
