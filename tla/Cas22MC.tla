------------------------------ MODULE Cas22MC ------------------------------
(* All small ramps: the fit of every arrangement of flags, with and without   *)
(* the search for jumps. One state per ramp.                                   *)
EXTENDS Cas22, Json
CONSTANTS N, Steps, Emit
VARIABLES k, r, q
vars == <<k, r, q>>
\* read patterns: of single reads, and of groups of reads
Pats == <<[i \in 1..N |-> <<2 * i>>], [i \in 1..N |-> IF i % 2 = 1 THEN <<4 * i - 3>> ELSE <<4 * i - 5, 4 * i - 4, 4 * i - 3, 4 * i - 2>>]>>
P(c) == [reads |-> Pats[1 + (c % 2)], rt |-> 3000, ic |-> 5500, cn |-> 333, jump |-> (c \div 2) % 2 = 1]
RN == 5
Cum(d) == [i \in 1..N |-> FoldSet(LAMBDA j, a : a + d[j], 0, 1..i)]
Init == /\ k \in 0..3
        /\ \E d \in [1..N -> Steps] : d[1] = 10 /\ r = Cum(d)
        /\ q \in [1..N -> {0, 1}]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
T == Times(P(k))
W == All(P(k), T, Taus(P(k)), r, RN, q)
Final(a) == Flagged(q, a)
\* everything that is told of one ramp
Ok ==
  LET p == P(k) t == TLCEval(Times(p)) u == TLCEval(Taus(p)) w == TLCEval(All(p, t, u, r, RN, q)) IN
  /\ w # {}
  /\ (~p.jump => \A a \in w : a.jumps = {})
  /\ \A a \in w :
       \* jumps are pairs of neighbours in one run, and what is left is exactly what is used
       /\ a.jumps \cap {i \in 1..N : q[i] # 0} = {}
       /\ \A i \in a.jumps : i - 1 \in a.jumps \/ i + 1 \in a.jumps
       /\ UNION {x[1]..x[2] : x \in a.runs} = {i \in 1..N : q[i] = 0} \ a.jumps
       /\ \A x, y \in a.runs : x = y \/ x[2] < y[1] \/ y[2] < x[1]
       \* the runs left are not split again, and are runs of the flags that come out
       /\ Runs(Flagged(q, a)) = a.runs
       /\ LET R == Result(p, t, u, r, RN, a)
          IN  /\ R.read >= 0 /\ R.pois >= 0
              /\ (R.read = 0) = (\A x \in a.runs : x[1] = x[2])
              \* a ramp that rises by the same amount from read to read has that slope
              /\ (R.read > 0 /\ \A x \in a.runs : \A i \in x[1]..(x[2] - 1) : 144 * (r[i + 1] - r[i]) = 10 * (t[i + 1] - t[i])) => Abs(R.slope - 10000) <= 20
              \* the mean over the runs lies among their slopes
              /\ \A x \in a.runs : x[2] > x[1] => Abs(Fit(p, t, u, r, RN, x[1], x[2]).slope - R.slope) <= R.spread + 200
       \* what flagged resultants hold does not matter
       /\ LET r2 == [i \in 1..N |-> IF q[i] # 0 THEN 7777 ELSE r[i]] IN All(p, t, u, r2, RN, q) = w
Emitted == Emit => PrintT("@@" \o ToJson([p |-> P(k), r |-> r, q |-> q]))
=============================================================================
