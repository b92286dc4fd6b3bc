------------------------------ MODULE LikelyMC ------------------------------
(* All small ramps of averaged groups, with every arrangement of flags: what  *)
(* is rejected and what the fit of the rest gives. One state per ramp.          *)
EXTENDS Likely, Json
CONSTANTS N, Kinds, Steps, Emit
VARIABLES k, d, q
vars == <<k, d, q>>
\* read-outs: single reads apart; groups of two; uneven
Patterns == <<[i \in 1..N |-> <<2 * i>>], [i \in 1..N |-> <<2 * i - 1, 2 * i>>],
              [i \in 1..N |-> IF i % 2 = 1 THEN <<4 * i - 3>> ELSE <<4 * i - 5, 4 * i - 4, 4 * i - 3, 4 * i - 2>>]>>
P == [times |-> Patterns[1 + (k % 3)], t1 |-> IF k < 3 THEN 2025 ELSE 900, t2 |-> IF k < 3 THEN 2380 ELSE 1183]
X == [v |-> [i \in 1..N |-> FoldSet(LAMBDA j, a : a + IF d[j] = 0 THEN -5 ELSE d[j], 0, 1..i)], q |-> q, rn2 |-> IF k < 3 THEN 60 ELSE 20, g |-> IF k < 3 THEN 1 ELSE 5,
      dk |-> 0, pdq |-> 0]
Init == k \in Kinds /\ d \in [1..N -> Steps] /\ d[1] = 12 /\ q = <<>>
Next == q = <<>> /\ q' \in [1..N -> {0, 4}] /\ UNCHANGED <<k, d>>
Spec == Init /\ [][Next]_vars
Ok == q # <<>> =>
  LET p == P x == TLCEval(X) G == Geometry(p)
      S0 == Usable(x)
      K0 == Cov(G, x, Guess(G, x, S0))
      W == TLCEval(Rejected(G, p, x, K0, S0))
      all == Chi(G, x, K0, S0)
      D == Diffs(x)
      even == \A i, j \in S0 : D[i] * G.dt[j] = D[j] * G.dt[i]
      other == TLCEval([x EXCEPT !.v = [i \in 1..N |-> IF q[i] # 0 THEN 5000 - 900 * i ELSE x.v[i]]])
      higher == TLCEval([x EXCEPT !.v = [i \in 1..N |-> x.v[i] + 377]])
  IN  /\ W # {}
      \* a ramp that rises steadily over the usable groups loses nothing
      /\ (even => W = {S0} /\ all <= 4)
      /\ (Cardinality(S0) <= 1 => W = {S0})
      /\ \A S \in W :
           /\ S \subseteq S0 /\ (S0 # {} => S # {})
           \* rejection pays, and stops when it does not pay any more
           /\ LET c == Chi(G, x, K0, S) IN
              /\ c >= 0
              /\ S # S0 => all - c >= p.t1 - 2 * Tolerance(all)
              /\ Cardinality(S) > 3 => \A i \in S : c - Chi(G, x, K0, S \ {i}) <= p.t1 + 2 * Tolerance(c)
           /\ LET R == Fitted(G, x, S, S0) IN
              /\ R.none = (S = {})
              /\ R.vp >= -2 /\ R.vr >= 0
              /\ (even /\ S # {}) => \A i \in S : Abs(R.slope - (144000 * D[i]) \div G.dt[i]) <= 4 + Abs(R.slope) \div 2000
              \* more differences, less noise of reading
              /\ \A i \in S : S # {i} => Fitted(G, x, {i}, S0).vr + 2 >= (R.vr * 95) \div 100 \/ R.vp > R.vr
              \* without photons: the line of least squares through single reads
              /\ (S = 1..G.n /\ p.times[1] = <<2>> /\ Guess(G, x, S0) = 0 /\ R.vp = 0)
                   => LET n == N num == FoldSet(LAMBDA i, a : a + (2 * i - n - 1) * x.v[i], 0, 1..n) den == FoldSet(LAMBDA i, a : a + (2 * i - n - 1) * (2 * i - n - 1), 0, 1..n)
                      IN  Abs(R.slope - (1000 * num) \div den) <= 6 + Abs(R.slope) \div 500
              \* values of flagged groups and the level of the ramp do not matter
              /\ (\E i \in 1..N : q[i] # 0) => Fitted(G, other, S, S0) = R
              /\ Fitted(G, higher, S, S0) = R
      /\ (\E i \in 1..N : q[i] # 0) => Rejected(G, p, other, Cov(G, other, Guess(G, other, S0)), S0) = W
Emitted == (Emit /\ q # <<>>) => PrintT("@@" \o ToJson([k |-> k, p |-> P, x |-> X]))
=============================================================================
