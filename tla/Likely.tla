------------------------------- MODULE Likely -------------------------------
(* Likelihood fits of ramps of averaged groups (Brandt 2024). The data are     *)
(* differences of consecutive groups with a tridiagonal covariance; a set S of   *)
(* usable differences determines a slope, its variances and a chi-square.         *)
(* Times are in ticks, 144 to a read; groups in DN; rates in 1/1000 DN per read;   *)
(* covariances in 1/1000 DN^2; chi-squares in 1/100. Fixed-point numbers carry a   *)
(* tolerance: decisions closer than that may go either way.                         *)
(* p: times (sequence of sequences of read times, in reads), t1, t2 (limits, 1/100). *)
(* x: v (groups), q (flags), rn2 (variance of a read, DN^2), g (gain), dk (dark      *)
(* current, 1/1000 DN per read).                                                      *)
EXTENDS Cas22
\* a * x / b with large x
Scaled(a, x, b) == MulDiv(a, x, b)
Reads(p, i) == Len(p.times[i])
TBar(p, i) == (144 * Tot(Reads(p, i), LAMBDA k : p.times[i][k])) \div Reads(p, i)
TTau(p, i) == (144 * Tot(Reads(p, i), LAMBDA k : (2 * (Reads(p, i) - k) + 1) * p.times[i][k])) \div (Reads(p, i) * Reads(p, i))
\* the geometry of a read-out: everything that does not depend on the pixel
Geometry(p) ==
  LET n == Len(p.times) - 1
      t == TLCEval([i \in 1..(n + 1) |-> TBar(p, i)])
      u == TLCEval([i \in 1..(n + 1) |-> TTau(p, i)])
  IN  TLCEval([n |-> n, dt |-> [i \in 1..n |-> t[i + 1] - t[i]], num |-> [i \in 1..(n + 1) |-> Reads(p, i)],
               ar |-> [i \in 1..n |-> 12 \div Reads(p, i) + 12 \div Reads(p, i + 1)],
               br |-> [i \in 1..(n - 1) |-> -(12 \div Reads(p, i + 1))],
               ap |-> [i \in 1..n |-> u[i] + u[i + 1] - 2 * t[i]],
               bp |-> [i \in 1..(n - 1) |-> t[i + 1] - u[i + 1]]])

Usable(x) == {i \in 1..(Len(x.q) - 1) : x.q[i] = 0 /\ x.q[i + 1] = 0}
Diffs(x) == [i \in 1..(Len(x.v) - 1) |-> x.v[i + 1] - x.v[i]]

(* ---- covariances ------------------------------------------------------------ *)
Cov(G, x, rate) ==
  LET ar == [i \in 1..G.n |-> (1000 * x.rn2 * G.ar[i]) \div 12]
      br == [i \in 1..(G.n - 1) |-> -((1000 * x.rn2 * (-G.br[i])) \div 12)]
      ap == [i \in 1..G.n |-> MulDiv(rate, G.ap[i], 144 * x.g)]
      bp == [i \in 1..(G.n - 1) |-> MulDiv(rate, G.bp[i], 144 * x.g)]
  IN  TLCEval([ar |-> ar, br |-> br, ap |-> ap, bp |-> bp])
\* the matrix over S, scaled so that its largest entry is 10000
Matrix(G, K, S) ==
  LET top == Max({1} \cup {K.ar[i] + K.ap[i] : i \in S})
      sc(v) == IF top < 200000 THEN (IF v < 0 THEN -((-v) * 10000) \div top ELSE (v * 10000) \div top) ELSE Quot(v, top, <<10, 10, 10, 10>>)
  IN  TLCEval([top |-> top,
               a |-> [i \in 1..G.n |-> IF i \in S THEN Top(1, sc(K.ar[i] + K.ap[i])) ELSE 10000],
               b |-> [i \in 1..(G.n - 1) |-> IF i \in S /\ i + 1 \in S THEN sc(K.br[i] + K.bp[i]) ELSE 0]])
\* 4000 * inverse of the matrix, times r (|r| <= 10000)
Pivots(M, n) == LET m[i \in 1..n] == IF i = 1 THEN M.a[1] ELSE M.a[i] - (M.b[i - 1] * M.b[i - 1]) \div m[i - 1] IN TLCEval([i \in 1..n |-> Top(1, m[i])])
Solve(M, n, r) ==
  LET m == Pivots(M, n)
      f[i \in 1..n] == IF i = 1 THEN r[1] ELSE r[i] - MulDiv(f[i - 1], M.b[i - 1], m[i - 1])
      z[i \in 1..n] == IF i = n THEN Quot(f[n], m[n], <<20, 20, 10>>)
                       ELSE Quot(f[i], m[i], <<20, 20, 10>>) - MulDiv(z[i + 1], M.b[i], m[i])
  IN  TLCEval([i \in 1..n |-> z[i]])
Largest(s) == Max({1} \cup {Abs(s[i]) : i \in DOMAIN s})
Norm(s) == LET m == Largest(s) IN TLCEval([i \in DOMAIN s |-> IF m < 10000 THEN (s[i] * 10000) \div m ELSE Quot(s[i], m, <<10, 10, 10, 10>>)])
Dot(n, a, b) == Tot(n, LAMBDA i : (a[i] * b[i]) \div 8)

(* ---- fits ------------------------------------------------------------------- *)
\* weights of the differences of S in the slope
Weights(G, K, S) ==
  LET M == Matrix(G, K, S) IN Norm(Solve(M, G.n, Norm([i \in 1..G.n |-> IF i \in S THEN G.dt[i] ELSE 0])))
Rate(G, x, S, g) ==
  LET D == Diffs(x)
      num == TotOn(S, LAMBDA i : g[i] * D[i])
      den == TotOn(S, LAMBDA i : g[i] * G.dt[i])
  IN  Quot(num, den, <<12, 12, 10, 10, 10>>)
Chi(G, x, K, S) ==
  IF S = {} THEN 0
  ELSE LET s == Rate(G, x, S, Weights(G, K, S))
           D == Diffs(x)
           R == TLCEval([i \in 1..G.n |-> IF i \in S THEN 100 * D[i] - MulDiv(s, G.dt[i], 1440) ELSE 0])
           r == Norm(R)
           M == Matrix(G, K, S)
           e == Dot(G.n, r, [i \in 1..G.n |-> (Solve(M, G.n, r))[i] \div 4]) \div 125
           sk == IF M.top < 2000000 THEN ISqrt(1024 * M.top) ELSE 32 * ISqrt(M.top)
           rho == Quot(Largest(R), sk, <<32, 10, 10>>)
       IN  IF \A i \in S : R[i] = 0 THEN 0 ELSE MulDiv(MulDiv(e, rho, 10000), rho, 1000)
Tolerance(c) == 8 + c \div 100

(* ---- rejection of differences ----------------------------------------------- *)
Median(T) == LET n == Len(T) IN IF n = 0 THEN 0 ELSE IF n % 2 = 1 THEN T[(n + 1) \div 2] ELSE (T[n \div 2] + T[n \div 2 + 1]) \div 2
Rates(G, x, S) == LET D == Diffs(x) IN [i \in S |-> Quot(D[i], G.dt[i], <<12, 12, 10, 10, 10>>)]
RECURSIVE Sorted(_, _)
Sorted(f, S) == IF S = {} THEN <<>> ELSE LET i == CHOOSE i \in S : \A j \in S : f[i] < f[j] \/ (f[i] = f[j] /\ i <= j) IN <<f[i]>> \o Sorted(f, S \ {i})
Guess(G, x, S) == Top(0, Median(Sorted(Rates(G, x, S), S)))

Next1(S, i) == IF i \in S /\ i + 1 \in S THEN {i, i + 1} ELSE S \cap {i, i + 1}
\* the sets that may be left by one round of rejection from S; S itself: nothing rejected
Rounds(G, p, x, K, S) ==
  IF Cardinality(S) <= 1 THEN {S}
  \* nothing tells which of two differences is good
  ELSE IF Cardinality(S) = 2 THEN LET all == Chi(G, x, K, S) IN {S} \cup IF all >= p.t1 - Tolerance(all) THEN {{i} : i \in S} ELSE {}
  ELSE LET all == Chi(G, x, K, S)
           one == TLCEval([i \in S |-> all - Chi(G, x, K, S \ {i})])
           Pairs == {i \in 1..(G.n - 1) : G.num[i + 1] > 1}
           two == TLCEval([i \in Pairs |-> LET c == Next1(S, i) IN IF c = {} THEN 0 ELSE IF Cardinality(c) = 1 THEN one[CHOOSE j \in c : TRUE] ELSE all - Chi(G, x, K, S \ c)])
           tol == Tolerance(all)
           b1 == Max({0} \cup {one[i] : i \in S})
           b2 == Max({0} \cup {two[i] : i \in Pairs})
           first == b1 - p.t1 - (b2 - p.t2)
           c1 == {i \in S : one[i] >= b1 - tol}
           c2 == {Next1(S, i) : i \in {j \in Pairs : two[j] >= b2 - tol}} \ {{}}
           lone == first >= -tol
           pair == first <= tol
       IN  (IF (lone /\ b1 <= p.t1 + tol) \/ (pair /\ b2 <= p.t2 + tol) THEN {S} ELSE {})
           \cup (IF lone /\ b1 >= p.t1 - tol THEN {S \ {i} : i \in c1} ELSE {})
           \cup (IF pair /\ b2 >= p.t2 - tol THEN {S \ C : C \in c2} ELSE {})
RECURSIVE Rejected(_, _, _, _, _)
Rejected(G, p, x, K, S) ==
  UNION {IF T = S \/ Cardinality(T) <= 3 THEN {T} ELSE Rejected(G, p, x, K, T) : T \in Rounds(G, p, x, K, S)}

\* vpa, vra: sums without the correlations, to which the rounding of the variances is relative
(* ---- the result ---------------------------------------------------------------- *)
\* fit of the differences S that are left, with the noise that the first estimate of the rate implies
Fitted(G, x, S, S0) ==
  IF S = {} THEN [none |-> TRUE, slope |-> 0, vp |-> 0, vr |-> 0, vpa |-> 0, vra |-> 0, chi |-> 0]
  ELSE LET K0 == Cov(G, x, Guess(G, x, S0))
           r1 == Top(0, Rate(G, x, S, Weights(G, K0, S))) + x.dk
           K == Cov(G, x, r1)
           g == Weights(G, K, S)
           den == TotOn(S, LAMBDA i : g[i] * (G.dt[i] \div 4))
           \* weights per read, 10000 to one
           w == TLCEval([i \in 1..G.n |-> IF i \in S THEN Quot(g[i] * 36, den, <<10, 10, 10, 10>>) ELSE 0])
           fine == IF \A i \in S : K.ap[i] + K.ar[i] < 1000000 THEN 64 ELSE 1
           term(k, i, j) == MulDiv(MulDiv(fine * k, w[i], 10000), w[j], 10000)
           var(a, b) == (TotOn(S, LAMBDA i : term(a[i], i, i)) + 2 * TotOn({i \in S : i + 1 \in S}, LAMBDA i : term(b[i], i, i + 1))) \div fine
           sum(a) == TotOn(S, LAMBDA i : term(a[i], i, i)) \div fine
       IN  [none |-> FALSE, slope |-> Rate(G, x, S, g), vp |-> var(K.ap, K.bp), vr |-> var(K.ar, K.br), vpa |-> sum(K.ap), vra |-> sum(K.ar), chi |-> Chi(G, x, K, S)]
=============================================================================
