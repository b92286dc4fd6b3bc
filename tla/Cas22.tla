------------------------------- MODULE Cas22 -------------------------------
(* Ramps of unevenly spaced resultants (Casertano et al. 2022): weighted fits *)
(* of runs of usable resultants and the search for jumps. Times are in ticks,  *)
(* 144 to a read; resultants in electrons; slopes in 1/1000 electron per read; *)
(* variances in 1/1000 (electron per read)^2. Fixed-point numbers carry a       *)
(* tolerance: where a decision is closer than that, both outcomes are allowed.   *)
(* p: reads (sequence of sequences of read numbers), rt (length of a read in    *)
(* 1/1000 s), ic and cn (threshold: intercept and constant in 1/1000), jump.     *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Bits

Top(a, b) == IF a > b THEN a ELSE b
Tot(n, f(_)) == FoldSet(LAMBDA j, a : a + f(j), 0, 1..n)
TotOn(S, f(_)) == FoldSet(LAMBDA j, a : a + f(j), 0, S)

(* ---- arithmetic ------------------------------------------------------------ *)
\* a * (product of fs) / b for b > 0, truncated towards zero
RECURSIVE Long(_, _, _, _)
Long(q, r, b, fs) == IF fs = <<>> THEN q ELSE Long(q * fs[1] + (r * fs[1]) \div b, (r * fs[1]) % b, b, Tail(fs))
Quot(a, b, fs) == IF a < 0 THEN -Long((-a) \div b, (-a) % b, b, fs) ELSE Long(a \div b, a % b, b, fs)
\* a * x / b, truncated towards zero (b > 0): the digits of x to the base 16 one after the other
RECURSIVE Horner(_, _, _, _, _)
Horner(a, x, b, q, r) ==
  IF x = 0 THEN <<q, r>>
  ELSE LET h == Horner(a, x \div 16, b, q, r) z == 16 * h[2] + (x % 16) * a IN <<16 * h[1] + z \div b, z % b>>
MulDiv(a, x, b) == LET s == IF (a < 0) # (x < 0) THEN -1 ELSE 1 m == Abs(a) y == Abs(x)
                   IN  s * (IF m < 46340 /\ y < 46340 THEN (m * y) \div b ELSE IF m < y THEN (Horner(y, m, b, 0, 0))[1] ELSE (Horner(m, y, b, 0, 0))[1])
RECURSIVE Bisect(_, _, _)
Bisect(lo, hi, x) == IF hi - lo <= 1 THEN lo
                     ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN Bisect(m, hi, x) ELSE Bisect(lo, m, x)
ISqrt(x) == IF x <= 0 THEN 0 ELSE Bisect(0, 46340, x)
U == 10000
Mul(a, b) == (a * b + U \div 2) \div U
Pow3(x) == Mul(x, Mul(x, x))
Pow5(x) == Mul(Pow3(x), Mul(x, x))
RECURSIVE Root(_, _, _)
Root(lo, hi, x2) == IF hi - lo <= 1 THEN lo
                    ELSE LET m == (lo + hi) \div 2 IN IF Pow5(m) <= x2 THEN Root(m, hi, x2) ELSE Root(lo, m, x2)
\* x^0.4: the fifth root of the square, and 32^0.4 = 4
RECURSIVE Fifth(_)
Fifth(x) == IF x = 0 THEN 0 ELSE IF 32 * x <= U THEN (Fifth(32 * x) + 2) \div 4 ELSE Root(0, U, Mul(x, x))
\* x^(pw/10), x in units of 1/U from 0 to U
Power(x, pw) == IF pw = 0 \/ x >= U THEN U ELSE IF pw = 4 THEN Fifth(x) ELSE IF pw = 10 THEN x
                ELSE IF pw = 30 THEN Pow3(x) ELSE IF pw = 60 THEN Pow3(Mul(x, x)) ELSE Pow5(Mul(x, x))
\* 10000 * log10(k / 10) for k = 10..100
LogTab == <<0, 414, 792, 1139, 1461, 1761, 2041, 2304, 2553, 2788, 3010, 3222, 3424, 3617, 3802, 3979, 4150, 4314, 4472, 4624, 4771,
  4914, 5051, 5185, 5315, 5441, 5563, 5682, 5798, 5911, 6021, 6128, 6232, 6335, 6435, 6532, 6628, 6721, 6812, 6902, 6990, 7076, 7160,
  7243, 7324, 7404, 7482, 7559, 7634, 7709, 7782, 7853, 7924, 7993, 8062, 8129, 8195, 8261, 8325, 8388, 8451, 8513, 8573, 8633, 8692,
  8751, 8808, 8865, 8921, 8976, 9031, 9085, 9138, 9191, 9243, 9294, 9345, 9395, 9445, 9494, 9542, 9590, 9638, 9685, 9731, 9777, 9823,
  9868, 9912, 9956, 10000>>
\* 10000 * log10(x / 1000) for x >= 1000
RECURSIVE Log(_)
Log(x) == IF x >= 10000 THEN 10000 + Log((x + 5) \div 10)
          ELSE LET k == x \div 100 IN LogTab[k - 9] + ((LogTab[k - 8] - LogTab[k - 9]) * (x % 100)) \div 100

(* ---- the read pattern ------------------------------------------------------- *)
Count(p, i) == Len(p.reads[i])
Mean(p, i) == (144 * Tot(Count(p, i), LAMBDA k : p.reads[i][k])) \div Count(p, i)
Tau(p, i) == (144 * Tot(Count(p, i), LAMBDA k : (2 * (Count(p, i) - k) + 1) * p.reads[i][k])) \div (Count(p, i) * Count(p, i))
Times(p) == [i \in DOMAIN p.reads |-> Mean(p, i)]
Taus(p) == [i \in DOMAIN p.reads |-> Tau(p, i)]

(* ---- fit of one run ---------------------------------------------------------- *)
\* ten times the power of the weights, from the signal-to-noise ratio of the run
PowerOf(d, rn) == LET q == rn * rn + d IN
  IF d * d < 25 * q THEN 0 ELSE IF d * d < 100 * q THEN 4 ELSE IF d * d < 400 * q THEN 10
  ELSE IF d * d < 2500 * q THEN 30 ELSE IF d * d < 10000 * q THEN 60 ELSE 100
\* t, u: times and taus; r: resultants; returns slope, read variance, Poisson variance per electron of slope (1/10000 per read)
Fit(p, t, u, r, rn, lo, hi) ==
  LET S == lo..hi
      T == t[hi] - t[lo]
      pw == PowerOf(Top(r[hi] - r[lo], 0), rn)
      w == TLCEval([i \in S |-> LET n == Count(p, i) x == (U * Abs(2 * t[i] - t[lo] - t[hi]) + T \div 2) \div T
                                IN  (((10 + pw) * n * Power(x, pw)) \div (10 + pw * n) + 4) \div 8])
      f0 == TotOn(S, LAMBDA i : w[i])
      f1 == TotOn(S, LAMBDA i : w[i] * (t[i] - t[lo]))
      c == Quot(f1, f0, <<10>>)           \* weighted mean time, in 1/10
      h == TLCEval([i \in S |-> w[i] * (10 * (t[i] - t[lo]) - c)])
      top == Top(1, Max({Abs(h[i]) : i \in S}))
      g == TLCEval([i \in S |-> Quot(h[i], top, <<4, 4, 5, 5, 5, 2>>)])
      num == TotOn(S, LAMBDA i : g[i] * (r[i] - r[lo]))
      den == TotOn(S, LAMBDA i : g[i] * (t[i] - t[lo]))
      k == TLCEval([i \in S |-> Quot(g[i] * T, den, <<10, 10, 10, 10>>)])
      kr == TotOn(S, LAMBDA i : (k[i] * k[i]) \div (U * Count(p, i)))
      kp == TotOn(S, LAMBDA i : ((k[i] * k[i]) \div U) * (u[i] - t[lo])
                                + 2 * MulDiv(k[i], FoldSet(LAMBDA j, a : a + k[j] * (t[j] - t[lo]), 0, lo..(i - 1)) \div 100, 100))
  IN  [slope |-> Quot(num, den, <<12, 12, 10, 10, 10>>),
       read |-> Quot(Quot((rn * rn * kr) \div 10, T, <<12, 12>>), T, <<12, 12>>),
       pois |-> Quot(Quot(kp, T, <<12, 12>>), T, <<1>>)]

(* ---- jumps ------------------------------------------------------------------ *)
\* threshold in 1/1000 for a slope
Threshold(p, s) == LET x == Top(1000, IF s >= 10000 * p.rt THEN 10000000 ELSE Quot(s, p.rt, <<10, 10, 10>>))
                   IN  p.ic - (p.cn * Log(x)) \div 10000
\* statistic of the difference of resultants i and i + d, in 1/1000, with its tolerance; ok: it is defined
Stat(p, t, u, r, rn, s, T, i, d) ==
  LET j == i + d
      dt == t[j] - t[i]
      num == 100 * (r[j] - r[i]) - MulDiv(s, dt, 1440)
      var == (1000 * rn * rn * (Count(p, i) + Count(p, j))) \div (Count(p, i) * Count(p, j))
             + MulDiv(s, u[i] + u[j] - 2 * t[i] - (dt * dt) \div T, 144)
      sd == IF var < 2000000 THEN ISqrt(1000 * var) ELSE 100 * ISqrt(var \div 10)
      off == 2 + MulDiv(Abs(s), dt, 1440) \div 400
  IN  IF var < 300 THEN [ok |-> FALSE, v |-> 0, tol |-> 0]
      ELSE LET v == Quot(num, sd, <<10, 10, 10, 10>>) IN [ok |-> TRUE, v |-> v, tol |-> 20 + Abs(v) \div 50 + (10000 * off) \div sd]
\* what may happen to a run: for each possibility, where it is split (0: nowhere)
Cuts(p, t, u, r, rn, lo, hi) ==
  IF ~p.jump \/ hi = lo THEN {0}
  ELSE LET s == Fit(p, t, u, r, rn, lo, hi).slope
           T == t[hi] - t[lo]
           D == {<<i, d>> \in (lo..(hi - 1)) \X {1, 2} : i + d <= hi}
           st == TLCEval([x \in D |-> Stat(p, t, u, r, rn, s, T, x[1], x[2])])
           thr == Threshold(p, s)
           best == Max({st[x].v - st[x].tol : x \in D})
           most == Max({st[x].v + st[x].tol : x \in D})
       IN  IF \E x \in D : ~st[x].ok THEN {0} \cup lo..(hi - 1)
           ELSE (IF best <= thr THEN {0} ELSE {})
                \cup (IF most >= thr THEN {x[1] : x \in {y \in D : st[y].v + st[y].tol >= best}} ELSE {})
\* the ways in which a run may end up: [jumps, runs]
RECURSIVE Ways(_, _, _, _, _, _, _)
Ways(p, t, u, r, rn, lo, hi) ==
  IF lo > hi THEN {[jumps |-> {}, runs |-> {}]}
  ELSE UNION {IF c = 0 THEN {[jumps |-> {}, runs |-> {<<lo, hi>>}]}
              ELSE {[jumps |-> a.jumps \cup b.jumps \cup {c, c + 1}, runs |-> a.runs \cup b.runs] :
                      a \in Ways(p, t, u, r, rn, lo, c - 1), b \in Ways(p, t, u, r, rn, c + 2, hi)} : c \in Cuts(p, t, u, r, rn, lo, hi)}
\* runs of resultants without flags
Runs(q) == {x \in (DOMAIN q) \X (DOMAIN q) : /\ x[1] <= x[2] /\ \A i \in x[1]..x[2] : q[i] = 0
                                         /\ (x[1] > 1 => q[x[1] - 1] # 0) /\ (x[2] < Len(q) => q[x[2] + 1] # 0)}
All(p, t, u, r, rn, q) ==
  FoldSet(LAMBDA x, acc : {[jumps |-> a.jumps \cup b.jumps, runs |-> a.runs \cup b.runs] : a \in acc, b \in Ways(p, t, u, r, rn, x[1], x[2])},
          {[jumps |-> {}, runs |-> {}]}, Runs(q))
JUMP == 4
Flagged(q, a) == [i \in DOMAIN q |-> IF i \in a.jumps THEN JUMP ELSE q[i]]

(* ---- the result: mean of the runs, weighted by the inverse of their read variance -- *)
Result(p, t, u, r, rn, a) ==
  LET F == TLCEval({<<x, Fit(p, t, u, r, rn, x[1], x[2])>> : x \in {y \in a.runs : y[2] > y[1]}})
      least == Min({f[2].read : f \in F})
      w == TLCEval([f \in F |-> Quot(least, Top(1, f[2].read), <<10, 10, 10>>)])
      W == FoldSet(LAMBDA f, z : z + w[f], 0, F)
      lowest == Min({f[2].slope : f \in F})
      spread == Max({f[2].slope : f \in F}) - lowest
      unit == 1 + spread \div 200000
      s == lowest + unit * (FoldSet(LAMBDA f, z : z + w[f] * ((f[2].slope - lowest) \div unit), 0, F) \div W)
      po == FoldSet(LAMBDA f, z : z + Quot(Quot(f[2].pois * w[f], W, <<1>>) * w[f], W, <<1>>), 0, F)
  IN  IF F = {} THEN [slope |-> 0, read |-> 0, pois |-> 0, spread |-> 0]
      ELSE [slope |-> s, read |-> Quot(least, W, <<10, 10, 10>>), pois |-> IF s <= 0 THEN 0 ELSE MulDiv(s, po, U),
            spread |-> spread]
=============================================================================
