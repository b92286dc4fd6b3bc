------------------------------ MODULE Outlier ------------------------------
(* Outlier tests of one image against a model of it. Images are sequences of  *)
(* values numbered row by row, p.nc columns; values are in units of p.u.      *)
(* p: nc, snr1, snr2, scale1, scale2 (in quarters), backg.                    *)
EXTENDS Bits, FiniteSets, FiniteSetsExt, SequencesExt, TLC
CONSTANT NoValue

Row(p, j) == (j - 1) \div p.nc
Col(p, j) == (j - 1) % p.nc
Beside(p, all, j) == {k \in all : Abs(Row(p, j) - Row(p, k)) + Abs(Col(p, j) - Col(p, k)) = 1}
Around(p, all, j) == {k \in all : Abs(Row(p, j) - Row(p, k)) <= 1 /\ Abs(Col(p, j) - Col(p, k)) <= 1}

\* the largest step to an adjacent pixel of the model
Deriv(p, m, j) ==
  IF m[j] = NoValue THEN NoValue
  ELSE LET s == {Abs(m[k] - m[j]) : k \in {k \in Beside(p, DOMAIN m, j) : m[k] # NoValue}}
       IN  IF s = {} THEN 0 ELSE Max(s)
Valid(v) == v # NoValue
Err(e) == IF e = NoValue THEN 0 ELSE e          \* an invalid error counts as none
\* does pixel j stand off the model by more than the threshold?
Off(p, sci, err, m, j, snr, scale) ==
  /\ Valid(sci[j]) /\ Valid(m[j])
  /\ 4 * Abs(sci[j] - m[j] - p.backg) > scale * Deriv(p, m, j) + snr * Err(err[j])
First(p, sci, err, m) == {j \in DOMAIN sci : Off(p, sci, err, m, j, p.snr1, p.scale1)}
Near(p, s, all) == {j \in all : Around(p, all, j) \cap s # {}}
Second(p, sci, err, m) == {j \in DOMAIN sci : Off(p, sci, err, m, j, p.snr2, p.scale2)}
\* against a resampled model
Resampled(p, sci, err, m) == Near(p, First(p, sci, err, m), DOMAIN sci) \cap Second(p, sci, err, m)
\* against a model at the same place
Plain(p, sci, err, m) == {j \in DOMAIN sci : Valid(sci[j]) /\ Valid(m[j]) /\ 4 * Abs(sci[j] - m[j]) > p.snr1 * Err(err[j])}

\* --- median of the valid values in a box of kr x kc (odd), outside of the image counting as zero; twice the value
Sorted(x, S) == LET idx == SetToSortSeq(S, LAMBDA a, b : x[a] < x[b] \/ (x[a] = x[b] /\ a < b)) IN [i \in DOMAIN idx |-> x[idx[i]]]
Twice(s) == LET n == Len(s) IN IF n = 0 THEN NoValue ELSE IF n % 2 = 1 THEN 2 * s[(n + 1) \div 2] ELSE s[n \div 2] + s[n \div 2 + 1]
Filtered(nr, nc, kr, kc, x, j) ==
  LET r == (j - 1) \div nc c == (j - 1) % nc
      win == {<<a, b>> : a \in (r - kr \div 2)..(r + kr \div 2), b \in (c - kc \div 2)..(c + kc \div 2)}
      v(w) == IF w[1] \in 0..(nr - 1) /\ w[2] \in 0..(nc - 1) THEN x[w[1] * nc + w[2] + 1] ELSE 0
      ws == SetToSeq(win)
      vs == [i \in DOMAIN ws |-> v(ws[i])]
  IN  Twice(Sorted(vs, {i \in DOMAIN vs : vs[i] # NoValue}))

\* --- clipping of the weights at three standard deviations about the median, at most five times
\* S: the places kept
Sum(x, S) == FoldSet(LAMBDA i, a : a + x[i], 0, S)
Squares(x, S) == FoldSet(LAMBDA i, a : a + x[i] * x[i], 0, S)
\* n^2 times the variance
Spread(x, S) == Cardinality(S) * Squares(x, S) - Sum(x, S) * Sum(x, S)
Beyond(x, S, i) ==
  LET n == Cardinality(S) m == Twice(Sorted(x, S)) IN (2 * x[i] - m) * (2 * x[i] - m) * n * n > 36 * Spread(x, S)
OnEdge(x, S, i) ==
  LET n == Cardinality(S) m == Twice(Sorted(x, S)) IN (2 * x[i] - m) * (2 * x[i] - m) * n * n = 36 * Spread(x, S)
ClipStep(x, S) == {i \in S : ~Beyond(x, S, i)}
RECURSIVE Clip(_, _, _)
Clip(x, S, k) == LET T == TLCEval(ClipStep(x, S)) IN IF k = 0 \/ T = S THEN S ELSE Clip(x, T, k - 1)
RECURSIVE ClipTie(_, _, _)
ClipTie(x, S, k) == LET T == TLCEval(ClipStep(x, S)) IN
  (\E i \in S : OnEdge(x, S, i) /\ Spread(x, S) # 0) \/ (k > 0 /\ T # S /\ ClipTie(x, T, k - 1))
Weighed(x) == {i \in DOMAIN x : x[i] # NoValue /\ x[i] # 0}
=============================================================================
