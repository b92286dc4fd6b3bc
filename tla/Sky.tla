-------------------------------- MODULE Sky --------------------------------
(* Sky matching. A state s has                                               *)
(*   item:  sequence of sequences of image numbers (one, or a group),         *)
(*   v:     image -> sequence of pixel values (in units of 1/p.k),            *)
(*   mask:  image -> set of usable pixels,                                    *)
(*   ov:    image -> [image -> set of pixels of the first under the second],  *)
(*   sky:   image -> sky assigned so far,  ok: image -> sky is valid.         *)
(* p: k; stat: how the sky of a set of pixels is measured ("mean" or "min");  *)
(* need: fewer pixels than this give no sky; lower, upper: limits of usable   *)
(* values; method: "local", "global", "match" or "both"; down; subtract.      *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
CONSTANT NoValue

Abs(a) == IF a < 0 THEN -a ELSE a
Sum(f, S) == FoldSet(LAMBDA j, a : a + f[j], 0, S)
Least(S) == CHOOSE a \in S : \A b \in S : a <= b
Most(S) == CHOOSE a \in S : \A b \in S : a >= b

\* a measure: <<value, number of pixels>>; <<NoValue, 0>> where there is none
Void == <<NoValue, 0>>

\* the sky of the pixels S of image m, less what was already assigned to it
Of(p, s, m, S) ==
  LET T == {j \in S : s.v[m][j] # NoValue => (s.v[m][j] >= p.lower /\ s.v[m][j] <= p.upper)}
      n == Cardinality(T)
      less == IF p.subtract THEN 0 ELSE s.sky[m]
  IN  IF n < p.need \/ n = 0 \/ (\E j \in T : s.v[m][j] = NoValue) THEN Void
      ELSE <<(IF p.stat = "mean" THEN Sum(s.v[m], T) \div n ELSE Least({s.v[m][j] : j \in T})) - less, n>>

\* the values (numbered) that remain after rounds of clipping: those within c.lower and c.upper, and within c.lsig and
\* c.usig (halves) standard deviations of the mean of those that remained before. Ties and fewer than two values: FALSE.
Clipped(c, v) ==
  LET ok(j) == v[j] >= c.lower /\ v[j] <= c.upper
      RECURSIVE Go(_, _)
      Go(T, k) ==
        LET n == Cardinality(T) t == Sum(v, T) q == FoldSet(LAMBDA j, a : a + v[j] * v[j], 0, T)
            var == n * (n * q - t * t)                  \* n^2 (n - 1) times the variance
            sq(j) == 4 * (n - 1) * ((n * v[j] - t) * (n * v[j] - t))
            lim(j) == (IF n * v[j] < t THEN c.lsig * c.lsig ELSE c.usig * c.usig) * var
        IN  IF k = 0 THEN <<TRUE, T>>
            ELSE IF n < 2 \/ \E j \in DOMAIN v : ok(j) /\ var # 0 /\ sq(j) = lim(j) THEN <<FALSE, T>>
            ELSE Go({j \in DOMAIN v : ok(j) /\ sq(j) <= lim(j)}, k - 1)
      T0 == {j \in DOMAIN v : ok(j)}
  IN  IF T0 = {} THEN <<TRUE, {}>> ELSE Go(T0, c.nclip)
\* twice the median
Median2(v, T) ==
  LET n == Cardinality(T)
      below(j) == Cardinality({i \in T : v[i] < v[j] \/ (v[i] = v[j] /\ i < j)})
      at(k) == v[CHOOSE j \in T : below(j) = k]
  IN  at(n \div 2) + at((n - 1) \div 2)

\* the pixels of image m under any image of item J
Under(s, m, J) == s.mask[m] \cap UNION {s.ov[m][b] : b \in {s.item[J][i] : i \in DOMAIN s.item[J]}}

\* the sky of item I where item J lies: of a group, the mean over its images
Shared(p, s, I, J) ==
  LET g == s.item[I]
      d == TLCEval([i \in DOMAIN g |-> Of(p, s, g[i], Under(s, g[i], J))])
      n == FoldSet(LAMBDA i, a : a + d[i][2], 0, DOMAIN g)
  IN  IF n = 0 THEN Void
      ELSE <<FoldSet(LAMBDA i, a : a + (IF d[i][2] = 0 THEN 0 ELSE d[i][1] * d[i][2]), 0, DOMAIN g) \div n, n>>

\* the sky of a whole item: of a group, the least over its images
Whole(p, s, I) ==
  LET g == s.item[I]
      d == {x \in {Of(p, s, g[i], s.mask[g[i]])[1] : i \in DOMAIN g} : x # NoValue}
  IN  IF d = {} THEN NoValue ELSE Least(d)

Items(s) == DOMAIN s.item

\* all shared measures, and the pairs that have both
Measures(p, s) == TLCEval([I \in Items(s) |-> TLCEval([J \in Items(s) |-> TLCEval(IF I = J THEN Void ELSE Shared(p, s, I, J))])])
Pair(M, I, J) == I # J /\ M[I][J][2] > 0 /\ M[J][I][2] > 0
Matched(M) == {I \in DOMAIN M : \E J \in DOMAIN M : Pair(M, I, J)}
Connected(M, I) ==
  LET RECURSIVE Grow(_)
      Grow(S) == LET T == S \cup {J \in DOMAIN M : \E K \in S : Pair(M, J, K)} IN IF T = S THEN S ELSE Grow(T)
  IN  Grow({I})

\* x makes the items agree in their overlaps as well as can be (weighted least
\* squares); tol: units by which each equation may be off
Agrees(M, x, tol) ==
  \A I \in Matched(M) :
    LET W(J) == (M[I][J][2] + M[J][I][2]) * (M[I][J][2] + M[J][I][2])
        with == {J \in DOMAIN M : Pair(M, I, J)}
        r == FoldSet(LAMBDA J, a : a + W(J) * (x[I] - x[J] - (M[I][J][1] - M[J][I][1])), 0, with)
    IN  Abs(r) <= tol * FoldSet(LAMBDA J, a : a + W(J), 0, with)

\* the reference: the lowest (highest) of the matched items
Reference(p, M, x) ==
  LET S == Matched(M) IN IF S = {} THEN TRUE ELSE (IF p.down THEN Least({x[I] : I \in S}) ELSE Most({x[I] : I \in S})) = 0

\* the state after sky f[I] has been assigned to every item, with the items of
\* V valid
Assigned(p, s, f, V) ==
  LET of(m) == CHOOSE I \in Items(s) : \E i \in DOMAIN s.item[I] : s.item[I][i] = m
  IN  [s EXCEPT !.sky = [m \in DOMAIN s.sky |-> s.sky[m] + f[of(m)]],
                !.v = IF ~p.subtract THEN @
                      ELSE [m \in DOMAIN s.v |-> [j \in DOMAIN s.v[m] |-> IF s.v[m][j] = NoValue THEN NoValue ELSE s.v[m][j] - f[of(m)]]],
                !.ok = [m \in DOMAIN s.ok |-> of(m) \in V]]

\* the least sky of all, NoValue where nothing has a sky
Global(p, s) == LET S == {Whole(p, s, I) : I \in Items(s)} \ {NoValue} IN IF S = {} THEN NoValue ELSE Least(S)
=============================================================================
