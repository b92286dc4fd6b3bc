-------------------------------- MODULE Jump --------------------------------
(* Cosmic-ray jump detection by two-point differences.                        *)
(*                                                                            *)
(* Numbers are integers: groups are counts (after the gain), differences per  *)
(* unit time and their medians are in units of 1/(2S), S a common multiple of *)
(* the group intervals p.dt; thresholds are in halves (p.t = 2 * threshold).  *)
(* p.nn[k]: number of reads in the two groups of difference k. A list of      *)
(* length 1 stands for all differences alike.                                 *)
(* A pixel is [ints |-> sequence of [d |-> groups, q |-> flags], rn].         *)
EXTENDS Bits, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
LOCAL NaN == 2000000001

Dt(p, k) == IF Len(p.dt) = 1 THEN p.dt[1] ELSE p.dt[k]
Nn(p, k) == IF Len(p.nn) = 1 THEN p.nn[1] ELSE p.nn[k]
Uniform(p) == (\A k \in DOMAIN p.dt : p.dt[k] = p.dt[1]) /\ (\A k \in DOMAIN p.nn : p.nn[k] = p.nn[1])
Bad(p, q) == Has(q, p.F.dnu) \/ Has(q, p.F.sat)

\* the differences of one pixel: [1..ni -> [1..ng-1 -> value in 1/(2S), or NaN]]
Good(p, x, i, g) == ~Bad(p, x.ints[i].q[g]) /\ x.ints[i].d[g] # NaN
Diffs(p, x) ==
  [i \in DOMAIN x.ints |->
    [k \in 1..(Len(x.ints[i].d) - 1) |->
      IF Good(p, x, i, k) /\ Good(p, x, i, k + 1)
      THEN (2 * p.S * (x.ints[i].d[k + 1] - x.ints[i].d[k])) \div Dt(p, k) ELSE NaN]]
AbsDiffs(v) == [i \in DOMAIN v |-> [k \in DOMAIN v[i] |-> IF v[i][k] = NaN THEN NaN ELSE Abs(v[i][k])]]
Places(v) == {<<i, k>> \in (DOMAIN v) \X (1..Len(v[1])) : v[i][k] # NaN}

\* the median of the values at a set of places; values are even, so that it is an integer
SortVals(v, s) == SortSeq(SetToSeq({<<v[z[1]][z[2]], z>> : z \in s}), LAMBDA a, b : a[1] < b[1])
MedOf(v, s) == LET w == SortVals(v, s) n == Len(w)
               IN  IF n = 0 THEN NaN ELSE IF n % 2 = 1 THEN w[(n + 1) \div 2][1]
                   ELSE (w[n \div 2][1] + w[n \div 2 + 1][1]) \div 2

\* the noise of difference k, squared (times 4 S^2 n, n the number of reads, and the interval squared)
Noise(p, m, rn, k) == Abs(m) * Dt(p, k) * Nn(p, k) * p.S + 4 * p.S * p.S * rn * rn
\* is e (in 1/(2S)) more than t/2 times the noise? "yes", "no", or "amb" when it is too close to call
Exceeds(p, e, m, rn, k, t) ==
  LET b == Noise(p, m, rn, k)
      l == 2 * e * e * Dt(p, k) * Dt(p, k) * Nn(p, k)
      r == t * t * b
  IN  IF b = 0 THEN "no" ELSE IF l # r /\ Abs(l - r) < r \div 1000000 THEN "amb" ELSE IF l > r THEN "yes" ELSE "no"

\* --- which groups are usable, for the exposure as a whole ---------------------
\* px: sequence of pixels
AllDnu(p, px, i) == {g \in DOMAIN px[1].ints[i].q : \A j \in DOMAIN px : Has(px[j].ints[i].q[g], p.F.dnu)}
Totals(p, px) ==
  LET ni == Len(px[1].ints) ng == Len(px[1].ints[1].q)
      c == [i \in 1..ni |-> Cardinality(AllDnu(p, px, i))]
      mx == Max({c[i] : i \in 1..ni})
  IN  [ng |-> ng, minGroups |-> ng - mx, total |-> ni * ng - FoldSeq(LAMBDA a, b : a + b, 0, c),
       sigclip |-> IF p.onlyInts THEN ni ELSE ni * ng - c[ni], ni |-> ni]
Skips(p, t) == \/ t.ng < 2
               \/ t.minGroups < p.minGroups /\ (IF p.onlyInts THEN t.ni < p.minSig ELSE t.sigclip < p.minSig)
Method(p, t) ==
  IF Uniform(p) /\ (IF p.onlyInts THEN t.ni >= p.minSig ELSE t.total >= p.minSig) THEN "sigclip"
  ELSE IF t.minGroups - 1 >= p.minPass THEN "onepass" ELSE "iterative"

\* --- the detection of one pixel: the set of differences <<i, k>> that are jumps, and whether it was a close call
OnePass(p, x) ==
  LET v == TLCEval(Diffs(p, x)) m == MedOf(v, Places(v))
      ex(z) == Exceeds(p, v[z[1]][z[2]] - m, m, x.rn, z[2], p.t)
  IN  [hit |-> {z \in Places(v) : ex(z) = "yes"}, amb |-> \E z \in Places(v) : ex(z) = "amb"]

ClipMed(v, s) ==
  LET n == Cardinality(s) mx == Max({v[z[1]][z[2]] : z \in s})
  IN  IF n < 2 THEN NaN
      ELSE IF n = 2 THEN Min({v[z[1]][z[2]] : z \in s})
      ELSE IF n = 3 THEN MedOf(v, s)
      ELSE MedOf(v, {z \in s : v[z[1]][z[2]] # mx})      \* the largest is left out (all of them, if tied)

RECURSIVE Iterate(_, _, _, _, _)
Iterate(p, v, s, rn, hit) ==
  LET n == Cardinality(s) m == ClipMed(v, s)
      e(z) == Abs(v[z[1]][z[2]] - m)
      num(z) == e(z) * e(z) * Dt(p, z[2]) * Dt(p, z[2]) * Nn(p, z[2])
      den(z) == Noise(p, m, rn, z[2])
      alike(a, b) == Uniform(p) \/ (Dt(p, a[2]) = Dt(p, b[2]) /\ Nn(p, a[2]) = Nn(p, b[2]))
      lt(a, b) == IF alike(a, b) THEN e(a) < e(b) ELSE num(a) * den(b) < num(b) * den(a)
      near(a, b) == ~alike(a, b) /\ LET l == num(a) * den(b) r == num(b) * den(a)
                                    IN  Abs(l - r) <= r \div 1000000
      top == {z \in s : \A y \in s : ~lt(z, y)}
      one == CHOOSE z \in top : TRUE
      t == IF n >= 4 THEN p.t ELSE IF n = 3 THEN p.t3 ELSE p.t2
      ex == Exceeds(p, e(one), m, rn, one[2], t)
  IN  IF n < 2 \/ m = NaN THEN [hit |-> hit, amb |-> FALSE]
      ELSE IF den(one) = 0 THEN [hit |-> hit, amb |-> FALSE]
      ELSE IF ex = "amb" \/ (ex = "yes" /\ \E a \in top, b \in s : near(a, b)) THEN [hit |-> hit, amb |-> TRUE]
      ELSE IF ex = "no" THEN [hit |-> hit, amb |-> FALSE]
      ELSE Iterate(p, v, s \ top, rn, hit \cup top)
Iterative(p, x) == LET v == TLCEval(AbsDiffs(Diffs(p, x))) IN Iterate(p, v, Places(v), x.rn, {})

\* sigma clipping of the values at the places s: at most five rounds; what lies outside the last bounds
\* within bounds: (2 (a - med))^2 n^2 <= t^2 (n sum a^2 - (sum a)^2), in units of differences of counts
RECURSIVE Clip(_, _, _, _, _)
Clip(v, all, s, t, round) ==
  LET n == Cardinality(s)
      f(z) == v[z[1]][z[2]]
      m == MedOf(v, s)
      h(z) == f(z) \div 2
      sum == FoldSet(LAMBDA z, acc : h(z) + acc, 0, s)
      sq == FoldSet(LAMBDA z, acc : h(z) * h(z) + acc, 0, s)
      var == n * sq - sum * sum
      l(z) == (f(z) - m) * (f(z) - m) * n * n
      r == t * t * var
      out == {z \in all : l(z) > r}
      keep == s \ out
      amb == \E z \in all : r > 0 /\ Abs(l(z) - r) <= r \div 1000000
  IN  IF n = 0 THEN [hit |-> {}, amb |-> FALSE]
      ELSE IF amb THEN [hit |-> {}, amb |-> TRUE]
      ELSE IF keep = s \/ keep = {} \/ round = 5 THEN [hit |-> out, amb |-> FALSE]
      ELSE Clip(v, all, keep, t, round + 1)
SigClip(p, x) ==
  LET v == TLCEval(Diffs(p, x)) pl == Places(v)
  IN  IF p.onlyInts
      THEN LET c == [k \in 1..Len(v[1]) |-> LET s == {z \in pl : z[2] = k} IN Clip(v, s, s, p.t, 1)]
           IN  [hit |-> UNION {c[k].hit : k \in DOMAIN c}, amb |-> \E k \in DOMAIN c : c[k].amb]
      ELSE Clip(v, pl, pl, p.t, 1)

Detect(p, meth, x) == CASE meth = "onepass" -> OnePass(p, x)
                        [] meth = "iterative" -> Iterative(p, x)
                        [] meth = "sigclip" -> SigClip(p, x)

\* --- an image (or a slice of its rows): px in row-major order, nc columns -------
\* flags: [pixel -> [integration -> [group -> flag value]]]
Flags(px) == [j \in DOMAIN px |-> [i \in DOMAIN px[j].ints |-> px[j].ints[i].q]]
AfterDetection(p, meth, px, det) ==
  LET q0 == Flags(px)
      q1 == [j \in DOMAIN px |-> [i \in DOMAIN q0[j] |-> [g \in DOMAIN q0[j][i] |->
              IF g > 1 /\ <<i, g - 1>> \in det[j].hit THEN SetB(q0[j][i][g], p.F.jump) ELSE q0[j][i][g]]]]
      \* a group in which every pixel is a jump (or unusable) is an event of the detector, not a cosmic ray
      all(i, g) == \A j \in DOMAIN px : Has(q1[j][i][g], p.F.jump) \/ Has(q1[j][i][g], p.F.dnu)
  IN  IF meth # "sigclip" THEN q1
      ELSE LET al == [i \in DOMAIN q1[1] |-> [g \in DOMAIN q1[1][i] |-> all(i, g)]]
           IN  [j \in DOMAIN px |-> [i \in DOMAIN q1[j] |-> [g \in DOMAIN q1[j][i] |->
                 IF al[i][g] /\ q1[j][i][g] = p.F.jump THEN 0 ELSE q1[j][i][g]]]]

CountJumps(p, q) == FoldSeq(LAMBDA pj, a : a + FoldSeq(LAMBDA s, b : b + Cardinality({g \in DOMAIN s : Has(s[g], p.F.jump)}),
                                                       0, pj), 0, q)

\* whose neighbours a jump flags: its size is strictly within the window. "yes" / "no" / "amb"
Spreads(p, x, m, v, i, k) ==
  IF v[i][k] = NaN THEN "no"
  ELSE LET lo == Exceeds(p, v[i][k] - m, m, x.rn, k, p.mn)
           hi == IF p.mx < 0 THEN "no" ELSE Exceeds(p, v[i][k] - m, m, x.rn, k, p.mx)
           \* strictly below the upper limit
           b == Noise(p, m, x.rn, k)
           eq == p.mx >= 0 /\ 2 * (v[i][k] - m) * (v[i][k] - m) * Dt(p, k) * Dt(p, k) * Nn(p, k) = p.mx * p.mx * b
       IN  IF b = 0 THEN "no" ELSE IF lo = "amb" \/ hi = "amb" THEN "amb"
           ELSE IF lo = "yes" /\ hi = "no" /\ ~eq THEN "yes" ELSE "no"
Adj(j, k, nc) == \/ (Abs(j - k) = nc)
                 \/ (Abs(j - k) = 1 /\ (j - 1) \div nc = (k - 1) \div nc)
\* med: the median difference of each pixel; src: [pixel -> set of <<i, g>> from which flags spread]
Sources(p, px, vs, med, q) ==
  [j \in DOMAIN px |-> {<<i, g>> \in (DOMAIN q[j]) \X (2..Len(q[j][1])) :
      Has(q[j][i][g], p.F.jump) /\ Spreads(p, px[j], med[j], vs[j], i, g - 1) = "yes"}]
SpreadAmb(p, px, vs, med, q) ==
  \E j \in DOMAIN px : \E i \in DOMAIN q[j] : \E g \in 2..Len(q[j][1]) :
      Has(q[j][i][g], p.F.jump) /\ Spreads(p, px[j], med[j], vs[j], i, g - 1) = "amb"
Neighbours(p, nc, q, src) ==
  [j \in DOMAIN q |-> [i \in DOMAIN q[j] |-> [g \in DOMAIN q[j][i] |->
     IF ~Bad(p, q[j][i][g]) /\ \E k \in {j - nc, j - 1, j + 1, j + nc} \cap DOMAIN q : Adj(j, k, nc) /\ <<i, g>> \in src[k]
     THEN SetB(q[j][i][g], p.F.jump) ELSE q[j][i][g]]]]

\* groups after a large jump: p.e1, p.e2 twice the sizes in counts, p.n1, p.n2 groups
Large(p, v, m, i, g, e) == g > 1 /\ v[i][g - 1] # NaN /\ (v[i][g - 1] - m) * Dt(p, g - 1) >= p.S * e
Transients(p, q, vs, med) ==
  IF p.n1 <= 0 /\ p.n2 <= 0 THEN q
  ELSE [j \in DOMAIN q |-> [i \in DOMAIN q[j] |->
         LET big(e) == {g \in DOMAIN q[j][i] : Has(q[j][i][g], p.F.jump) /\ Large(p, vs[j], med[j], i, g, e)}
             b1 == big(p.e1) b2 == big(p.e2)
             after(g) == \/ \E h \in b1 : h <= g /\ g <= h + p.n1
                         \/ \E h \in b2 : h <= g /\ g <= h + p.n2
         IN  [g \in DOMAIN q[j][i] |->
               IF after(g) /\ ~Bad(p, q[j][i][g]) THEN SetB(q[j][i][g], p.F.jump) ELSE q[j][i][g]]]]

\* detection on some rows of the image, given the totals of the exposure:
\* flags, the flags' sources in the first and last row, number of jumps found, and whether something was a close call
FindCrs(p, nc, px, tot) ==
  IF Skips(p, tot)
  THEN [q |-> Flags(px), src |-> [j \in DOMAIN px |-> {}], n |-> -99, amb |-> FALSE]
  ELSE
  LET meth == Method(p, tot)
      det == TLCEval([j \in DOMAIN px |-> Detect(p, meth, px[j])])
      q1 == TLCEval(AfterDetection(p, meth, px, det))
      vs == TLCEval([j \in DOMAIN px |-> Diffs(p, px[j])])
      med == TLCEval([j \in DOMAIN px |-> MedOf(vs[j], Places(vs[j]))])
      src == TLCEval(IF p.nb THEN Sources(p, px, vs, med, q1) ELSE [j \in DOMAIN px |-> {}])
      q2 == TLCEval(IF p.nb THEN Neighbours(p, nc, q1, src) ELSE q1)
      q3 == TLCEval(Transients(p, q2, vs, med))
  IN  [q |-> q3, src |-> src, n |-> CountJumps(p, q1),
       amb |-> (\E j \in DOMAIN px : det[j].amb) \/ (p.nb /\ SpreadAmb(p, px, vs, med, q1))]

\* a jump flag is redundant where the group is unusable
Clean(p, q) == [j \in DOMAIN q |-> [i \in DOMAIN q[j] |-> [g \in DOMAIN q[j][i] |->
                 IF Bad(p, q[j][i][g]) /\ Has(q[j][i][g], p.F.jump) THEN q[j][i][g] - p.F.jump ELSE q[j][i][g]]]]

Whole(p, nc, px) == LET r == FindCrs(p, nc, px, Totals(p, px)) IN [q |-> Clean(p, r.q), n |-> r.n, amb |-> r.amb]

\* the rows divided among processes as slices sl (see Slices): flags that spread across a border are added at the end
InSlices(p, nc, px, sl) ==
  LET tot == Totals(p, px)
      part(k) == SubSeq(px, sl[k][1] * nc + 1, (sl[k][1] + sl[k][2]) * nc)
      r == TLCEval([k \in DOMAIN sl |-> FindCrs(p, nc, part(k), tot)])
      of(j) == CHOOSE k \in DOMAIN sl : sl[k][1] * nc < j /\ j <= (sl[k][1] + sl[k][2]) * nc
      src(j) == r[of(j)].src[j - sl[of(j)][1] * nc]
      q0 == [j \in DOMAIN px |-> r[of(j)].q[j - sl[of(j)][1] * nc]]
      q1 == [j \in DOMAIN px |-> [i \in DOMAIN q0[j] |-> [g \in DOMAIN q0[j][i] |->
              IF \E k \in {j - nc, j + nc} \cap DOMAIN px : of(k) # of(j) /\ <<i, g>> \in src(k)
              THEN SetB(q0[j][i][g], p.F.jump) ELSE q0[j][i][g]]]]
  IN  [q |-> Clean(p, q1),
       n |-> IF \A k \in DOMAIN sl : r[k].n < 0 THEN -99
             ELSE FoldSet(LAMBDA k, a : a + r[k].n, 0, DOMAIN sl),
       amb |-> \E k \in DOMAIN sl : r[k].amb]
=============================================================================
