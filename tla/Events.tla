------------------------------- MODULE Events -------------------------------
(* Large events of jump detection: snowballs (clusters of jumps around a      *)
(* saturated core) and showers (coherent faint emission). An image is a grid  *)
(* of p.nr x p.nc pixels <<row, col>>, a flag word per pixel; an exposure is  *)
(* [integration -> [group -> [pixel -> word]]].                               *)
(* Lengths are in thousandths of a pixel; comparisons closer than the         *)
(* arithmetic can tell are "amb" and decide nothing.                          *)
EXTENDS Bits, FiniteSets, FiniteSetsExt, SequencesExt, TLC

Grid(p) == (1..p.nr) \X (1..p.nc)

\* --- square roots ---------------------------------------------------------------
RECURSIVE SqrtIn(_, _, _)
SqrtIn(n, lo, hi) == IF lo >= hi THEN lo
                     ELSE LET m == (lo + hi + 1) \div 2 IN IF m <= n \div m THEN SqrtIn(n, m, hi) ELSE SqrtIn(n, lo, m - 1)
Isqrt(n) == IF n <= 0 THEN 0 ELSE SqrtIn(n, 1, 46340)
Square(n) == Isqrt(n) * Isqrt(n) = n

\* --- clusters of pixels that touch, also at corners -------------------------------
Near(x) == {<<x[1] + a, x[2] + b>> : a \in {-1, 0, 1}, b \in {-1, 0, 1}}
RECURSIVE Flood(_, _, _)
Flood(s, front, got) == LET new == (UNION {Near(x) : x \in front} \cap s) \ got
                        IN  IF new = {} THEN got ELSE Flood(s, new, got \cup new)
RECURSIVE Clusters(_)
Clusters(s) == IF s = {} THEN {} ELSE LET x == CHOOSE x \in s : TRUE c == Flood(s, {x}, {x}) IN {c} \cup Clusters(s \ c)
\* number of pixels of a cluster with its holes filled
FilledArea(c) ==
  LET r0 == Min({x[1] : x \in c}) r1 == Max({x[1] : x \in c}) c0 == Min({x[2] : x \in c}) c1 == Max({x[2] : x \in c})
      out == ((r0 - 1)..(r1 + 1)) \X ((c0 - 1)..(c1 + 1)) \ c
  IN  IF Cardinality(c) = (r1 - r0 + 1) * (c1 - c0 + 1) THEN Cardinality(c)
      ELSE (r1 - r0 + 3) * (c1 - c0 + 3) - Cardinality(Flood(out, {<<r0 - 1, c0 - 1>>}, {<<r0 - 1, c0 - 1>>}))

\* --- the ellipse with the second moments of a cluster -----------------------------
Rdiv(a, b) == (2 * a + b) \div (2 * b)
Tol == 30
EllipseOf(c) ==
  LET n == Cardinality(c)
      r0 == Min({x[1] : x \in c}) c0 == Min({x[2] : x \in c})
      sr == FoldSet(LAMBDA x, a : a + x[1] - r0, 0, c)
      sc == FoldSet(LAMBDA x, a : a + x[2] - c0, 0, c)
      srr == FoldSet(LAMBDA x, a : a + (x[1] - r0) * (x[1] - r0), 0, c)
      scc == FoldSet(LAMBDA x, a : a + (x[2] - c0) * (x[2] - c0), 0, c)
      src == FoldSet(LAMBDA x, a : a + (x[1] - r0) * (x[2] - c0), 0, c)
      nr == n * srr - sr * sr
      nc == n * scc - sc * sc
      nx == n * src - sr * sc
      vr == Rdiv(1000 * nr, n * n)
      vc == Rdiv(1000 * nc, n * n)
      vx == IF nx < 0 THEN -Rdiv(-1000 * nx, n * n) ELSE Rdiv(1000 * nx, n * n)
      round == nx = 0 /\ nr = nc
      d == IF nx = 0 THEN Abs(vr - vc) ELSE Isqrt((vr - vc) * (vr - vc) + 4 * vx * vx)
      l1 == (vr + vc + d) \div 2
      l2 == (vr + vc - d) \div 2
  IN  [n |-> n, r |-> sr + n * r0, c |-> sc + n * c0,                    \* centre, times n
       major |-> Isqrt(16000 * l1) - 1000, minor |-> Isqrt(16000 * l2) - 1000,
       round |-> round, straight |-> nx = 0,
       cos |-> IF d = 0 THEN 1000 ELSE (1000 * (vr - vc)) \div d,           \* of twice the angle from the rows' axis
       sin |-> IF d = 0 THEN 0 ELSE (2000 * vx) \div d]
\* too thin for the arithmetic
Odd(e) == e.minor < 300
Ellipses(s, area) == LET k == {c \in Clusters(s) : FilledArea(c) >= area} IN {EllipseOf(c) : c \in k}

\* a sum divided by n, to the nearest integer, halves to even
HalfEven(s, n) == LET q == s \div n r == s % n
                  IN  IF 2 * r < n THEN q ELSE IF 2 * r > n THEN q + 1 ELSE IF q % 2 = 0 THEN q ELSE q + 1
\* centres are counted from zero by the code: halves go to the even of the index less one
CentreR(e) == HalfEven(e.r - e.n, e.n) + 1
CentreC(e) == HalfEven(e.c - e.n, e.n) + 1

\* half an axis, in whole pixels
Half(x) == (x + 1000) \div 2000
HalfAmb(x) == LET m == (x - 1000) % 2000 IN m < Tol \/ m > 2000 - Tol

\* a filled ellipse of half axes a1 (major), a2 (minor) pixels: what is certainly inside, and what may be
InEllipse(e, a1, a2, x) ==
  LET dr == x[1] - CentreR(e) dc == x[2] - CentreC(e)
      A == a1 * a1 B == a2 * a2
      rest == IF Abs(dr) > Max2(a1, a2) \/ Abs(dc) > Max2(a1, a2) THEN 2000000000
              ELSE dr * dr * (1000 * (A + B) + e.cos * (B - A)) + dc * dc * (1000 * (A + B) - e.cos * (B - A))
                   + 2 * dr * dc * e.sin * (B - A) - 2000 * A * B
      tol == IF e.straight \/ a1 = a2 THEN 0 ELSE 3 * (dr * dr + dc * dc + 2 * Abs(dr * dc)) * Abs(A - B)
  IN  IF rest = 0 /\ e.straight /\ ~e.round /\ (dr = 0 \/ dc = 0) THEN "out"      \* no rounding there
      ELSE IF rest < -tol THEN "in" ELSE IF rest > tol THEN "out" ELSE "amb"
Filled(p, e, a1, a2) ==
  IF a1 <= 0 \/ a2 <= 0 THEN [in |-> {}, amb |-> {}]
  ELSE LET m == a1 + 1
           near == {x \in Grid(p) : Abs(x[1] - CentreR(e)) <= m /\ Abs(x[2] - CentreC(e)) <= m}
           v == TLCEval([x \in near |-> InEllipse(e, a1, a2, x)])
       IN  [in |-> TLCEval({x \in near : v[x] = "in"}), amb |-> TLCEval({x \in near : v[x] = "amb"})]

Cap(p, x) == Min2(x, 1000 * p.maxWidth)
\* an ellipse grown by a factor (tenths): both axes by the growth of the minor one
Grown(p, e, exp) ==
  LET x1 == Cap(p, e.major + (e.minor * (exp - 10)) \div 10)
      x2 == Cap(p, e.minor + (e.minor * (exp - 10)) \div 10)
      f == Filled(p, e, Half(x1), Half(x2))
  IN  [in |-> f.in, unsure |-> f.amb, amb |-> HalfAmb(x1) \/ HalfAmb(x2) \/ Odd(e)]

\* --- snowballs --------------------------------------------------------------------
\* whether the centre of the ellipse s lies inside the ellipse e
CentreIn(s, e) ==
  LET dr == (100 * s.r) \div s.n - (100 * e.r) \div e.n          \* hundredths of a pixel
      dc == (100 * s.c) \div s.n - (100 * e.c) \div e.n
      A == Rdiv(e.major, 20) * Rdiv(e.major, 20)                     \* squares of the half axes
      B == Rdiv(e.minor, 20) * Rdiv(e.minor, 20)
      far == Abs(dr) > e.major \div 10 \/ Abs(dc) > e.major \div 10
      \* 2 x = dr^2 (1 + cos) + dc^2 (1 - cos) + 2 dr dc sin : squared distance along the major axis
      x == (((dr * dr) \div 10) * (1000 + e.cos) + ((dc * dc) \div 10) * (1000 - e.cos) + ((2 * dr * dc) \div 10) * e.sin) \div 200
      y == (((dr * dr) \div 10) * (1000 - e.cos) + ((dc * dc) \div 10) * (1000 + e.cos) - ((2 * dr * dc) \div 10) * e.sin) \div 200
      \* x / (major / 2)^2 + y / (minor / 2)^2 in hundredths; major / 2 in hundredths of a pixel is major / 20
      v == (x * 100) \div A + (y * 100) \div B
  IN  IF far THEN "out" ELSE IF v < 96 THEN "in" ELSE IF v > 104 THEN "out" ELSE "amb"
AtEdge(p, e) ==       \* the code counts rows and columns from zero
  LET r == e.r - e.n c == e.c - e.n
  IN  \/ c < p.edge * e.n \/ r < p.edge * e.n
      \/ c > Max2(0, p.nc - p.edge) * e.n \/ r > Max2(0, p.nr - p.edge) * e.n

With(p, dq, b) == {x \in Grid(p) : Has(dq[x], b)}
\* one group of one integration: S = [q: integration's groups, persist: set of pixels, n, amb]
Group(p, S, g) ==
  LET q == S.q
      sat(k) == With(p, q[k], p.F.sat)
      new == TLCEval(Ellipses(sat(g) \ sat(g - 1), p.minSat))
      next == TLCEval(IF g < Len(q) THEN Ellipses(sat(g + 1) \ sat(g), p.minSat) ELSE {})
      jumps == TLCEval(Ellipses(With(p, q[g], p.F.jump), p.minJump))
      cores == new \cup next
      is(j) == IF ~p.satRequired \/ AtEdge(p, j) THEN "in"
               ELSE LET v == {CentreIn(s, j) : s \in cores} IN IF "in" \in v THEN "in" ELSE IF "amb" \in v THEN "amb" ELSE "out"
      snow == TLCEval({j \in jumps : is(j) = "in"})
      wide == IF p.satRequired THEN {s \in new : s.minor > 100 * p.minSatR} ELSE {}
      grow == TLCEval([s \in wide |-> LET x1 == Cap(p, s.major + 1000 * p.satExpand) x2 == Cap(p, s.minor + 1000 * p.satExpand)
                                  f == Filled(p, s, Half(x1), Half(x2))
                                  k == Filled(p, s, Half(s.major), Half(s.minor))
                              IN  [in |-> f.in, keep |-> k.in, unsure |-> f.amb, unsurek |-> k.amb,
                                   amb |-> HalfAmb(x1) \/ HalfAmb(x2) \/ HalfAmb(s.major) \/ HalfAmb(s.minor)]])
      core == TLCEval(UNION {grow[s].in : s \in wide})
      q1 == TLCEval([k \in DOMAIN q |-> IF k < g \/ core = {} THEN q[k]
               ELSE TLCEval([x \in DOMAIN q[k] |-> IF x \in core THEN SetB(Without(q[k][x], p.F.jump), p.F.sat) ELSE q[k][x]])])
      big == TLCEval([j \in snow |-> TLCEval(Grown(p, j, p.expand))])
      edge == TLCEval(UNION {grow[s].unsure : s \in wide})
      rim == UNION {big[j].unsure : j \in snow}
      halo == TLCEval(UNION {big[j].in : j \in snow})
      q2 == IF halo = {} THEN q1
            ELSE [q1 EXCEPT ![g] = TLCEval([x \in DOMAIN q1[g] |-> IF x \in halo /\ ~Has(q1[g][x], p.F.sat) THEN SetB(q1[g][x], p.F.jump) ELSE q1[g][x]])]
  IN  [q |-> q2, unsure |-> S.unsure \cup {<<g, x>> : x \in rim} \cup (g..Len(q)) \X edge,
       unsurek |-> S.unsurek \cup UNION {grow[s].unsurek : s \in wide}, persist |-> S.persist \cup UNION {grow[s].keep : s \in wide}, n |-> S.n + Cardinality(snow),
       amb |-> \/ S.amb \/ \E j \in jumps : is(j) = "amb" \/ (p.satRequired /\ ~AtEdge(p, j) /\ Odd(j) /\ cores # {})
               \/ \E s \in new : p.satRequired /\ Abs(s.minor - 100 * p.minSatR) < Tol
               \/ \E s \in wide : grow[s].amb
               \/ \E x \in edge, k \in (g + 1)..Len(q) : Has(q[k][x], p.F.sat) \/ Has(q[k][x], p.F.jump)
               \/ \E j \in snow : big[j].amb]
RECURSIVE Groups(_, _, _)
Groups(p, S, g) == IF g > Len(S.q) THEN S ELSE Groups(p, TLCEval(Group(p, S, g)), g + 1)
Snowballs(p, q) ==
  LET S == TLCEval([i \in DOMAIN q |-> Groups(p, [q |-> q[i], persist |-> {}, unsure |-> {}, unsurek |-> {}, n |-> 0, amb |-> FALSE], 2)])
      last == Min2(p.persistN, Len(q[1]))
      later(i, k, x) == p.persist /\ i > 1 /\ k > 1 /\ k <= last /\ x \in S[i - 1].persist
  IN  [q |-> TLCEval([i \in DOMAIN q |-> TLCEval([k \in DOMAIN q[i] |-> TLCEval([x \in DOMAIN q[i][k] |->
               IF later(i, k, x) THEN SetB(S[i].q[k][x], p.F.jump) ELSE S[i].q[k][x]])])]),
       unsure |-> UNION {{<<i, z[1], z[2]>> : z \in S[i].unsure} : i \in DOMAIN q}
                  \cup UNION {{<<i, k, x>> : k \in 2..last, x \in S[i - 1].unsurek} : i \in 2..Len(q)},
       n |-> SumSeq([i \in DOMAIN S |-> S[i].n]), amb |-> \E i \in DOMAIN S : S[i].amb]

\* --- showers ------------------------------------------------------------------------
\* d: [integration -> [group -> [pixel -> counts]]]; rn: [pixel -> read noise]; pdq: [pixel -> word]
Bad(p, w) == Has(w, p.F.sat) \/ Has(w, p.F.dnu) \/ Has(w, p.F.jump)
Ring(p) == LET k == p.ringIn + p.ringWidth          \* tenths
               m == k \div 10
           IN  {x \in (-m..m) \X (-m..m) : LET dd == 100 * (x[1] * x[1] + x[2] * x[2]) IN p.ringIn * p.ringIn <= dd /\ dd <= k * k}
\* twice the median of a bag of values given as a sequence
Med2(s) == LET t == SortSeq(s, LAMBDA a, b : a < b) n == Len(t)
           IN  IF n % 2 = 1 THEN 2 * t[(n + 1) \div 2] ELSE t[n \div 2] + t[n \div 2 + 1]
RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Concat(Tail(s))

\* the first group of an integration that is not unusable everywhere
Good1(p, q) == LET g == {k \in DOMAIN q : \E x \in Grid(p) : ~Has(q[k][x], p.F.dnu)} IN IF g = {} THEN 1 ELSE Min(g)

Showers(p, d, rn, pdq, q0) ==
  LET NI == Len(d) NG == Len(d[1])
      alldnu(i, k) == \A x \in Grid(p) : Has(q0[i][k][x], p.F.dnu)
      dead == Cardinality({z \in (1..NI) \X (1..NG) : alldnu(z[1], z[2])})
      G == Grid(p)
      \* reference pixels are set aside
      q1 == TLCEval([i \in 1..NI |-> TLCEval([k \in 1..NG |-> TLCEval([x \in G |-> IF pdq[x] = p.F.ref THEN p.F.dnu ELSE q0[i][k][x]])])])
      ok(i, k, x) == ~Bad(p, q0[i][k][x])
      usable == TLCEval([i \in 1..NI |-> TLCEval([k \in 1..(NG - 1) |-> TLCEval({x \in G : ok(i, k, x) /\ ok(i, k + 1, x)})])])
      df(i, k, x) == d[i][k + 1][x] - d[i][k][x]
      ofpix(x) == Concat([i \in 1..NI |-> Concat([k \in 1..(NG - 1) |-> IF x \in usable[i][k] THEN <<df(i, k, x)>> ELSE <<>>])])
      ofgrp(x, k) == Concat([i \in 1..NI |-> IF x \in usable[i][k] THEN <<df(i, k, x)>> ELSE <<>>])
      clip == NI >= p.minSig
      none == [m |-> 0, s |-> 0, ok |-> FALSE, exact |-> TRUE]
      \* twice the median, and the noise in thousandths
      stat(s, x) ==
        IF s = <<>> THEN none
        ELSE IF clip
        THEN LET n == Len(s) a == SumSeq(s) b == SumSeq([j \in DOMAIN s |-> s[j] * s[j]])
                 v == n * b - a * a
             IN  [m |-> Med2(s), s |-> IF Square(v) THEN (1000 * Isqrt(v)) \div n ELSE Isqrt(Rdiv(10000 * v, n * n)) * 10, ok |-> v > 0,
                  exact |-> Square(v) /\ (1000 * Isqrt(v)) % n = 0]
        ELSE LET m == Med2(s) v == Abs(m) * p.nf + 2 * rn[x] * rn[x]    \* 2 nf sigma^2
                 w == v \div (2 * p.nf)
                 ex == v % (2 * p.nf) = 0 /\ Square(w)
             IN  [m |-> m, s |-> IF ex THEN 1000 * Isqrt(w) ELSE Isqrt(Rdiv(v * 5000, p.nf)) * 10, ok |-> v > 0, exact |-> ex]
      pix == TLCEval(IF clip THEN <<>> ELSE [x \in G |-> stat(ofpix(x), x)])
      \* ratio in units of 1/1000
      ring == TLCEval(Ring(p))
      plane(i, k) ==       \* group k + 1 of integration i
        LET sg == TLCEval(IF clip THEN [x \in G |-> stat(ofgrp(x, k), x)] ELSE pix)
            can == TLCEval({x \in usable[i][k] : sg[x].ok /\ ~Bad(p, q1[i][k + 1][x]) /\ ~Bad(p, pdq[x])})
            rat == TLCEval([x \in can |-> LET num == Abs(2 * df(i, k, x) - sg[x].m) * 500
                                          IN  [v |-> (num * 1000) \div sg[x].s, exact |-> sg[x].exact /\ (num * 1000) % sg[x].s = 0]])
            sum(x) == FoldSet(LAMBDA o, a : LET y == <<x[1] + o[1], x[2] + o[2]>>
                                            IN  IF y \in can THEN [s |-> a.s + rat[y].v, n |-> a.n + 1, e |-> a.e + (IF rat[y].exact THEN 0 ELSE 2 + rat[y].v \div 200)]
                                                ELSE IF y \notin G THEN [a EXCEPT !.n = @ + 1] ELSE a, [s |-> 0, n |-> 0, e |-> 0], ring)
            z == TLCEval([x \in can |-> sum(x)])
            above(x) == z[x].n > 0 /\ z[x].s * 100 > p.snr * 1000 * z[x].n          \* snr in hundredths
        IN  [on |-> {x \in can : above(x)},
             amb |-> \E x \in can : z[x].n > 0 /\ Abs(z[x].s * 100 - p.snr * 1000 * z[x].n) <= 100 * z[x].e + 1]
      found == TLCEval([i \in 1..NI |-> TLCEval([k \in 1..(NG - 1) |->
                 IF k + 1 <= Good1(p, q1[i]) THEN [es |-> {}, amb |-> FALSE]
                 ELSE LET pl == TLCEval(plane(i, k)) IN [es |-> IF pl.on = {} THEN {} ELSE TLCEval(Ellipses(pl.on, p.minShower)), amb |-> pl.amb]])])
      \* what is drawn for an ellipse found in group k + 1: later groups only where not saturated so far
      drawn == TLCEval([i \in 1..NI |-> TLCEval([k \in 1..(NG - 1) |-> TLCEval({TLCEval(Grown(p, e, p.showerExpand)) : e \in found[i][k].es})])])
      last(k) == Min2(k + 1 + p.masked, NG)
      hit(i, h, x) == \E k \in 1..(NG - 1) : k + 1 <= h /\ h <= last(k) /\ (\E e \in drawn[i][k] : x \in e.in)
                        /\ \A j \in (k + 1)..h : ~Has(q1[i][j][x], p.F.sat)
      q2 == TLCEval([i \in 1..NI |-> TLCEval([k \in 1..NG |-> TLCEval([x \in G |-> IF hit(i, k, x) THEN SetB(q1[i][k][x], p.F.jump) ELSE q1[i][k][x]])])])
      rate(q, i, x) == LET ks == {k \in 1..(NG - 1) : ~Bad(p, q[i][k][x]) /\ ~Bad(p, q[i][k + 1][x])}
                       IN  [n |-> Cardinality(ks), s |-> FoldSet(LAMBDA k, a : a + df(i, k, x), 0, ks)]
      \* too large a change of the rate: not a shower
      gap(i, x) == LET a == rate(q0, i, x) b == rate(q2, i, x)
                   IN  IF a.n = 0 \/ b.n = 0 THEN [undo |-> TRUE, amb |-> FALSE]
                       ELSE LET l == 10 * Abs(a.s * b.n - b.s * a.n) r == p.maxAmp * a.n * b.n
                            IN  [undo |-> l > r, amb |-> l = r]
      gaps == TLCEval([i \in 1..NI |-> TLCEval([x \in G |-> IF \A k \in 1..NG : q2[i][k][x] = q0[i][k][x] THEN [undo |-> FALSE, amb |-> FALSE] ELSE gap(i, x)])])
      q3 == TLCEval([i \in 1..NI |-> TLCEval([k \in 1..NG |-> TLCEval([x \in G |-> IF gaps[i][x].undo THEN q0[i][k][x] ELSE q2[i][k][x]])])])
  IN  IF NI * (NG - 1) - dead < 10 THEN [q |-> q0, n |-> 0, unsure |-> {}, amb |-> FALSE]
      ELSE [q |-> q3, unsure |-> UNION {UNION {UNION {{<<i, h, x>> : h \in 1..NG, x \in e.unsure} : e \in drawn[i][k]} : k \in 1..(NG - 1)} : i \in 1..NI},
            n |-> SumSeq([i \in 1..NI |-> SumSeq([k \in 1..(NG - 1) |-> Cardinality(found[i][k].es)])]),
            amb |-> \/ \E i \in 1..NI : \E k \in 1..(NG - 1) : found[i][k].amb \/ \E e \in drawn[i][k] : e.amb
                    \/ \E i \in 1..NI : \E x \in G : gaps[i][x].amb]
=============================================================================
