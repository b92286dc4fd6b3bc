------------------------------ MODULE RampOLS ------------------------------
(* Ordinary least squares ramp fitting of one exposure.                       *)
(*                                                                            *)
(* m: the exposure's metadata [ng, ni, tg, tf, nf, gap, drop, miri, suppress, *)
(*    F] with F = [dnu, sat, jump, pers, nogain, chg] the flag values;        *)
(* a pixel: [ints, pdq, gain, rn, dark, zf], ints a sequence over             *)
(*    integrations of [d, q] (data and data quality of each group), zf a      *)
(*    sequence of zero-frame values (empty: no zero frame).                   *)
(* Times and data are integers. Numbers are kept as thousandths.              *)
EXTENDS Bits, TLC, PowTab, FiniteSets

NaNV == 2000000001
SumF(S, f(_)) == LET RECURSIVE g(_)
                     g(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN f(x) + g(T \ {x})
                 IN  g(S)
Count(s, P(_)) == Cardinality({i \in DOMAIN s : P(s[i])})

\* n/d in thousandths (d > 0), rounding down
Fix(n, d) == LET s == IF d > 2000000 THEN 20 ELSE 1      \* (within 32 bits)
             IN  (n \div d) * 1000 + (((n % d) \div s) * 1000) \div (d \div s)

---------------------------------------------------------------------------
(* Which groups are used.                                                     *)

\* a group is good when it has no flag but possibly persistence
Good(F, q) == Without(q, F.pers) = 0
\* a group that is nothing but a jump (and possibly persistence)
OnlyJump(F, q) == Without(q, F.pers) = F.jump

\* The scan over the groups of one integration: state [k, in, start, segs].
ScanInit == [k |-> 1, in |-> FALSE, start |-> 0, segs |-> <<>>]
ScanStep(F, q, s) ==
  LET k == s.k
  IN IF Good(F, q[k])
     THEN IF s.in THEN [s EXCEPT !.k = k + 1]
          ELSE [s EXCEPT !.k = k + 1, !.in = TRUE,
                         !.start = IF k > 1 /\ OnlyJump(F, q[k - 1]) THEN k - 1 ELSE k]
     ELSE IF s.in THEN [s EXCEPT !.k = k + 1, !.in = FALSE,
                                 !.segs = Append(s.segs, [start |-> s.start, len |-> k - s.start])]
          ELSE [s EXCEPT !.k = k + 1]
ScanEnd(s, n) == IF s.in THEN Append(s.segs, [start |-> s.start, len |-> n + 1 - s.start]) ELSE s.segs
RECURSIVE ScanFrom(_, _, _)
ScanFrom(F, q, s) == IF s.k > Len(q) THEN ScanEnd(s, Len(q)) ELSE ScanFrom(F, q, ScanStep(F, q, s))

\* Segments of one group count only where there is nothing longer, and then only the first.
Prune(segs) == IF \E i \in DOMAIN segs : segs[i].len > 1
               THEN SelectSeq(segs, LAMBDA x : x.len > 1)
               ELSE IF segs = <<>> THEN segs ELSE <<segs[1]>>
AllSegs(F, q) == Prune(ScanFrom(F, q, ScanInit))

---------------------------------------------------------------------------
(* One integration, prepared: suppression of one-group ramps, the zero frame. *)

Suppress(m, q) == IF m.suppress /\ Count(q, LAMBDA x : Good(m.F, x)) = 1
                  THEN [k \in DOMAIN q |-> SetB(q[k], m.F.dnu)] ELSE q
\* every integration of a pixel: [d, q, oq], oq the flags before suppression
SuppressPix(m, p) == [p EXCEPT !.ints = [i \in DOMAIN p.ints |->
                        [d |-> p.ints[i].d, q |-> Suppress(m, p.ints[i].q), oq |-> p.ints[i].q]]]

\* prepared integration: data, dq as fitted, statistics taken before the zero frame
Prep(m, p, i) ==
  LET F    == m.F
      q    == p.ints[i].q
      d    == [k \in DOMAIN q |-> IF Has(q[k], F.sat) THEN NaNV ELSE p.ints[i].d[k]]
      n    == Len(q)
      good == Count(q, LAMBDA x : x = 0)
      sat  == Count(q, LAMBDA x : Has(x, F.sat))
      bad  == Count(q, LAMBDA x : Has(x, F.sat) \/ Has(x, F.dnu))
      is0  == ~m.suppress /\ good = 1 /\ q[1] = 0
      isz  == ~m.suppress /\ good = 0 /\ p.zf # <<>> /\ p.zf[i] # 0
  IN  [q    |-> IF isz THEN [q EXCEPT ![1] = 0] ELSE q,
       d    |-> IF isz THEN [d EXCEPT ![1] = p.zf[i]] ELSE d,
       jump |-> \E k \in DOMAIN q : Has(q[k], F.jump),
       pers |-> \E k \in DOMAIN q : Has(q[k], F.pers),
       chg  |-> \E k \in DOMAIN q : Has(q[k], F.chg),
       psat |-> (IF isz /\ sat = n THEN sat - 1 ELSE sat) > 0,
       allbad |-> ~isz /\ bad = n, allsat |-> ~isz /\ sat = n,
       is0 |-> is0, isz |-> isz,
       tau2 |-> IF is0 THEN (m.nf + 1) * m.tf ELSE IF isz THEN 2 * m.tf ELSE 2 * m.tg]

FirstSat(m, r) == Has(r.q[1], m.F.sat)
Segs(m, r) == IF FirstSat(m, r) \/ r.allbad THEN <<>> ELSE AllSegs(m.F, r.q)

---------------------------------------------------------------------------
(* Data quality of the results.                                               *)

BadGain(p) == p.gain = NaNV \/ p.gain <= 0
PixDQ(m, p) == IF BadGain(p) THEN SetB(p.pdq, SetB(m.F.dnu, m.F.nogain)) ELSE p.pdq

IntDQ0(m, p, r) ==     \* before the flag for partial saturation
  LET F == m.F
      a == PixDQ(m, p)
      b == IF r.jump THEN SetB(a, F.jump) ELSE a
      c == IF r.pers THEN SetB(b, F.pers) ELSE b
      d == IF FirstSat(m, r) THEN SetB(c, SetB(F.dnu, F.sat)) ELSE c
  IN  IF r.allbad THEN SetB(d, IF r.allsat THEN SetB(F.dnu, F.sat) ELSE F.dnu) ELSE d
IntDQ(m, p, r) == IF r.psat THEN SetB(IntDQ0(m, p, r), m.F.sat) ELSE IntDQ0(m, p, r)
Invalid(m, dq) == Has(dq, m.F.dnu) \/ Has(dq, m.F.sat)

RateDQ0(m, p, rs) ==
  LET F == m.F
      a == PixDQ(m, p)
      b == IF \E i \in DOMAIN rs : rs[i].jump THEN SetB(a, F.jump) ELSE a
      c == IF \E i \in DOMAIN rs : rs[i].pers THEN SetB(b, F.pers) ELSE b
      d == IF \A i \in DOMAIN rs : Has(IntDQ0(m, p, rs[i]), F.dnu) THEN SetB(c, F.dnu) ELSE c
  IN  IF \A i \in DOMAIN rs : Has(IntDQ0(m, p, rs[i]), F.sat) THEN SetB(d, F.sat) ELSE d
RateDQ(m, p, rs) == IF \E i \in DOMAIN rs : rs[i].psat THEN SetB(RateDQ0(m, p, rs), m.F.sat)
                    ELSE RateDQ0(m, p, rs)

---------------------------------------------------------------------------
(* Slopes.                                                                    *)

\* ten times the power of the weights, from the signal to noise ratio of the segment's end-to-end difference
Power(m, p, r, s) ==
  LET E == r.d[s.start + s.len - 1] - r.d[s.start]
      D == E * p.gain                               \* electrons
      R == p.rn * p.rn * p.gain                     \* 2 nf x read variance, in electrons, over the gain
      ge(T) == 2 * m.nf * E * D >= T * T * (R + 2 * m.nf * E)
  IN  IF D <= 0 THEN 0 ELSE IF ~ge(5) THEN 0 ELSE IF ~ge(10) THEN 4 ELSE IF ~ge(20) THEN 10
      ELSE IF ~ge(50) THEN 30 ELSE IF ~ge(100) THEN 60 ELSE 100

\* slope per group time of a segment of at least two groups, in thousandths
SegSlope(m, p, r, s) ==
  IF s.len = 2 THEN 1000 * (r.d[s.start + 1] - r.d[s.start])
  ELSE LET w   == PW[Power(m, p, r, s)][s.len]
           c(k) == s.len + 1 - 2 * k
           N   == SumF(DOMAIN w, LAMBDA k : w[k] * c(k) * (r.d[s.start + s.len - k] - r.d[s.start + k - 1]))
           D   == SumF(DOMAIN w, LAMBDA k : w[k] * c(k) * c(k))
       IN  Fix(N, D)

\* weight of a segment: inversely proportional to its read-noise variance 12 rn^2 / (nf u)
\* the signal to noise ratio sits on a boundary between two powers
TieSnr(m, p, r, s) ==
  LET E == r.d[s.start + s.len - 1] - r.d[s.start]
      R == p.rn * p.rn * p.gain
  IN  s.len > 2 /\ E > 0 /\ \E T \in {5, 10, 20, 50, 100} :
        Abs(2 * m.nf * E * E * p.gain - T * T * (R + 2 * m.nf * E)) <= (T * T * (R + 2 * m.nf * E)) \div 200000
U(m, r, s) == IF s.len = 1 THEN 3 * r.tau2 * r.tau2
              ELSE 2 * (s.len * s.len * s.len - s.len) * m.tg * m.tg
\* slope in counts per unit time, in thousandths
Slope(m, p, r, s) == IF s.len = 1 THEN Fix(2 * r.d[s.start], r.tau2)
                     ELSE SegSlope(m, p, r, s) \div m.tg

\* weighted mean of the pairs <<value in thousandths, weight>>
WMean(ps) ==
  LET W == SumF(DOMAIN ps, LAMBDA k : ps[k][2])
      A == SumF(DOMAIN ps, LAMBDA k : (ps[k][1] \div 1000) * ps[k][2])
      B == SumF(DOMAIN ps, LAMBDA k : (ps[k][1] % 1000) * ps[k][2])
  IN  (A \div W) * 1000 + ((A % W) * 1000 + B) \div W

IntPairs(m, p, r) == [k \in DOMAIN Segs(m, r) |-> <<Slope(m, p, r, Segs(m, r)[k]), U(m, r, Segs(m, r)[k])>>]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

IntSlope(m, p, r) ==
  IF Invalid(m, IntDQ0(m, p, r)) THEN NaNV
  ELSE IF Segs(m, r) = <<>> THEN 0 ELSE WMean(IntPairs(m, p, r))
RateSlope(m, p, rs) ==
  LET ps == Cat([i \in DOMAIN rs |-> IntPairs(m, p, rs[i])])
  IN  IF Invalid(m, RateDQ0(m, p, rs)) THEN NaNV ELSE IF ps = <<>> THEN 0 ELSE WMean(ps)

---------------------------------------------------------------------------
(* Variances, in thousandths.                                                 *)

VarR(m, p, u) == Fix(12 * p.rn * p.rn, m.nf * u)
IntU(m, r) == SumF(DOMAIN Segs(m, r), LAMBDA k : U(m, r, Segs(m, r)[k]))

\* the integration's segments had its charge-loss groups not been excluded
ChgSegs(m, p, i) ==
  LET q == [k \in DOMAIN p.ints[i].oq |->
              IF Has(p.ints[i].oq[k], m.F.chg)
              THEN Without(p.ints[i].oq[k], SetB(m.F.chg, m.F.dnu)) ELSE p.ints[i].oq[k]]
  IN  AllSegs(m.F, q)
ChgU(m, p, r, i) == LET ss == ChgSegs(m, p, i) IN SumF(DOMAIN ss, LAMBDA k : U(m, r, ss[k]))

IntVarR(m, p, r, i) ==
  IF r.chg THEN IF ChgU(m, p, r, i) = 0 THEN 0 ELSE VarR(m, p, ChgU(m, p, r, i))
  ELSE IF Segs(m, r) = <<>> \/ Invalid(m, IntDQ0(m, p, r)) THEN 0 ELSE VarR(m, p, IntU(m, r))

RateVarR(m, p, rs) ==
  LET chg == \E i \in DOMAIN rs : rs[i].chg
      u1(i) == IF rs[i].chg THEN ChgU(m, p, rs[i], i)
               ELSE IF Invalid(m, IntDQ0(m, p, rs[i])) THEN 0 ELSE IntU(m, rs[i])
      u  == SumF(DOMAIN rs, LAMBDA i : IF chg THEN u1(i) ELSE IntU(m, rs[i]))
  IN  IF (~chg /\ Invalid(m, RateDQ0(m, p, rs))) \/ u = 0 THEN 0 ELSE VarR(m, p, u)

\* twice the median of the numbers in s; NaN if none
Med2(s) == LET t == SortSeq(SelectSeq(s, LAMBDA x : x # NaNV), <)
               k == Len(t)
           IN  IF k = 0 THEN NaNV ELSE IF k % 2 = 1 THEN 2 * t[(k + 1) \div 2]
               ELSE t[k \div 2] + t[k \div 2 + 1]
Use(F, r, k) == IF Has(r.q[k], F.dnu) THEN NaNV ELSE r.d[k]
Diffs(F, r) == [k \in 1..(Len(r.q) - 1) |->
                  IF Has(r.q[k + 1], F.jump) \/ Use(F, r, k) = NaNV \/ Use(F, r, k + 1) = NaNV THEN NaNV
                  ELSE r.d[k + 1] - r.d[k]]
IntRate(m, r) ==       \* in thousandths
  IF r.is0 \/ r.isz THEN Fix(2 * r.d[1], r.tau2)
  ELSE LET md == Med2(Diffs(m.F, r))
       IN  IF md # NaNV THEN Fix(md, 2 * m.tg)
           ELSE IF Use(m.F, r, 1) # NaNV THEN Fix(r.d[1], m.tg) ELSE 0
MedianRate(m, rs) ==
  IF m.ng = 1
  THEN IF \E i \in DOMAIN rs : rs[i].d[1] = NaNV THEN 0
       ELSE SumF(DOMAIN rs, LAMBDA i : Fix(2 * rs[i].d[1], (m.nf + 1) * m.tf)) \div Len(rs)
  ELSE SumF(DOMAIN rs, LAMBDA i : IntRate(m, rs[i])) \div Len(rs)

\* poisson exposure of a segment: twice its effective time
PT2(m, r, s) == IF s.len = 1 THEN r.tau2 ELSE 2 * m.tg * (s.len - 1)
Signal(m, p, rs) == Max2(0, MedianRate(m, rs)) + 1000 * p.dark
VarPT(m, p, rs, t2) == IF t2 = 0 THEN 0 ELSE (2 * Signal(m, p, rs)) \div (p.gain * t2)
IntT2(m, r) == SumF(DOMAIN Segs(m, r), LAMBDA k : PT2(m, r, Segs(m, r)[k]))
IntVarP(m, p, rs, i) == IF Invalid(m, IntDQ0(m, p, rs[i])) THEN 0 ELSE VarPT(m, p, rs, IntT2(m, rs[i]))
RateVarP(m, p, rs) == IF Invalid(m, RateDQ0(m, p, rs)) THEN 0
                      ELSE VarPT(m, p, rs, SumF(DOMAIN rs, LAMBDA i : IntT2(m, rs[i])))

\* squares of the errors
SegVar(m, p, rs, i, s) == VarPT(m, p, rs, PT2(m, rs[i], s)) + VarR(m, p, U(m, rs[i], s))
IntErr2(m, p, rs, i) ==
  LET ss == Segs(m, rs[i])
      iv == SumF(DOMAIN ss, LAMBDA k : 500000000 \div Max2(1, SegVar(m, p, rs, i, ss[k])))
  IN  IF Invalid(m, IntDQ0(m, p, rs[i])) \/ ss = <<>> THEN 0
      ELSE IF Len(ss) = 1 THEN SegVar(m, p, rs, i, ss[1])
      ELSE IF iv = 0 THEN NaNV ELSE 500000000 \div iv
RateErr2(m, p, rs) ==
  IF Invalid(m, RateDQ0(m, p, rs)) THEN 0
  ELSE RateVarP(m, p, rs) + (LET u == SumF(DOMAIN rs, LAMBDA i : IntU(m, rs[i]))
                             IN  IF u = 0 THEN 0 ELSE VarR(m, p, u))

---------------------------------------------------------------------------
(* Optional results.                                                          *)
CRMags(m, r0, d) ==    \* r0: dq before the zero frame
  LET ks == SelectSeq([k \in 1..Len(r0) |-> k], LAMBDA k : k > 1 /\ Has(r0[k], m.F.jump))
  IN  [j \in DOMAIN ks |-> IF d[ks[j]] = NaNV \/ d[ks[j] - 1] = NaNV THEN NaNV ELSE d[ks[j]] - d[ks[j] - 1]]
Pedestal(m, p, r) ==   \* in thousandths
  IF Has(IntDQ0(m, p, r), m.F.sat) \/ IntSlope(m, p, r) = NaNV \/ r.d[1] = NaNV THEN 0
  ELSE LET s == IntSlope(m, p, r)
           a == m.nf + 1 + 2 * Max2(0, m.drop)
           b == 2 * (m.nf + m.gap)
       IN  1000 * r.d[1] - ((s \div b) * a + ((s % b) * a) \div b)

\* the middle group counts in a flat weighting only
MidCounts(m, p, r, s) == s.len % 2 = 1 /\ Power(m, p, r, s) = 0
SegV(m, p, r, s) == IF s.len = 2 THEN <<20000>> ELSE PW[Power(m, p, r, s)][s.len]
SegW(m, p, r, s) == LET v == SegV(m, p, r, s) IN 2 * SumF(DOMAIN v, LAMBDA k : v[k]) + (IF MidCounts(m, p, r, s) THEN v[1] ELSE 0)
\* intercept of a segment's line at the first group of the integration, in thousandths
SegYint(m, p, r, s) ==
  IF s.len = 1 THEN 0
  ELSE LET v == SegV(m, p, r, s)
           Y == SumF(DOMAIN v, LAMBDA k : v[k] * (r.d[s.start + s.len - k] + r.d[s.start + k - 1]))
                + (IF MidCounts(m, p, r, s) THEN v[1] * r.d[s.start + s.len \div 2] ELSE 0)
       IN  Fix(Y, SegW(m, p, r, s)) - (SegSlope(m, p, r, s) * (2 * (s.start - 1) + s.len - 1)) \div 2
\* squares of the standard errors of a segment's slope per group and of its intercept, in thousandths
SegC(m, p, r, s) == IF s.len = 2 THEN 20000
                    ELSE LET w == PW[Power(m, p, r, s)][s.len]
                         IN  SumF(DOMAIN w, LAMBDA k : w[k] * (s.len + 1 - 2 * k) * (s.len + 1 - 2 * k))
SegSig2(m, p, r, s) ==
  IF s.len = 1 THEN 0
  ELSE LET q == SegC(m, p, r, s) \div 20
           A == (1000 * p.rn * p.rn * p.gain * p.gain) \div m.nf
       IN  (A \div q) * 1000 + ((A % q) * 1000) \div q
SegSigY2(m, p, r, s) ==
  LET q == SegW(m, p, r, s) \div 20
      A == (500 * p.rn * p.rn * p.gain * p.gain) \div m.nf
      x == 2 * (s.start - 1) + s.len - 1
  IN  (A \div q) * 1000 + ((A % q) * 1000) \div q + ((SegSig2(m, p, r, s) \div 4) * x) * x
SegWt(m, p, r, s) == Fix(m.nf * U(m, r, s), 12 * p.rn * p.rn)

---------------------------------------------------------------------------
(* The exposure: groups of MIRI in which no pixel is usable are dropped at    *)
(* both ends.                                                                 *)
AllDNU(m, px, k) == \A j \in DOMAIN px : \A i \in DOMAIN px[j].ints : Has(px[j].ints[i].q[k], m.F.dnu)
Lead(m, px) == LET bad == {k \in 1..m.ng : \A h \in 1..k : AllDNU(m, px, h)} IN Cardinality(bad)
CutPix(m, p, a, b) ==
  [p EXCEPT !.ints = [i \in DOMAIN p.ints |->
     [d |-> SubSeq(p.ints[i].d, a, b), oq |-> SubSeq(p.ints[i].oq, a, b),
      q |-> [k \in 1..(b - a + 1) |->
               IF k = 1 /\ a > 1 THEN Without(p.ints[i].q[a], m.F.jump) ELSE p.ints[i].q[a + k - 1]]]]]
\* [none, m, px]: the exposure to be fitted
Trim(m, px) ==
  IF ~m.miri \/ m.ng < 2 THEN [none |-> FALSE, m |-> m, px |-> px]
  ELSE LET a == Lead(m, px) + 1
           b == IF a <= m.ng /\ AllDNU(m, px, m.ng) THEN m.ng - 1 ELSE m.ng
       IN  IF b - a + 1 < 2 THEN [none |-> TRUE, m |-> m, px |-> <<>>]
           ELSE [none |-> FALSE, m |-> [m EXCEPT !.ng = b - a + 1],
                 px |-> [j \in DOMAIN px |-> CutPix(m, px[j], a, b)]]
NothingLeft(m, px) == \A j \in DOMAIN px : \A i \in DOMAIN px[j].ints : Has(px[j].ints[i].q[1], m.F.sat)
\* suppression is not applied to exposures that have one group to begin with
Meta(m) == [m EXCEPT !.suppress = m.suppress /\ m.ng > 1]
=============================================================================
