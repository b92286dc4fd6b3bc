----------------------------- MODULE Saturation -----------------------------
(* Saturation flagging of one integration. Pixels are numbered row by row in  *)
(* an image of p.nc columns; a plane is a sequence of values. S is the state   *)
(* of the integration: sat (pixels that have reached their threshold), q       *)
(* (flags of the groups).                                                      *)
(* p: F (flags), nc, grow, reads (read pattern; <<>> for none), limit.         *)
EXTENDS Bits, FiniteSets, FiniteSetsExt, SequencesExt, TLC
CONSTANT NoValue            \* stands for NaN

Row(p, j) == (j - 1) \div p.nc
Col(p, j) == (j - 1) % p.nc
Grow(p, s, all) == IF p.grow = 0 \/ s = {} THEN s
                   ELSE {j \in all : \E k \in s : Abs(Row(p, j) - Row(p, k)) <= p.grow /\ Abs(Col(p, j) - Col(p, k)) <= p.grow}

\* a pixel is not checked if the reference says so or gives no threshold
Unchecked(p, thr, dq) == thr = NoValue \/ Has(dq, p.F.nochk)
Threshold(p, thr, dq) == IF Unchecked(p, thr, dq) THEN p.limit + 1 ELSE thr
Reaches(v, t) == v # NoValue /\ v >= t
AtFloor(v)    == v # NoValue /\ v <= 0
Mark(w, c, f) == IF c THEN SetB(w, f) ELSE w

\* --- forward: group g of the integration with values d (groups of planes), thresholds t (per group)
Forward(p, S, d, t, g) ==
  LET all == DOMAIN d[g]
      sat == TLCEval(S.sat \cup {j \in all : Reaches(d[g][j], t[g][j])})
      was == {j \in all : Has(S.q[g][j], p.F.sat)}
      wide == TLCEval(Grow(p, sat \cup was, all))
  IN  [sat |-> sat,
       q |-> [S.q EXCEPT ![g] = TLCEval([j \in all |-> Mark(Mark(S.q[g][j], j \in wide, p.F.sat), AtFloor(d[g][j]), p.F.floor | p.F.dnu)])]]

\* --- backward: a group averaged over several reads may have saturated in its last reads only
Sum(s) == SumSeq(s)
Diluted(p, g) == p.reads # <<>> /\ Sum(p.reads[g]) # Len(p.reads[g]) * p.reads[g][Len(p.reads[g])]
\* v >= t * mean / last
DilSign(p, g, v, t, un) ==
  LET r == p.reads[g] n == Len(r) IN IF un THEN v - t ELSE v * n * r[n] - t * Sum(r)
Partial(p, q, d, t, un, g) ==
  {j \in DOMAIN d[g] : /\ d[g][j] # NoValue /\ DilSign(p, g, d[g][j], t[g][j], un[g][j]) >= 0
                       /\ ~Has(q[g][j], p.F.sat) /\ ~Has(q[g][j], p.F.dnu) /\ Has(q[g + 1][j], p.F.sat)}
Backward(p, S, d, t, un, g) ==
  IF ~Diluted(p, g) THEN S
  ELSE LET s == TLCEval(Grow(p, Partial(p, S.q, d, t, un, g), DOMAIN d[g]))
       IN  IF s = {} THEN S ELSE [S EXCEPT !.q[g] = TLCEval([j \in DOMAIN d[g] |-> Mark(S.q[g][j], j \in s, p.F.dnu)])]
\* close calls of the backward pass
BackTie(p, d, t, un, g) == Diluted(p, g) /\ \E j \in DOMAIN d[g] : d[g][j] # NoValue /\ ~un[g][j] /\ DilSign(p, g, d[g][j], t[g][j], FALSE) = 0

\* --- the second group: saturated in the third although the first does not suggest it, after a large step
\* b: bias, t: thresholds of the first group
ExtraSign(p, d, t, b, j) ==
  LET r1 == p.reads[1] r3 == p.reads[3]
  IN  (d[1][j] - b[j]) * Len(r1) * r3[Len(r3)] - (t[j] - b[j]) * Sum(r1)
Second(p, q, d, t, b) ==
  {j \in DOMAIN d[1] : /\ d[1][j] # NoValue /\ d[2][j] # NoValue
                       /\ ExtraSign(p, d, t, b, j) < 0
                       /\ (d[2][j] - d[1][j]) * Len(p.reads[2]) > t[j] - d[1][j]
                       /\ Has(q[3][j], p.F.sat) /\ ~Has(q[2][j], p.F.sat)}
HasSecond(p, d) == p.reads # <<>> /\ Len(d) > 2
GroupTwo(p, S, d, t, b) ==
  IF ~HasSecond(p, d) THEN S
  ELSE LET s == TLCEval(Second(p, S.q, d, t[1], b))
       IN  IF s = {} THEN S ELSE [S EXCEPT !.q[2] = TLCEval([j \in DOMAIN d[2] |-> Mark(S.q[2][j], j \in s, p.F.dnu)])]
TwoTie(p, d, t, b) == HasSecond(p, d) /\ \E j \in DOMAIN d[1] : d[1][j] # NoValue /\ ExtraSign(p, d, t[1], b, j) = 0

RECURSIVE ForwardAll(_, _, _, _, _)
ForwardAll(p, S, d, t, g) == IF g > Len(d) THEN S ELSE ForwardAll(p, TLCEval(Forward(p, S, d, t, g)), d, t, g + 1)
RECURSIVE BackwardAll(_, _, _, _, _, _)
BackwardAll(p, S, d, t, un, g) == IF g = 0 THEN S ELSE BackwardAll(p, TLCEval(Backward(p, S, d, t, un, g)), d, t, un, g - 1)
Integration(p, q, d, t, un, b) ==
  LET f == ForwardAll(p, [sat |-> {}, q |-> q], d, t, 1)
      r == BackwardAll(p, f, d, t, un, Len(d) - 1)
  IN  GroupTwo(p, r, d, t, b).q

\* the zero frame: bad values become zero
ZeroFrame(p, z, t) ==
  LET all == DOMAIN z
      sat == Grow(p, {j \in all : Reaches(z[j], t[j])}, all)
  IN  [j \in all |-> IF j \in sat \/ AtFloor(z[j]) THEN 0 ELSE z[j]]
=============================================================================
