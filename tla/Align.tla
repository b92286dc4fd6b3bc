------------------------------- MODULE Align -------------------------------
(* Alignment of images on one another and on a reference catalog.                *)
(* An image belongs to a group; its pointing is wrong by a residual, given at     *)
(* a few places of the sky (pts, a sequence of <<x, y>>, mas, to the east and    *)
(* north); srcs are the stars its catalog has inside the image. Groups move as    *)
(* one. An alignment compares the stars a group has in common with those of a     *)
(* reference, the first group with any stars (or whichever overlaps most), and    *)
(* succeeds where enough of them are found at the expected distance.              *)
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
\* settings under which sources would be confused
Confused(p) == p.sep * p.sep <= 2 * (p.tol * p.tol)

ToSet(q) == {q[i] : i \in DOMAIN q}
Srcs(imgs, g) == UNION {ToSet(imgs[i].srcs) : i \in {j \in DOMAIN imgs : imgs[j].grp = g}}
Of(imgs, g) == CHOOSE i \in DOMAIN imgs : imgs[i].grp = g /\ \A j \in 1..(i - 1) : imgs[j].grp # g
\* groups, in the order in which they were given
IsFirst(imgs, i) == \A j \in 1..(i - 1) : imgs[j].grp # imgs[i].grp
RECURSIVE Grps(_, _)
Grps(imgs, i) == IF i > Len(imgs) THEN <<>>
                 ELSE (IF IsFirst(imgs, i) THEN <<imgs[i].grp>> ELSE <<>>) \o Grps(imgs, i + 1)
RECURSIVE Keep(_, _)
Keep(q, S) == IF q = <<>> THEN <<>> ELSE (IF Head(q) \in S THEN <<Head(q)>> ELSE <<>>) \o Keep(Tail(q), S)
Usable(imgs) == Keep(Grps(imgs, 1), {g \in ToSet(Grps(imgs, 1)) : Srcs(imgs, g) # {}})
TooFew(imgs) == Len(Usable(imgs)) < 2

RECURSIVE SumTo(_, _, _)
SumTo(a, c, k) == IF k = 0 THEN 0 ELSE a[k][c] + SumTo(a, c, k - 1)
\* by how much the group at a is off from the one at b, on average and at each place
Off(a, b) == [k \in DOMAIN a |-> <<a[k][1] - b[k][1], a[k][2] - b[k][2]>>]
Mean(v) == <<SumTo(v, 1, Len(v)) \div Len(v), SumTo(v, 2, Len(v)) \div Len(v)>>
\* the search finds a group that is off by v: "yes", "no", or "?" near the limits
Reach(v, p) ==
  LET m == Mean(v)
      spread == \A k \in DOMAIN v : 2 * Abs(v[k][1] - m[1]) <= p.tol /\ 2 * Abs(v[k][2] - m[2]) <= p.tol
      far == Max(Abs(m[1]), Abs(m[2]))
      D2(w) == (w[1] - p.xoff) * (w[1] - p.xoff) + (w[2] - p.yoff) * (w[2] - p.yoff)
  IN IF p.use2d
     THEN IF far + 100 <= p.searchrad /\ spread THEN "yes"
          ELSE IF far >= p.searchrad + p.tol + 200 THEN "no" ELSE "?"
     ELSE IF \A k \in DOMAIN v : D2(v[k]) <= (p.tol - 10) * (p.tol - 10) THEN "yes"
          ELSE IF \A k \in DOMAIN v : D2(v[k]) >= (p.tol + 10) * (p.tol + 10) THEN "no" ELSE "?"
Found(p, n, v) == IF n < p.minobj THEN "FAILED" ELSE LET r == Reach(v, p) IN IF r = "yes" THEN "SUCCESS" ELSE IF r = "no" THEN "FAILED" ELSE "?"

UserOrder(p, imgs) == p.enforce \/ ~p.expand \/ Len(Usable(imgs)) = 2
References(imgs, p) == IF UserOrder(p, imgs) THEN {Usable(imgs)[1]} ELSE ToSet(Usable(imgs))

\* what becomes of each group, one after the other (o: their order, R: the stars of the reference).
\* Groups that join a growing reference add their stars to it; what follows one that failed is not said.
RECURSIVE Walk(_, _, _, _, _, _, _, _)
Walk(imgs, at, p, o, i, ref, R, lost) ==
  IF i > Len(o) THEN [g \in {ref} |-> "REFERENCE"]
  ELSE LET g == o[i]
           n == Cardinality(Srcs(imgs, g) \cap R)
           s == IF lost THEN "?" ELSE Found(p, n, Off(at[Of(imgs, g)], at[Of(imgs, ref)]))
           rest == Walk(imgs, at, p, o, i + 1, ref, IF p.expand /\ s = "SUCCESS" THEN R \cup Srcs(imgs, g) ELSE R, lost \/ (p.expand /\ s # "SUCCESS"))
       IN [h \in DOMAIN rest \cup {g} |-> IF h = g THEN s ELSE rest[h]]
InOrder(imgs, at, p) == LET o == Usable(imgs) IN Walk(imgs, at, p, o, 2, o[1], Srcs(imgs, o[1]), FALSE)
\* in another order: what a group can become when ref is the reference
Least(imgs, at, p, ref, g) == Found(p, Cardinality(Srcs(imgs, g) \cap Srcs(imgs, ref)), Off(at[Of(imgs, g)], at[Of(imgs, ref)]))
Possible(imgs, at, p, ref, g) ==
  IF g = ref THEN "REFERENCE"
  ELSE IF \E h \in ToSet(Usable(imgs)) \ {g, ref} : Least(imgs, at, p, ref, h) # "SUCCESS" THEN "?"
  ELSE LET most == Found(p, Cardinality(Srcs(imgs, g) \cap UNION {Srcs(imgs, h) : h \in ToSet(Usable(imgs)) \ {g}}), Off(at[Of(imgs, g)], at[Of(imgs, ref)]))
       IN IF Least(imgs, at, p, ref, g) = most THEN most ELSE "?"
StatusOf(imgs, at, p, ref, g) == IF UserOrder(p, imgs) THEN InOrder(imgs, at, p)[g] ELSE Possible(imgs, at, p, ref, g)

\* how far an image may have been moved from where it first pointed, in all
Allowed(p) == IF p.use2d THEN 2 * (p.searchrad + p.tol) ELSE 2 * (Max(Abs(p.xoff), Abs(p.yoff)) + p.tol)

\* ---- on a catalog: all images together, from then on a single group ----
Together == 987654
AllSrcs(imgs) == UNION {ToSet(imgs[i].srcs) : i \in DOMAIN imgs}
TooFewRefs(refs, p) == Cardinality(ToSet(refs)) < p.minobj
Nothing(imgs) == AllSrcs(imgs) = {}
\* the images agree with one another
Close(a, b, d) == \A k \in DOMAIN a : Abs(a[k][1] - b[k][1]) <= d /\ Abs(a[k][2] - b[k][2]) <= d
InAgreement(imgs, at, d) == \A i, j \in DOMAIN imgs : (ToSet(imgs[i].srcs) # {} /\ ToSet(imgs[j].srcs) # {}) => Close(at[i], at[j], d)
OnCatalog(imgs, at, refs, p) ==
  LET n == Cardinality(AllSrcs(imgs) \cap ToSet(refs)) IN
  IF n < p.minobj THEN "FAILED"
  ELSE IF ~InAgreement(imgs, at, 3) THEN "?"
  ELSE LET i == CHOOSE j \in DOMAIN imgs : ToSet(imgs[j].srcs) # {} IN Found(p, n, at[i])

\* ---- one source of a catalog lies off by o; the mean of n sources is then off by o/n, unless it is rejected ----
Rejected(n, sigma, clips) == clips > 0 /\ (n - 1) > sigma * sigma

\* ---- the columns of a catalog that hold positions: numbers of columns called ra, dec and sky_centroid ----
Columns(c) ==
  IF c.ra > 1 \/ c.dec > 1 THEN "KeyError"
  ELSE IF c.ra = 1 /\ c.dec = 1 THEN "radec"
  ELSE IF c.cen > 1 \/ c.cen = 0 THEN "KeyError" ELSE "centroid"
\* sources strictly inside the box
InBox(b, x, y) == x > b[1][1] /\ x < b[1][2] /\ y > b[2][1] /\ y < b[2][2]

\* ---- reference catalogs. rows: [id, mag, hasmag, pm] ----
Moving(rows, epoch) == IF epoch THEN {i \in DOMAIN rows : rows[i].pm} ELSE DOMAIN rows
Wanted(n, m) == IF n >= 0 THEN (IF n < m THEN n ELSE m) ELSE (IF -n < m THEN -n ELSE m)
Fainter(a, b) == a.hasmag /\ b.hasmag /\ a.mag > b.mag
=============================================================================
