-------------------------------- MODULE Dark --------------------------------
(* Dark subtraction. The dark holds, for each of its integrations, frames in  *)
(* time order (a sequence of planes); a science group is the average of p.nf  *)
(* frames, with p.gap frames skipped between groups.                           *)
(* p: nf, gap, ng, ni, start (number of the first science integration, 0 if   *)
(* not known), dnf, dgap (read-out of the dark).                               *)
EXTENDS Bits, TLC
CONSTANT NoValue

Frames(ng, nf, gap) == ng * nf + (ng - 1) * gap
Refused(p) == p.dnf > p.nf \/ p.dgap > p.gap
Direct(p)  == p.dnf = p.nf /\ p.dgap = p.gap
\* averaging takes the dark's groups for single consecutive frames
ByFrame(p) == p.dnf = 1 /\ p.dgap = 0

Need(p, dng) == Frames(p.ng, p.nf, p.gap) - Frames(dng, p.dnf, p.dgap)
Extra(p, dng) == IF Need(p, dng) <= 0 THEN 0 ELSE CeilDiv(Need(p, dng) + p.dgap, p.dnf + p.dgap)

\* value of pixel j in the n-th group of a dark integration, extended at the rate of its last two groups
Zero(v) == IF v = NoValue THEN 0 ELSE v
Value(dark, n, j) ==
  LET m == Len(dark) IN
  IF n <= m THEN Zero(dark[n][j])
  ELSE IF dark[m][j] = NoValue \/ dark[m - 1][j] = NoValue THEN 0
  ELSE dark[m][j] + (n - m) * (dark[m][j] - dark[m - 1][j])

\* which dark integration belongs to science integration i
Which(p, nd, i) == IF nd = 1 THEN 1 ELSE IF i <= nd /\ p.start \in {0, 1} THEN i ELSE nd

\* --- the walk over the groups: S = [next (first dark frame not yet passed), sub (dark of each group so far)]
Begin == [next |-> 1, sub |-> <<>>]
Step(p, dark, S) ==
  LET px == DOMAIN dark[1]
      n == Len(S.sub) + 1
      mean(j) == IF Direct(p) THEN Value(dark, n, j)
                 ELSE SumSeq([f \in 1..p.nf |-> Value(dark, S.next + f - 1, j)]) \div p.nf
  IN  [next |-> S.next + p.nf + p.gap, sub |-> Append(S.sub, TLCEval([j \in px |-> mean(j)]))]
RECURSIVE Walk(_, _, _)
Walk(p, dark, S) == IF Len(S.sub) = p.ng THEN S.sub ELSE Walk(p, dark, TLCEval(Step(p, dark, S)))
Averaged(p, dark) == Walk(p, dark, Begin)
=============================================================================
