---------------------------- MODULE OutlierTrace ----------------------------
(* Recorded outlier tests. Images: e.imgs, each [sci, err, m, out] with out   *)
(* the pixels that were flagged, as 0 and 1. Filters: e.x, e.nr, e.nc, e.kr,  *)
(* e.kc and e.out (twice the values). Weights: e.x and e.out, e.maskpt.        *)
EXTENDS TraceBase, Outlier
Flags(p, s, all) == \A j \in DOMAIN all : all[j] = (IF j \in s THEN 1 ELSE 0)
\* a mean compared to 1/1000: e.out is maskpt * mean * 1000, maskpt in quarters
MeanOk(e) ==
  LET S == TLCEval(Clip(e.x, Weighed(e.x), 5)) n == Cardinality(S)
  IN  IF S = {} THEN e.out = NoValue
      ELSE ClipTie(e.x, Weighed(e.x), 5) \/ Abs(e.out * 4 * n - 1000 * e.maskpt * Sum(e.x, S)) <= 8 * n
Failed(e) ==
  IF e.err # "" THEN {"error"}
  ELSE IF e.kind = "filter" THEN Names([filter |-> e.out = [j \in DOMAIN e.x |-> Filtered(e.nr, e.nc, e.kr, e.kc, e.x, j)]])
  ELSE IF e.kind = "weight" THEN Names([weight |-> MeanOk(e)])
  ELSE LET p == TLCEval(e.p)
           want(x) == IF e.kind = "plain" THEN Plain(p, x.sci, x.err, x.m) ELSE Resampled(p, x.sci, x.err, x.m)
       IN  Names([flags |-> \A i \in DOMAIN e.imgs : LET x == TLCEval(e.imgs[i]) s == TLCEval(want(x)) IN Flags(p, s, x.out),
                  invalid |-> \A i \in DOMAIN e.imgs : LET x == e.imgs[i] IN
                                 \A j \in DOMAIN x.out : (x.sci[j] = NoValue \/ x.m[j] = NoValue) => x.out[j] = 0,
                  inputs |-> e.same])
Next == TNext(Failed)
=============================================================================
