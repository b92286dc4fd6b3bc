----------------------------- MODULE JumpTrace -----------------------------
(* Recorded runs of jump detection against Jump. e.p: settings; e.px: pixels  *)
(* (row-major, e.nc columns) with raw counts, gain, read noise, pixel flags;  *)
(* e.slices: number of processes; e.q, e.pdq, e.n: the results.               *)
EXTENDS TraceBase, Jump, Slices
Scaled(px) == [j \in DOMAIN px |->
  [rn |-> IF px[j].gain = NaN THEN 0 ELSE px[j].rn * px[j].gain,
   ints |-> [i \in DOMAIN px[j].ints |->
     [q |-> px[j].ints[i].q,
      d |-> [g \in DOMAIN px[j].ints[i].d |->
              IF px[j].gain = NaN \/ px[j].ints[i].d[g] = NaN THEN NaN ELSE px[j].ints[i].d[g] * px[j].gain]]]]]
Gain2(px) == LET g == SortSeq(SetToSeq({<<px[j].gain, j>> : j \in {k \in DOMAIN px : px[k].gain # NaN}}), LAMBDA a, b : a[1] < b[1])
                 n == Len(g)
             IN  IF n = 0 THEN 0 ELSE IF n % 2 = 1 THEN 2 * g[(n + 1) \div 2][1] ELSE g[n \div 2][1] + g[n \div 2 + 1][1]
Params(e) == [e1 |-> e.p.dn1 * Gain2(e.px), e2 |-> e.p.dn2 * Gain2(e.px)] @@ e.p
PixelDq(e, x) == IF x.gain = NaN \/ x.gain <= 0 THEN SetB(SetB(x.pdq, e.p.F.ngv), e.p.F.dnu) ELSE x.pdq

Others(p, q) == [j \in DOMAIN q |-> [i \in DOMAIN q[j] |-> [g \in DOMAIN q[j][i] |-> Without(q[j][i][g], p.F.jump)]]]
Failed(e) ==
  IF e.err # "" THEN {"error"}
  ELSE
  LET p == TLCEval(Params(e))
      px == TLCEval(Scaled(e.px))
      want == TLCEval(IF e.slices <= 1 THEN Whole(p, e.nc, px)
                      ELSE InSlices(p, e.nc, px, LastTakesRest(e.nr, e.slices)))
      never == \A j \in DOMAIN e.q : \A i \in DOMAIN e.q[j] : \A g \in DOMAIN e.q[j][i] :
                 Has(e.q[j][i][g], p.F.jump) => ~Bad(p, e.q[j][i][g])
      same == e.slices <= 1 \/ want.amb \/ LET w == Whole(p, e.nc, px) IN w.amb \/ (e.q = w.q /\ e.n = w.n)
      spread == e.slices > 1 /\ p.nb /\ (p.n1 > 0 \/ p.n2 > 0)
      reset == e.slices > 1 /\ ~Skips(p, Totals(p, px)) /\ Method(p, Totals(p, px)) = "sigclip"
  IN  Names([flags |-> want.amb \/ e.q = want.q,
             count |-> want.amb \/ e.n = want.n,
             unusable |-> never,
             other |-> Others(p, e.q) = Others(p, Flags(e.px)),
             pixels |-> \A j \in DOMAIN e.px : e.pdq[j] = PixelDq(e, e.px[j]),
             \* the number of processes makes no difference ...
             whole |-> same \/ spread \/ reset,
             \* ... but for two listed findings: after-jump flags of a pixel flagged by a jump across a slice border,
             \* and a group in which every pixel of a slice is a jump
             spread |-> same \/ ~spread,
             reset |-> same \/ spread \/ ~reset])
Next == TNext(Failed)
=============================================================================
