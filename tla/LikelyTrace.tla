----------------------------- MODULE LikelyTrace -----------------------------
(* Recorded likelihood fits. kind "ramp": one pixel of one integration; e.q2:  *)
(* flags of the groups after, e.slope, e.vp, e.vr, e.er2 (square of the error),  *)
(* e.chi, e.idq. kind "image": the combination of a pixel's integrations.          *)
EXTENDS TraceBase, Likely
RampOk(e) ==
  LET p == e.p x == e.x F == p.F
      G == Geometry(p)
      S0 == Usable(x)
      hit == {i \in 1..G.n : e.q2[i + 1] # x.q[i + 1]}
      S == S0 \ hit
      R == TLCEval(Fitted(G, x, S, S0))
      \* rounding of weights matters as far as the differences do not agree
      rt == Rates(G, x, S)
      jitter == IF S = {} THEN 0 ELSE (Max({rt[i] : i \in S}) - Min({rt[i] : i \in S})) \div 150
      d == 4 + Abs(R.slope) \div 2000 + jitter
      sat == \E i \in DOMAIN e.q2 : Has(e.q2[i], F.sat)
      jump == \E i \in DOMAIN e.q2 : Has(e.q2[i], F.jump)
      lost == \A i \in DOMAIN e.q2 : Has(e.q2[i], F.sat) \/ Has(e.q2[i], F.dnu)
  IN  Names([
    marks |-> e.q2[1] = x.q[1] /\ \A i \in hit : e.q2[i + 1] = SetB(x.q[i + 1], F.jump),
    usable |-> hit \subseteq S0,
    rejected |-> S \in Rejected(G, p, x, Cov(G, x, Guess(G, x, S0)), S0),
    none |-> R.none = (e.slope = NaN),
    slope |-> R.none \/ e.slope = NaN \/ Abs(e.slope - R.slope) <= d,
    vp |-> R.none \/ e.vp = NaN \/ Abs(e.vp - R.vp) <= 4 + R.vp \div 40 + R.vpa \div 100 + Min2(d, (R.vp \div 100 + 1) * ((100 * d) \div (1 + Abs(R.slope)) + 1)),
    vr |-> R.none \/ e.vr = NaN \/ Abs(e.vr - R.vr) <= 4 + R.vr \div 40 + R.vra \div 100,
    err |-> R.none \/ e.er2 = NaN \/ e.vp = NaN \/ Abs(e.er2 - e.vp - e.vr) <= 3 + e.er2 \div 10000,
    chi |-> R.none \/ e.chi = NaN \/ Abs(e.chi - R.chi) <= 10 + R.chi \div 40,
    dq |-> e.idq = SetB(x.pdq, SetB(IF lost THEN F.dnu ELSE 0, SetB(IF sat THEN F.sat ELSE 0, IF jump THEN F.jump ELSE 0)))])
\* e.s, e.vps, e.vrs: what the integrations give; e.slope, e.vp, e.vr, e.er2: the image
ImageOk(e) ==
  LET I == {i \in DOMAIN e.s : e.s[i] # NaN}
      F == e.F
      all == FoldSet(LAMBDA i, a : SetB(a, e.idq[i]), 0, DOMAIN e.idq)
      lost == \A i \in DOMAIN e.idq : Has(e.idq[i], F.dnu)
      one == Len(e.s) = 1
      Near(a, b, d) == Abs(a - b) <= d
      s0 == Median(Sorted(e.s, I))
      vp(s) == TLCEval([i \in I |-> IF e.s[i] = 0 \/ (s < 0) # (e.s[i] < 0) THEN 0 ELSE MulDiv(e.vps[i], s, e.s[i])])
      \* weights, 1000 to the largest
      wt(v) == LET least == Min({v[i] + e.vrs[i] : i \in I}) IN TLCEval([i \in I |-> MulDiv(Top(1, least), 1000, Top(1, v[i] + e.vrs[i]))])
      mean(w) == LET W == TotOn(I, LAMBDA i : w[i]) lo == Min({e.s[i] : i \in I}) IN lo + TotOn(I, LAMBDA i : ((e.s[i] - lo) * w[i]) \div 10) \div (W \div 10)
      s1 == mean(wt(vp(s0)))
      v2 == vp(s1)
      w2 == wt(v2)
      s2 == mean(w2)
      W2 == TotOn(I, LAMBDA i : w2[i])
      sq(v) == TotOn(I, LAMBDA i : MulDiv(MulDiv(v[i], w2[i], W2), w2[i], W2))
  IN  Names([
    idq |-> e.dq = (IF one THEN e.idq[1] ELSE IF lost THEN all ELSE Without(all, F.dnu)),
    same |-> one => e.slope = e.s[1] /\ (e.slope # NaN => e.vp = e.vps[1] /\ e.vr = e.vrs[1]),
    none |-> (I = {}) = (e.slope = NaN),
    mean |-> one \/ I = {} \/ e.slope = NaN \/ e.rough \/
             Near(e.slope, s2, 3 + (Max({e.s[i] : i \in I}) - Min({e.s[i] : i \in I})) \div 100 + Abs(s2) \div 5000),
    variances |-> one \/ I = {} \/ e.slope = NaN \/ e.rough \/ (Near(e.vp, sq(v2), 3 + sq(v2) \div 50) /\ Near(e.vr, sq(e.vrs), 3 + sq(e.vrs) \div 50)),
    error |-> I = {} \/ e.slope = NaN \/ Near(e.er2, e.vp + e.vr, 3 + e.er2 \div 10000)])
Failed(e) == IF e.err # "" THEN {"error"} ELSE IF e.kind = "ramp" THEN RampOk(e) ELSE ImageOk(e)
Next == TNext(Failed)
=============================================================================
