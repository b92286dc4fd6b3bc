--------------------------- MODULE RampOLSTrace ---------------------------
(* A recorded fit of an exposure: e.m, e.px (inputs), e.none, e.err, e.out    *)
(* (one record per pixel: slope, dq, vp, vr, err2, islope, idq, ivp, ivr,     *)
(* ierr2, and with optional results oslope, ocr, oped per integration).       *)
EXTENDS RampOLS, TraceBase

Near(a, b, tol) == IF a = NaNV \/ b = NaNV THEN a = b ELSE Abs(a - b) <= tol
\* tolerance on a slope (thousandths): the table of weights has four digits
Range(p) == LET ds == {p.ints[i].d[k] : i \in DOMAIN p.ints, k \in DOMAIN p.ints[1].d}
            IN  (CHOOSE x \in ds : \A y \in ds : y <= x) - (CHOOSE x \in ds : \A y \in ds : y >= x)
STol(m, p) == 8 + Range(p) \div 8
VTol(x) == 4 + Abs(x) \div 500
ETol(x) == 6 + Abs(x) \div 50

FailedPix(m, p, o) ==
  LET rs == [i \in DOMAIN p.ints |-> Prep(m, p, i)]
      I  == DOMAIN rs
      tie == ~BadGain(p) /\ \E i \in I : \E k \in DOMAIN Segs(m, rs[i]) : TieSnr(m, p, rs[i], Segs(m, rs[i])[k])
      t  == IF tie THEN 50000000 ELSE STol(m, p)
      v  == [islope |-> \A i \in I : Near(o.islope[i], IntSlope(m, p, rs[i]), t),
             slope  |-> Near(o.slope, RateSlope(m, p, rs), t),
             nan    |-> (o.slope = NaNV) = Invalid(m, RateDQ0(m, p, rs))
                        /\ \A i \in I : (o.islope[i] = NaNV) = Invalid(m, IntDQ0(m, p, rs[i])),
             zerovar |-> (\A i \in I : Invalid(m, IntDQ0(m, p, rs[i])) =>
                             o.ivp[i] = 0 /\ (rs[i].chg \/ o.ivr[i] = 0) /\ o.ierr2[i] = 0)
                         /\ (Invalid(m, RateDQ0(m, p, rs)) =>
                               o.vp = 0 /\ o.err2 = 0 /\ ((\E i \in I : rs[i].chg) \/ o.vr = 0)),
             idq    |-> \A i \in I : o.idq[i] = IntDQ(m, p, rs[i]),
             dq     |-> o.dq = RateDQ(m, p, rs),
             \* the charge-loss correction of an integration that is unusable anyway is left open
             ivr    |-> \A i \in I : (rs[i].chg /\ Invalid(m, IntDQ0(m, p, rs[i]))) \/ Near(o.ivr[i], IntVarR(m, p, rs[i], i), VTol(o.ivr[i])),
             vr     |-> (\E i \in I : rs[i].chg /\ Invalid(m, IntDQ0(m, p, rs[i]))) \/ Near(o.vr, RateVarR(m, p, rs), VTol(o.vr)),
             ivp    |-> BadGain(p) \/ \A i \in I : Near(o.ivp[i], IntVarP(m, p, rs, i), VTol(o.ivp[i])),
             vp     |-> BadGain(p) \/ Near(o.vp, RateVarP(m, p, rs), VTol(o.vp)),
             ierr   |-> BadGain(p) \/ \A i \in I : LET x == IntErr2(m, p, rs, i)
                                                   IN  x = NaNV \/ Near(o.ierr2[i], x, ETol(x)),
             err    |-> BadGain(p) \/ Near(o.err2, RateErr2(m, p, rs), ETol(o.err2))]
      z(s, n) == [k \in 1..n |-> IF k <= Len(s) THEN s[k] ELSE 0]
      each(a, want(_, _), tol(_, _)) ==
        BadGain(p) \/ \A i \in I : LET ss == Segs(m, rs[i])
                                  IN  /\ Len(a[i]) >= Len(ss)
                                      /\ \A k \in DOMAIN a[i] :
                                           IF k > Len(ss) THEN a[i][k] = 0
                                           ELSE LET x == want(i, ss[k]) IN Near(a[i][k], x, tol(x, ss[k]))
      w  == IF o.oslope = <<>> THEN [x \in {} |-> TRUE]
            ELSE [oslope |-> BadGain(p) \/ \A i \in I :
                    LET ss == Segs(m, rs[i])
                    IN  /\ Len(o.oslope[i]) >= Len(ss)
                        /\ \A k \in DOMAIN o.oslope[i] :
                             Near(o.oslope[i][k], IF k <= Len(ss) THEN Slope(m, p, rs[i], ss[k]) ELSE 0, t),
                  oweight |-> BadGain(p) \/ \A i \in I :
                    LET ss == Segs(m, rs[i])
                    IN  /\ Len(o.ovr[i]) >= Len(ss)
                        /\ \A k \in DOMAIN o.ovr[i] :
                             LET x == IF k <= Len(ss) THEN VarR(m, p, U(m, rs[i], ss[k])) ELSE 0
                             IN  Near(o.ovr[i][k], x, VTol(x)),
                  ovp |-> each(o.ovp, LAMBDA i, s : VarPT(m, p, rs, PT2(m, rs[i], s)), LAMBDA x, s : VTol(x)),
                  owt |-> each(o.owt, LAMBDA i, s : SegWt(m, p, rs[i], s), LAMBDA x, s : 4 + x \div 1000),
                  oyint |-> each(o.oy, LAMBDA i, s : SegYint(m, p, rs[i], s), LAMBDA x, s : (s.start + s.len) * t),
                  osig |-> each(o.osig2, LAMBDA i, s : SegSig2(m, p, rs[i], s),
                                LAMBDA x, s : IF tie THEN t ELSE 4 + x \div 200),
                  osigy |-> each(o.osigy2, LAMBDA i, s : IF s.len <= 2 \/ p.gain * p.rn > 200 THEN 0 ELSE SegSigY2(m, p, rs[i], s),
                                 LAMBDA x, s : IF x = 0 THEN 2000000010 ELSE IF tie THEN t ELSE 200 + x \div 100 + (2 * s.start + s.len) * (2 * s.start + s.len)),
                  ocr |-> \A i \in I :
                    LET c == CRMags(m, p.ints[i].q,
                                    [k \in DOMAIN p.ints[i].d |-> IF Has(p.ints[i].q[k], m.F.sat) THEN NaNV
                                                                  ELSE p.ints[i].d[k]])
                    IN  Len(o.ocr[i]) >= Len(c) /\ o.ocr[i] = z(c, Len(o.ocr[i])),
                  oped |-> BadGain(p) \/ \A i \in I : Near(o.oped[i], Pedestal(m, p, rs[i]), 2 * t)]
  IN  Names(v) \cup Names(w)

Failed(e) ==
  LET m0 == Meta(e.m)
      t  == Trim(m0, [j \in DOMAIN e.px |-> SuppressPix(m0, e.px[j])])
      none == t.none \/ NothingLeft(t.m, t.px)
      m  == t.m
  IN  IF e.err # "" THEN {"error"}
      ELSE IF e.none # none THEN {"none"}
      ELSE IF none THEN {}
      ELSE UNION {FailedPix(m, t.px[j], e.out[j]) : j \in DOMAIN t.px}
Next == TNext(Failed)
=============================================================================
