-------------------------- MODULE SaturationTrace --------------------------
(* Recorded calls of saturation flagging. e.d, e.q, e.out: [integration ->     *)
(* [group -> plane]]; e.thr, e.sdq: [integration -> [group -> plane]] where    *)
(* e.four, else one plane; e.z, e.zout: zero frames; e.pdq, e.pdqout.          *)
EXTENDS TraceBase, Saturation
Table(NI, NG, F(_, _)) == TLCEval([i \in 1..NI |-> TLCEval([k \in 1..NG |-> TLCEval(F(i, k))])])
Failed(e) ==
  IF e.err # "" THEN {"error"}
  ELSE
  LET p == TLCEval(e.p)
      NI == Len(e.d) NG == Len(e.d[1]) all == DOMAIN e.d[1][1]
      thr(i, k) == IF e.four THEN e.thr[i][k] ELSE e.thr
      sdq(i, k) == IF e.four THEN e.sdq[i][k] ELSE e.sdq
      bias(i) == IF e.bias = <<>> THEN [j \in all |-> 0] ELSE IF e.four THEN e.bias[i] ELSE e.bias
      UnP(i, k) == LET a == thr(i, k) b == sdq(i, k) IN [j \in all |-> Unchecked(p, a[j], b[j])]
      ThP(i, k) == LET a == thr(i, k) b == sdq(i, k) IN [j \in all |-> Threshold(p, a[j], b[j])]
      un == Table(NI, NG, UnP)
      t == Table(NI, NG, ThP)
      want(i) == Integration(p, e.q[i], e.d[i], t[i], un[i], bias(i))
      tie(i) == (\E k \in 1..(NG - 1) : BackTie(p, e.d[i], t[i], un[i], k)) \/ TwoTie(p, e.d[i], t[i], bias(i))
      ok(i) == LET w == TLCEval(want(i)) IN \A k \in 1..NG : e.out[i][k] = w[k]
      adds(i) == \A k \in 1..NG : \A j \in all : /\ Without(e.q[i][k][j], e.out[i][k][j]) = 0
                                                 /\ Without(e.out[i][k][j], (((e.q[i][k][j] | p.F.sat) | p.F.dnu) | p.F.floor)) = 0
      sat(i, k, j) == Has(e.out[i][k][j], p.F.sat)
      full(i, k, j) == \E h \in 1..k : Reaches(e.d[i][h][j], t[i][h][j])
      dq(i, k) == LET a == thr(i, k) b == sdq(i, k) IN [j \in all |-> Mark(b[j], a[j] = NoValue, p.F.nochk)]
      pd == IF e.four THEN \A i \in 1..NI : \A k \in 1..NG : LET s == dq(i, k) IN \A j \in all : e.pdqout[i][k][j] = SetB(e.pdq[i][k][j], s[j])
            ELSE LET s == dq(1, 1) IN \A j \in all : e.pdqout[j] = SetB(e.pdq[j], s[j])
  IN  Names([flags |-> \A i \in 1..NI : tie(i) \/ ok(i),
             adds |-> \A i \in 1..NI : adds(i),
             complete |-> \A i \in 1..NI : \A k \in 1..NG : \A j \in all : full(i, k, j) => sat(i, k, j),
             pixels |-> pd,
             zero |-> \A i \in DOMAIN e.z : LET w == ZeroFrame(p, e.z[i], t[i][1]) IN \A j \in all : e.zout[i][j] = w[j],
             data |-> e.same])
Next == TNext(Failed)
=============================================================================
