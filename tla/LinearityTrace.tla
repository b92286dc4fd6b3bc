--------------------------- MODULE LinearityTrace ---------------------------
(* Recorded linearity corrections. e.d, e.q, e.out: [integration -> [group -> *)
(* plane]], e.out in units of e.scale; e.c, e.ci: polynomial of each pixel    *)
(* (e.ci <<>>: no read-level correction); e.ldq, e.pdq, e.pdqout planes;      *)
(* e.more: [pixel -> <<a, b>>]; e.cap: <<>> or the cap of each pixel; e.z,    *)
(* e.zout: zero frames.                                                       *)
EXTENDS TraceBase, Linearity
Times(v, n) == IF v = NoValue THEN NoValue ELSE v * n
Failed(e) ==
  IF e.err # "" THEN {"error"}
  ELSE
  LET p == TLCEval(e.p)
      px == DOMAIN e.ldq
      ints == DOMAIN e.d
      c == TLCEval([j \in px |-> Used(p, e.c[j], e.ldq[j])])
      deep == e.ci # <<>>
      ci == IF deep THEN TLCEval([j \in px |-> Used(p, e.ci[j], e.ldq[j])]) ELSE <<>>
      polys(j) == IF deep THEN <<e.c[j], e.ci[j]>> ELSE <<e.c[j]>>
      ramp(i, j) == [g \in DOMAIN e.d[i] |-> e.d[i][g][j]]
      flags(i, j) == [g \in DOMAIN e.d[i] |-> e.q[i][g][j]]
      cap(j) == IF e.cap = <<>> THEN <<>> ELSE <<e.cap[j]>>
      want(d, q, g, j) ==
        IF Has(q[g], p.sat) THEN Times(d[g], e.scale)
        ELSE IF ~deep THEN Times(Lin(p, c[j], d[g], q[g]), e.scale)
        ELSE Group(p, c[j], ci[j], d, q, g, e.more[j], cap(j)) * (e.scale \div UnitW(p, c[j], ci[j], g))
      ok(i, j) == LET d == TLCEval(ramp(i, j)) q == TLCEval(flags(i, j)) IN \A g \in DOMAIN d : e.out[i][g][j] = want(d, q, g, j)
  IN  Names([data |-> \A i \in ints : \A j \in px : ok(i, j),
             saturated |-> \A i \in ints : \A g \in DOMAIN e.d[i] : \A j \in px :
                             Has(e.q[i][g][j], p.sat) => e.out[i][g][j] = Times(e.d[i][g][j], e.scale),
             pixels |-> \A j \in px : e.pdqout[j] = PixelDQ(p, e.pdq[j], e.ldq[j], polys(j)),
             zero |-> \A i \in DOMAIN e.z : \A j \in px : e.zout[i][j] = Zero(c[j], e.z[i][j]),
             flags |-> e.same])
Next == TNext(Failed)
=============================================================================
