----------------------------- MODULE EventsTrace -----------------------------
(* Recorded runs of jump detection with large events on, on exposures in      *)
(* which the two-point test itself finds nothing. e.q, e.out: flags by        *)
(* integration, group and pixel (row-major); e.d: counts; e.on: what is on.   *)
EXTENDS TraceBase, Events
Plane(p, s) == TLCEval([x \in Grid(p) |-> s[(x[1] - 1) * p.nc + x[2]]])
Cube(p, c) == TLCEval([i \in DOMAIN c |-> TLCEval([k \in DOMAIN c[i] |-> Plane(p, c[i][k])])])
\* a jump flag is redundant where the group is unusable
Tidy(p, w) == IF Has(w, p.F.sat) \/ Has(w, p.F.dnu) THEN Without(w, p.F.jump) ELSE w
All(p, P(_, _, _), q) == \A i \in DOMAIN q : \A k \in DOMAIN q[i] : \A x \in Grid(p) : P(i, k, x)
Failed(e) ==
  IF e.err # "" THEN {"error"}
  ELSE
  LET p == TLCEval(e.p)
      in == TLCEval(Cube(p, e.q))
      out == TLCEval(Cube(p, e.out))
      q0 == TLCEval([i \in DOMAIN in |-> TLCEval([k \in DOMAIN in[i] |-> TLCEval([x \in Grid(p) |-> Tidy(p, in[i][k][x])])])])
      s == TLCEval(IF e.snowballs THEN Snowballs(p, q0) ELSE [q |-> q0, n |-> 0, unsure |-> {}, amb |-> FALSE])
      w == TLCEval(IF e.showers THEN Showers(p, TLCEval(Cube(p, e.d)), TLCEval(Plane(p, e.rn)), TLCEval(Plane(p, e.pdq)), s.q) ELSE s)
      amb == s.amb \/ w.amb \/ (e.showers /\ s.unsure # {})
      mark == p.F.jump | p.F.sat
      keeps(i, k, x) == /\ Without(out[i][k][x], mark) = Without(in[i][k][x], mark)
                        /\ Has(in[i][k][x], p.F.sat) => Has(out[i][k][x], p.F.sat)
                        /\ Has(q0[i][k][x], p.F.jump) => (Has(out[i][k][x], p.F.jump) \/ Has(out[i][k][x], p.F.sat))
      same(i, k, x) == out[i][k][x] = w.q[i][k][x] \/ <<i, k, x>> \in w.unsure
  IN  Names([amb |-> ~amb \/ ~e.must,
             flags |-> amb \/ All(p, same, in),
             count |-> amb \/ e.n = w.n,
             keeps |-> All(p, keeps, in),
             pixels |-> e.pdqout = e.pdq])
Next == TNext(Failed)
=============================================================================
