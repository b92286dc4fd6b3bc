----------------------------- MODULE Linearity -----------------------------
(* Linearity correction of one pixel. Values are integers; a value "in units  *)
(* of U" is U times the value. A polynomial is the sequence of its            *)
(* coefficients, the constant first.                                          *)
(* p: sat, nolin (flags); for the correction read by read: reads (of each     *)
(* group), h (unit in which the mean reads are whole), u (unit in which the   *)
(* reconstructed reads are whole).                                            *)
EXTENDS Bits, FiniteSets, TLC
CONSTANT NoValue

Identity(n) == [k \in 1..n |-> IF k = 2 THEN 1 ELSE 0]
Broken(c)   == (\E k \in DOMAIN c : c[k] = NoValue) \/ c[2] = 0
\* the polynomial that is applied
Used(p, c, ldq) == IF Has(ldq, p.nolin) \/ Broken(c) THEN Identity(Len(c)) ELSE c
PixelDQ(p, pdq, ldq, polys) ==
  LET w == SetB(pdq, ldq) IN IF \E k \in DOMAIN polys : Broken(polys[k]) /\ ~Has(ldq, p.nolin) THEN SetB(w, p.nolin) ELSE w

RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
\* value at x (in units of U), in units of U^degree
RECURSIVE Horner(_, _, _, _, _)
Horner(c, x, U, k, acc) ==
  IF k = 0 THEN acc ELSE Horner(c, x, U, k - 1, acc * x + c[k] * Pow(U, Len(c) - k))
Poly(c, x, U) == Horner(c, x, U, Len(c) - 1, c[Len(c)])
Lin(p, c, x, q) == IF x = NoValue THEN NoValue ELSE IF Has(q, p.sat) THEN x ELSE Poly(c, x, 1)

\* zero frame: a zero stands for a bad value and stays
Zero(c, z) == IF z = 0 \/ z = NoValue THEN z ELSE Poly(c, z, 1)

\* --- read by read
Sum(s) == SumSeq(s)
Mean(p, g) == (Sum(p.reads[g]) * p.h) \div Len(p.reads[g])            \* units of h
\* the last group taken for unaffected by saturation (from 1), by the number of groups not saturated
Last(p, q) == Max2(2, Cardinality({g \in DOMAIN q : ~Has(q[g], p.sat)}) - 1)
\* the linear signal at the time of each read, in units of u
Reconstructed(p, c, d, q, g) ==
  LET l == Last(p, q)
      f == Lin(p, c, d[1], q[1])
      e == Lin(p, c, d[l], q[l])
      span == Mean(p, l) - Mean(p, 1)
  IN  [k \in DOMAIN p.reads[g] |->
         LET n == (e - f) * (p.reads[g][k] * p.h - Mean(p, 1)) * p.u
         IN  IF Assert(n % span = 0, <<"unit", p>>) THEN f * p.u + n \div span ELSE 0]
\* the units of the reads and of the result
UnitV(p, ci, g) == Pow(p.u, Len(ci) - 1) * Len(p.reads[g])
UnitW(p, c, ci, g) == Pow(UnitV(p, ci, g), Len(c) - 1) * Len(p.reads[g])
\* the reads as they were measured: shifted so that their mean is the group; more: a + b * x is added; cap <<>> or <<value>>
Measured(p, c, ci, d, q, g, more, cap) ==
  LET x == TLCEval(Reconstructed(p, c, d, q, g))
      y == TLCEval([k \in DOMAIN x |-> Poly(ci, x[k], p.u)])
      V == UnitV(p, ci, g)
      L == Len(x)
      z == TLCEval([k \in DOMAIN x |-> y[k] * L + d[g] * V - Sum(y)])
      r == [k \in DOMAIN x |-> z[k] + more[1] * V + more[2] * z[k]]
  IN  [k \in DOMAIN x |-> IF cap = <<>> THEN r[k] ELSE Min2(r[k], cap[1] * V)]
\* group g of the result, in units of UnitW
Group(p, c, ci, d, q, g, more, cap) ==
  IF Has(q[g], p.sat) THEN d[g] * UnitW(p, c, ci, g)
  ELSE LET V == UnitV(p, ci, g)
           m == TLCEval(Measured(p, c, ci, d, q, g, more, cap))
       IN  Sum(TLCEval([k \in DOMAIN m |-> Poly(c, m[k], V)]))
=============================================================================
