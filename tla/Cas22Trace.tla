----------------------------- MODULE Cas22Trace -----------------------------
(* One pixel of a recorded fit: e.p, e.rn, e.r (resultants), e.q (flags        *)
(* before), e.dq (after), e.slope, e.read, e.pois, e.total (in reads), e.zero    *)
(* (intercept), e.layout (shapes as documented), e.same (arguments unchanged).    *)
EXTENDS TraceBase, Cas22
Fits(e, t, u, a) ==
  LET R == Result(e.p, t, u, e.r, e.rn, a)
      xs == {y \in a.runs : y[2] > y[1]}
      jitter == IF xs = {} THEN 0
                ELSE Max({Quot(Max({e.r[i] : i \in x[1]..x[2]}) - Min({e.r[i] : i \in x[1]..x[2]}), t[x[2]] - t[x[1]], <<12, 12, 10, 10, 10>>) : x \in xs}) \div 400
      d == 4 + Abs(R.slope) \div 1000 + R.spread \div 100 + jitter
      dp == 3 + R.pois \div 25 + (IF Abs(R.slope) <= 4 * d THEN 4 * d ELSE (R.pois \div 100 + 1) * ((100 * d) \div Abs(R.slope) + 1))
  IN  Names([slope |-> Abs(e.slope - R.slope) <= d,
             read |-> Abs(e.read - R.read) <= 3 + R.read \div 60,
             pois |-> IF e.pois >= Big \/ R.pois >= Big THEN TRUE ELSE Abs(e.pois - R.pois) <= dp,
             total |-> Abs(e.total - (e.read + e.pois)) <= 2 + e.total \div 100000])
Failed(e) ==
  IF e.err # "" THEN {"error"}
  ELSE LET p == e.p t == TLCEval(Times(p)) u == TLCEval(Taus(p))
           ways == TLCEval({a \in All(p, t, u, e.r, e.rn, e.q) : Flagged(e.q, a) = e.dq})
           numbers == e.slope # NaN /\ e.read # NaN /\ e.pois # NaN /\ e.total # NaN
           bad == IF ways = {} \/ ~numbers THEN {} ELSE {Fits(e, t, u, a) : a \in ways}
       IN  Names([flags |-> ways # {}, finite |-> numbers, intercept |-> e.zero = 0, layout |-> e.layout, inputs |-> e.same])
           \cup (IF bad = {} \/ {} \in bad THEN {} ELSE CHOOSE x \in bad : TRUE)
Next == TNext(Failed)
=============================================================================
