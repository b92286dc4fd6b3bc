------------------------------- MODULE Mosaic -------------------------------
(* Resampling of images to a mosaic. A model m is a record                   *)
(*   map: input pixel -> output pixel (0: none), v: values, q: flags,         *)
(*   rn, sky, ps, fl: noise (square root of the variances; <<>> = missing),    *)
(*   er: errors, level (NoValue: none), taken (level subtracted already),      *)
(*   group, exp, meas (NoValue: none), dur (NoValue: none), start, end.        *)
(* A mosaic is [models: those added since it was started, fin: finalized,      *)
(*   void: finalized with nothing in it].                                      *)
(* p: weight ("ivm", "sky", "time"), ignore (flags that do no harm; -1: all),   *)
(*   ratio (linear size of output pixels), n (output pixels), vars, err          *)
(*   ("none", "from_var", "driz_err"), dq, fill.                                 *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Bits
CONSTANT NoValue

New == [models |-> <<>>, fin |-> FALSE, void |-> FALSE]

SumOver(S, f(_)) == FoldSet(LAMBDA j, a : a + f(j), 0, S)

(* ---- life cycle ---------------------------------------------------------- *)
Add(M, m) == IF M.fin \/ M.void THEN M ELSE [M EXCEPT !.models = Append(@, m)]
Finalize(M) == IF M.models = <<>> THEN [M EXCEPT !.void = TRUE] ELSE [M EXCEPT !.fin = TRUE]
Reset(M) == New

(* ---- what is reported about the models ------------------------------------ *)
\* the first model of each group
Firsts(ms) == {i \in DOMAIN ms : \A j \in 1..(i - 1) : ms[j].group # ms[i].group}
Groups(ms) == {ms[i].group : i \in DOMAIN ms}
Pointings(ms) == Cardinality(Groups(ms))
Exposure(ms) == SumOver(Firsts(ms), LAMBDA i : ms[i].exp)
Duration(ms) == SumOver({i \in Firsts(ms) : ms[i].dur # NoValue}, LAMBDA i : ms[i].dur)
Measurement(ms) == IF \E i \in Firsts(ms) : ms[i].meas = NoValue THEN NoValue ELSE SumOver(Firsts(ms), LAMBDA i : ms[i].meas)
Start(ms) == CHOOSE t \in {ms[i].start : i \in Firsts(ms)} : \A i \in Firsts(ms) : t <= ms[i].start
End(ms) == CHOOSE t \in {ms[i].end : i \in Firsts(ms)} : \A i \in Firsts(ms) : t >= ms[i].end

(* ---- pixels ------------------------------------------------------------- *)
Time(m) == IF m.meas = NoValue THEN m.exp ELSE m.meas
Good(p, m, j) == p.ignore = -1 \/ Without(m.q[j], p.ignore) = 0
\* 1/variance of a noise r, in units of 1/16 (noise 1, 2 or 4; else of no use)
Rated(r) == IF r = 1 THEN 16 ELSE IF r = 2 THEN 4 ELSE IF r = 4 THEN 1 ELSE 0
\* weight of a pixel, in units of 1/16 (times: in units)
Weight(p, m, j) ==
  IF ~Good(p, m, j) THEN 0
  ELSE IF p.weight = "time" THEN Time(m)
  ELSE IF p.weight = "sky" THEN (IF m.sky = <<>> THEN 16 ELSE Rated(m.sky[j]))
  ELSE (IF m.rn = <<>> THEN 16 ELSE Rated(m.rn[j]))
Value(m, j) == m.v[j] - (IF m.level = NoValue \/ m.taken THEN 0 ELSE m.level)
\* the pixels of model m that contribute to the output pixel o
Into(p, m, o) == {j \in DOMAIN m.map : m.map[j] = o /\ Weight(p, m, j) > 0}

Wsum(p, ms, o) == SumOver(DOMAIN ms, LAMBDA k : SumOver(Into(p, ms[k], o), LAMBDA j : Weight(p, ms[k], j)))
Vsum(p, ms, o) == SumOver(DOMAIN ms, LAMBDA k : SumOver(Into(p, ms[k], o), LAMBDA j : Weight(p, ms[k], j) * Value(ms[k], j)))
Esum(p, ms, o) == SumOver(DOMAIN ms, LAMBDA k : SumOver(Into(p, ms[k], o), LAMBDA j : Weight(p, ms[k], j) * ms[k].er[j]))
Contributors(p, ms, o) == {k \in DOMAIN ms : Into(p, ms[k], o) # {}}
Flags(p, ms, o) == FoldSet(SetB, 0, UNION {{ms[k].q[j] : j \in Into(p, ms[k], o)} : k \in DOMAIN ms})

(* ---- variances ------------------------------------------------------------ *)
\* variance of one model's noise r in output pixel o: the square of the weighted mean of the noise, in 1/1000
Own(p, m, r, o) ==
  LET S == Into(p, m, o)
      w == SumOver(S, LAMBDA j : Weight(p, m, j))
      a == SumOver(S, LAMBDA j : Weight(p, m, j) * r[j])
  IN  IF r = <<>> THEN NoValue ELSE IF S = {} \/ (\E j \in S : r[j] = NoValue) THEN NoValue ELSE (1000 * a * a) \div (w * w)
\* weight of the model's variances, in 1/16 (the noise is the same all over an image where pixels are merged)
Trust(p, m, o) ==
  IF p.weight = "time" THEN Time(m)
  ELSE IF m.rn = <<>> THEN 16
  ELSE LET S == Into(p, m, o) IN IF S = {} \/ (\E j \in S : m.rn[j] = NoValue) THEN 0 ELSE Rated(m.rn[CHOOSE j \in S : TRUE])
Noise(m, name) == IF name = "rn" THEN m.rn ELSE IF name = "ps" THEN m.ps ELSE m.fl
Noisy(p, ms, name, o) == {k \in DOMAIN ms : Own(p, ms[k], Noise(ms[k], name), o) # NoValue /\ Trust(p, ms[k], o) > 0}
Tsum(p, ms, name, o) == SumOver(Noisy(p, ms, name, o), LAMBDA k : Trust(p, ms[k], o))
Qsum(p, ms, name, o) == SumOver(Noisy(p, ms, name, o), LAMBDA k : Own(p, ms[k], Noise(ms[k], name), o) * Trust(p, ms[k], o) * Trust(p, ms[k], o))
\* the variance of the mosaic, in 1/1000, NoValue where there is none (of spectra: it grows with the ratio given by the caller,
\* p.spread, and goes down with the square of the scale of flux densities, p.flux)
Variance(p, ms, name, o) ==
  LET T == Tsum(p, ms, name, o) IN IF Noisy(p, ms, name, o) = {} THEN NoValue ELSE (Qsum(p, ms, name, o) * p.spread) \div (T * T * p.ratio * p.ratio * p.flux * p.flux)
=============================================================================
