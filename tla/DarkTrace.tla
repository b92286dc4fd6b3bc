----------------------------- MODULE DarkTrace -----------------------------
(* Recorded dark subtractions. e.d, e.out: science data [integration ->       *)
(* [group -> plane]]; e.dark: the dark's integrations (each a sequence of     *)
(* planes) before the call; e.ddq: its flags (one plane per integration).     *)
EXTENDS TraceBase, Dark
Failed(e) ==
  IF e.rate # <<>> THEN
       \* a dark that grows evenly, read neither frame by frame nor as the science: what is subtracted from a
       \* group is the dark at its mean time (e.rate: twice the growth per frame)
       LET p == TLCEval(e.p)
           dark(g, j) == (e.rate[j] \div 2) * (2 * (g - 1) * (p.nf + p.gap) + p.nf + 1)
       IN  IF e.err = "" /\ \A i \in 1..p.ni : \A g \in 1..p.ng : \A j \in DOMAIN e.rate :
                 e.out[i][g][j] = e.d[i][g][j] - dark(g, j)
           THEN {} ELSE {"time"}
  ELSE IF e.err # "" THEN {"error"}
  ELSE
  LET p == TLCEval(e.p)
      px == DOMAIN e.d[1][1]
      refused == Refused(p)
      av == TLCEval([n \in DOMAIN e.dark |-> TLCEval(Averaged(p, e.dark[n]))])
      dq(j) == OrSeq([n \in DOMAIN e.ddq |-> e.ddq[n][j]])
      nd == Len(e.dark)
      minus(a, b) == IF a = NoValue THEN NoValue ELSE a - b
      out == \A i \in 1..p.ni : LET w == av[Which(p, nd, i)] IN
               \A g \in 1..p.ng : \A j \in px : e.out[i][g][j] = minus(e.d[i][g][j], w[g][j])
  IN  IF refused
      THEN Names([skipped |-> e.status = "SKIPPED", noDark |-> ~e.has, unchanged |-> e.out = e.d /\ e.pdqout = e.pdq])
      ELSE Names([status |-> e.status = "COMPLETE", data |-> out,
                  pixels |-> \A j \in px : e.pdqout[j] = SetB(e.pdq[j], dq(j)),
                  input |-> e.same,
                  dark |-> IF Direct(p) THEN e.has = e.save
                           ELSE /\ e.has /\ e.meta = <<p.nf, p.ng, p.gap>>
                                /\ Len(e.avg) = nd
                                /\ \A n \in {Which(p, nd, i) : i \in 1..p.ni} : \A g \in 1..p.ng : \A j \in px : e.avg[n][g][j] = av[n][g][j],
                  saved |-> ~e.has \/ e.named = e.save])
Next == TNext(Failed)
=============================================================================
