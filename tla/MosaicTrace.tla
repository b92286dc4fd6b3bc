---------------------------- MODULE MosaicTrace ----------------------------
(* Recorded histories of a mosaic. e.cat: the models; e.steps: sequence of    *)
(* [op, m, err, obs] with op "add", "bad", "finalize" or "reset" and obs what  *)
(* is reported after the step.                                                *)
EXTENDS TraceBase, Mosaic
Next1(e, M, s) == IF s.op = "add" THEN Add(M, e.cat[s.m]) ELSE IF s.op = "finalize" THEN Finalize(M) ELSE IF s.op = "reset" THEN Reset(M) ELSE M
Pixels(p) == 1..p.n
At(s, o) == IF o \in DOMAIN s THEN s[o] ELSE Frac
Near(a, b, d) == IF a = NaN \/ b = NaN THEN a = b ELSE Abs(a - b) <= d

\* |x * w - y| small: x is recorded in 1/1000, w and y in units of the weights
Ratio(x, w, y) == x # NaN /\ Abs(x) < Big /\ Abs(x * w - 1000 * y) <= 2 * w
\* the same of x * f
Ratio2(x, f, w, y) == x # NaN /\ Abs(x) < Big /\ Abs(x * f * w - 1000 * y) <= (1 + f) * w
Names3 == {"rn", "ps", "fl"}
VarOk(p, ms, ob, name) ==
  \A o \in Pixels(p) :
    LET want == Variance(p, ms, name, o) IN
    IF want = NoValue THEN At(ob[name], o) = NaN ELSE At(ob[name], o) # NaN /\ Near(At(ob[name], o), want, 1 + p.spread + want \div 5000)
ErrOk(p, ms, ob) ==
  \A o \in Pixels(p) :
    IF p.err = "driz_err" THEN
      LET w == Wsum(p, ms, o) IN
      IF w = 0 THEN At(ob.err, o) = NaN \/ p.fill # NaN ELSE At(ob.err, o) # NaN /\ Abs(At(ob.err, o)) < Big /\ At(ob.err2, o) # NaN /\ IF p.spread = 1 THEN Ratio(At(ob.err, o) * p.ratio, w, Esum(p, ms, o))
                                           ELSE LET a == (100 * Esum(p, ms, o)) \div w      \* the square of the error, in 1/1000
                                           IN  Near(At(ob.err2, o), (a * a * p.spread) \div (10 * p.flux * p.flux), 6 + p.spread * (a \div 4))
    ELSE LET v == {n \in {p.inc[i] : i \in DOMAIN p.inc} : Variance(p, ms, n, o) # NoValue}
             s == SumOver(v, LAMBDA n : Variance(p, ms, n, o))
         IN  IF v = {} THEN At(ob.err2, o) = NaN ELSE At(ob.err2, o) # NaN /\ Near(At(ob.err2, o), s, 1 + 3 * p.spread + s \div 2000)

Check(e, M, before, s) ==
  LET p == e.p ob == s.obs ms == TLCEval(M.models)
      seen == s.op # "bad" /\ ~M.void
      any == ms # <<>>
      live == seen /\ any
      done == seen /\ M.fin
  IN Names([
     life |-> M.void \/ before.void \/ ob.fin = M.fin,
     refused |-> IF s.op = "bad" \/ (s.op = "add" /\ before.fin) \/ (s.op = "finalize" /\ M.void) THEN s.err # "" \/ before.void
                 ELSE s.err = "" \/ before.void,
     pointings |-> seen => ob.pointings = Pointings(ms) /\ {ob.groups[i] : i \in DOMAIN ob.groups} = Groups(ms) /\ Len(ob.groups) = Pointings(ms),
     times |-> done => /\ ob.exp = Exposure(ms) /\ ob.start = Start(ms) /\ ob.end = End(ms)
                       /\ ob.dur = Duration(ms) /\ ob.elapsed = Duration(ms) /\ ob.meas = Measurement(ms),
     empty |-> (seen /\ ~any) => ob.data = <<>> /\ ob.con = <<>>,
     scale |-> (live /\ p.tell) => ob.ratio = 1000 * p.ratio * p.spread /\ ob.area = <<1000, 1000>>,
     data |-> live => \A o \in Pixels(p) : LET w == Wsum(p, ms, o) IN
                 IF w = 0 THEN At(ob.data, o) = p.fill ELSE Ratio2(At(ob.data, o), p.flux, w, Vsum(p, ms, o)),
     weight |-> live => \A o \in Pixels(p) : At(ob.wht, o) = Wsum(p, ms, o),
     context |-> (live /\ p.ctx) => \A o \in Pixels(p) : o \in DOMAIN ob.con /\ {ob.con[o][i] : i \in DOMAIN ob.con[o]} = Contributors(p, ms, o),
     flags |-> (live /\ p.dq) => \A o \in Pixels(p) : At(ob.dq, o) = Flags(p, ms, o),
     variance |-> (done /\ p.vars) => \A n \in Names3 : VarOk(p, ms, ob, n),
     error |-> (done /\ p.err # "none") => ErrOk(p, ms, ob),
     inputs |-> ob.same])
RECURSIVE Walk(_, _, _, _)
Walk(e, M, k, bad) == IF k > Len(e.steps) THEN bad
                      ELSE LET s == e.steps[k] N == TLCEval(Next1(e, M, s)) IN Walk(e, N, k + 1, bad \cup Check(e, N, M, s))
Failed(e) == IF e.err # "" THEN {"error"} ELSE Walk(e, New, 1, {})
Next == TNext(Failed)
=============================================================================
