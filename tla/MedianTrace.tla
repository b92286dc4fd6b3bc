---------------------------- MODULE MedianTrace ----------------------------
(* A recorded life of a median stack:                                         *)
(* e.n, e.rows, e.cols, e.mem, e.rowbytes, e.buf                              *)
(* e.ops  = <<[idx, data, shapeOk, typeOk, out]...>>  (idx -1: none given)    *)
(* e.everr, e.med2 (twice the median image), e.left (files left on disk),     *)
(* e.dtypeOk (the median has the dtype of the input)                          *)
EXTENDS Median, TraceBase

RECURSIVE Run(_, _, _, _)
Run(s, ops, i, ok) ==
  IF i > Len(ops) THEN [s |-> s, ok |-> ok]
  ELSE LET o   == ops[i]
           out == AppendOutcome(s, o.idx, o.shapeOk, o.typeOk)
       IN  Run(IF out = "" THEN Appended(s, o.idx, o.data) ELSE s, ops, i + 1, ok /\ o.out = out)

Failed(e) ==
  LET r == Run(New(e.n, e.rows, e.cols, e.mem), e.ops, 1, TRUE)
  IN  Names([appends  |-> r.ok,
             evaluate |-> e.everr = "",
             median   |-> e.everr # "" \/ e.med2 = MedianFrame2(r.s),
             dtype    |-> e.everr # "" \/ e.dtypeOk,
             cleanup  |-> e.left = 0])
Next == TNext(Failed)
=============================================================================
