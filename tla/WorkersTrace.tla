---------------------------- MODULE WorkersTrace ----------------------------
(* How many processes a request for cores gives (e.got), and how many pieces  *)
(* and processes a detection or fit of e.rows rows then uses (e.made: for     *)
(* each pool, <<processes, pieces>>; e.done: the result is there).            *)
EXTENDS TraceBase, Slices
Failed(e) ==
  LET w == Workers(e.req, e.num, e.rows, e.avail)
      direct == "got" \in DOMAIN e
  IN  IF direct THEN Names([number |-> e.got = w,
                            bounds |-> e.got >= 1 /\ e.got <= e.rows /\ e.got <= e.avail /\ (e.num >= 1 => e.got <= e.num)])
      ELSE Names([done |-> e.done,
                  pools |-> IF w = 1 THEN \A k \in DOMAIN e.made : e.made[k][1] = 1 /\ e.made[k][2] <= 1
                            ELSE Len(e.made) = 1 /\ e.made[1][1] \in 1..w /\ e.made[1][2] = w])
Next == TNext(Failed)
=============================================================================
