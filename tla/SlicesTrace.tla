---------------------------- MODULE SlicesTrace ----------------------------
(* The same work done whole and done in pieces (or in another order, byte     *)
(* order, among other pixels, or a second time): every product agrees bit for *)
(* bit.                                                                       *)
(* e.whole, e.parts: functions from product name to [shape, bits]; e.err0,    *)
(* e.err1 the errors raised; e.perm: for each pixel of the second run, its    *)
(* place (from 0) in the first (empty: the same); a product's bits are a      *)
(* sequence of images (sequences over pixels). e.changed: the inputs of the   *)
(* caller that the work altered (optional).                                   *)
EXTENDS TraceBase, FiniteSetsExt
SameImg(e, u, v) ==
  IF e.perm = <<>> THEN u = v
  ELSE Len(v) = Len(e.perm) /\ \A j \in DOMAIN e.perm : v[j] = u[e.perm[j] + 1]
Same(e, k) ==
  LET a == e.whole[k] b == e.parts[k]
  IN  IF Len(a.shape) = 2 /\ Len(b.shape) = 2 /\ a.shape # b.shape
      \* a dimension that counts what was found (segments, cosmic rays) may be padded with zeros
      THEN /\ a.shape[1] = b.shape[1]
           /\ LET At(x, i, h) == x.bits[(i - 1) * x.shape[2] + h]
                  zero(s) == \A j \in DOMAIN s : s[j] = 0
                  sel(s) == IF e.perm = <<>> THEN s ELSE [j \in DOMAIN e.perm |-> s[e.perm[j] + 1]]
              IN  \A i \in 1..a.shape[1] : \A h \in 1..Max({a.shape[2], b.shape[2]}) :
                    IF h > b.shape[2] THEN zero(sel(At(a, i, h)))
                    ELSE IF h > a.shape[2] THEN zero(At(b, i, h))
                    ELSE SameImg(e, At(a, i, h), At(b, i, h))
      ELSE /\ a.shape = b.shape /\ Len(a.bits) = Len(b.bits)
           /\ \A i \in DOMAIN a.bits : SameImg(e, a.bits[i], b.bits[i])
Failed(e) ==
  (IF "changed" \in DOMAIN e THEN {"input." \o e.changed[i] : i \in DOMAIN e.changed} ELSE {})
  \cup
  (IF e.err0 # e.err1 THEN {"error"}
   ELSE IF e.err0 # "" THEN {}
   ELSE IF DOMAIN e.whole # DOMAIN e.parts THEN {"products"}
   ELSE {k \in DOMAIN e.whole : ~Same(e, k)})
Next == TNext(Failed)
=============================================================================
