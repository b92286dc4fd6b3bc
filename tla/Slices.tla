------------------------------- MODULE Slices -------------------------------
(* Work on the rows of an image divided among workers.                        *)
EXTENDS Bits, FiniteSets, TLC

\* how many workers a request for cores gives; num is the value of a request that is a number (-1: not a number)
Frac(req, avail) == IF req = "quarter" THEN avail \div 4 ELSE IF req = "half" THEN avail \div 2
                    ELSE IF req = "all" THEN avail ELSE 1
Workers(req, num, nchunks, avail) ==
  IF num >= 0 THEN Min2(Min2(Max2(num, 1), nchunks), avail)
  ELSE Min2(Max2(1, Frac(req, avail)), nchunks)

\* the slices of nrows rows among n workers, as <<first, count>>: either sizes differ by at most one ...
Even(nrows, n) ==
  LET q == nrows \div n  r == nrows % n
      cnt(k) == IF k <= r THEN q + 1 ELSE q
      st(k) == IF k <= r THEN (k - 1) * (q + 1) ELSE r * (q + 1) + (k - 1 - r) * q
  IN  [k \in 1..n |-> <<st(k), cnt(k)>>]
\* ... or all equal but the last, which takes what is left
LastTakesRest(nrows, n) ==
  LET q == nrows \div n
  IN  [k \in 1..n |-> <<(k - 1) * q, IF k = n THEN nrows - (n - 1) * q ELSE q>>]

Covers(nrows, sl) ==
  /\ \A k \in DOMAIN sl : sl[k][2] >= 1
  /\ \A r \in 0..(nrows - 1) : Cardinality({k \in DOMAIN sl : sl[k][1] <= r /\ r < sl[k][1] + sl[k][2]}) = 1
  /\ \A k \in DOMAIN sl : sl[k][1] + sl[k][2] <= nrows
=============================================================================
