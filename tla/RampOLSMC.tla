----------------------------- MODULE RampOLSMC -----------------------------
(* The scan over the groups of one integration, for every pattern of flags.  *)
(* A pattern and its segments are printed when the scan is over.             *)
EXTENDS RampOLS, Json
CONSTANTS NG, Flags
F0 == [dnu |-> 1, sat |-> 2, jump |-> 4, pers |-> 32, nogain |-> 8, chg |-> 128]
VARIABLES q, s, done
vars == <<q, s, done>>
Init == q = <<>> /\ s = ScanInit /\ done = FALSE
\* a group arrives and is scanned
Arrive == /\ Len(q) < NG /\ ~done
          /\ \E x \in Flags : q' = Append(q, x) /\ s' = ScanStep(F0, Append(q, x), s)
          /\ UNCHANGED done
End == /\ Len(q) >= 1 /\ ~done /\ done' = TRUE /\ UNCHANGED <<q, s>>
       /\ PrintT("@@" \o ToJson([q |-> q, segs |-> AllSegs(F0, q)]))
Next == Arrive \/ End
Spec == Init /\ [][Next]_vars

Found == Prune(ScanEnd(s, Len(q)))
\* the incremental scan and the whole-ramp definition agree
SameScan == q # <<>> => Found = AllSegs(F0, q)
\* segments are disjoint, in order, contain only good groups but for a leading jump
WellFormed ==
  /\ \A i \in DOMAIN Found :
       LET g == Found[i]
       IN  /\ g.len >= 1 /\ g.start >= 1 /\ g.start + g.len - 1 <= Len(q)
           /\ \A k \in (g.start + 1)..(g.start + g.len - 1) : Good(F0, q[k])
           /\ Good(F0, q[g.start]) \/ (OnlyJump(F0, q[g.start]) /\ g.len > 1)
           \* maximal
           /\ g.start + g.len <= Len(q) => ~Good(F0, q[g.start + g.len])
           /\ g.start > 1 => (Good(F0, q[g.start]) => ~Good(F0, q[g.start - 1]))
  /\ \A i \in 1..(Len(Found) - 1) : Found[i].start + Found[i].len <= Found[i + 1].start
  /\ \A i \in DOMAIN Found : Found[i].len = 1 => Len(Found) = 1
\* every good group is used, unless it stands alone while something longer exists (or another stands before it)
AllUsed == \A k \in 1..Len(q) : Good(F0, q[k]) =>
             \/ \E i \in DOMAIN Found : Found[i].start <= k /\ k < Found[i].start + Found[i].len
             \/ /\ k > 1 => ~Good(F0, q[k - 1]) /\ ~OnlyJump(F0, q[k - 1])
                /\ k < Len(q) => ~Good(F0, q[k + 1])
\* one more group never changes the segments found so far, but for the last
Growth == [][done' = done => LET a == ScanEnd(s, Len(q)) b == ScanEnd(s', Len(q'))
                             IN  \A i \in 1..(Len(a) - 1) : b[i] = a[i]]_vars
=============================================================================
