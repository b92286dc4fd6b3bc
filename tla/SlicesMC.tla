----------------------------- MODULE SlicesMC -----------------------------
(* Workers take slices in any order, finish in any order, and their results   *)
(* are assembled by slice number: the assembled image is the one computed     *)
(* whole, whatever the schedule, for work that is local to a row.             *)
EXTENDS Slices
CONSTANTS MaxRows, MaxWorkers
VARIABLES nrows, n, kind, todo, busy, results, image
vars == <<nrows, n, kind, todo, busy, results, image>>
Sl == IF kind = "even" THEN Even(nrows, n) ELSE LastTakesRest(nrows, n)
F(r) == 10 + r * r             \* the row-local work
Init == /\ nrows \in 1..MaxRows /\ n \in 1..MaxWorkers /\ n <= nrows /\ kind \in {"even", "rest"}
        /\ todo = 1..n /\ busy = {} /\ results = [k \in {} |-> <<>>] /\ image = <<>>
Take(k) == k \in todo /\ todo' = todo \ {k} /\ busy' = busy \cup {k} /\ UNCHANGED <<nrows, n, kind, results, image>>
Finish(k) == /\ k \in busy /\ busy' = busy \ {k}
             /\ results' = (k :> [i \in 1..Sl[k][2] |-> F(Sl[k][1] + i - 1)]) @@ results
             /\ UNCHANGED <<nrows, n, kind, todo, image>>
Assemble == /\ todo = {} /\ busy = {} /\ image = <<>>
            /\ image' = [r \in 1..nrows |->
                 LET k == CHOOSE k \in 1..n : Sl[k][1] < r /\ r <= Sl[k][1] + Sl[k][2]
                 IN  results[k][r - Sl[k][1]]]
            /\ UNCHANGED <<nrows, n, kind, todo, busy, results>>
Next == Assemble \/ \E k \in 1..n : Take(k) \/ Finish(k)
Spec == Init /\ [][Next]_vars
Partition == Covers(nrows, Sl)
Faithful == image # <<>> => \A r \in 1..nrows : image[r] = F(r - 1)
Bounds == \A req \in {"none", "quarter", "half", "all", "junk"}, num \in -1..6, a \in 1..9 :
            LET w == Workers(req, num, nrows, a) IN w >= 1 /\ w <= nrows /\ w <= a /\ (num >= 1 => w <= num)
=============================================================================
