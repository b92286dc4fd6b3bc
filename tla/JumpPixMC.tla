----------------------------- MODULE JumpPixMC -----------------------------
(* One pixel, exhaustively: every ramp of Steps and every arrangement of at   *)
(* most two bad groups; each way of detecting jumps. The detection is a state *)
(* machine that flags the largest outlier and looks again (iterative), or     *)
(* flags all at once.                                                         *)
EXTENDS Jump, Json
LOCAL NaN == 2000000001
CONSTANTS NG, Emit
Steps == {5, 60, -40}
VARIABLES x, meth, hit, left, done
vars == <<x, meth, hit, left, done>>
F == [dnu |-> 1, sat |-> 2, jump |-> 4]
p == [F |-> F, S |-> 1, dt |-> <<1>>, nn |-> <<2>>, t |-> 8, t3 |-> 10, t2 |-> 12, onlyInts |-> FALSE]
Ramp(s) == [g \in 1..NG |-> IF g = 1 THEN 3 ELSE FoldSeq(LAMBDA a, b : a + b, 3, SubSeq(s, 1, g - 1))]
FlagSeqs == {[g \in 1..NG |-> IF g \in s THEN f ELSE 0] : s \in {t \in SUBSET (1..NG) : Cardinality(t) <= 2}, f \in {1, 2}}
Init == /\ \E s \in [1..(NG - 1) -> Steps], q \in FlagSeqs : x = [rn |-> 4, ints |-> <<[d |-> Ramp(s), q |-> q]>>]
        /\ meth \in {"onepass", "iterative", "sigclip"}
        /\ hit = {} /\ left = Places(Diffs(p, x)) /\ done = FALSE
All == Detect(p, meth, x)
\* one look at what is left: the largest outlier (and whatever ties with it) is a jump
Look ==
  /\ meth = "iterative" /\ ~done
  /\ LET v == AbsDiffs(Diffs(p, x)) n == Cardinality(left) m == ClipMed(v, left)
         e(z) == Abs(v[z[1]][z[2]] - m)
         top == {z \in left : \A y \in left : e(y) <= e(z)}
         t == IF n >= 4 THEN p.t ELSE IF n = 3 THEN p.t3 ELSE p.t2
         found == n >= 2 /\ m # NaN /\ \E z \in top : Exceeds(p, e(z), m, x.rn, z[2], t) = "yes"
     IN  IF found THEN hit' = hit \cup top /\ left' = left \ top /\ done' = FALSE
         ELSE UNCHANGED <<hit, left>> /\ done' = TRUE
  /\ UNCHANGED <<x, meth>>
AtOnce == meth # "iterative" /\ ~done /\ hit' = All.hit /\ left' = left \ All.hit /\ done' = TRUE /\ UNCHANGED <<x, meth>>
Next == Look \/ AtOnce
Spec == Init /\ [][Next]_vars
OnUsable == hit \subseteq Places(Diffs(p, x))
Together == done => (All.amb \/ hit = All.hit)           \* the machine ends in what the definition says
Shrinks == hit \cap left = {} /\ hit \cup left = Places(Diffs(p, x))
LeavesSome == meth # "onepass" => (Places(Diffs(p, x)) # {} => left # {} \/ ~done \/ meth = "iterative")
\* values in unusable groups never matter
Blind == done => LET y == [x EXCEPT !.ints = <<[d |-> [g \in 1..NG |-> IF Bad(p, x.ints[1].q[g]) THEN 999 ELSE x.ints[1].d[g]],
                                               q |-> x.ints[1].q]>>]
                 IN  Detect(p, meth, y).hit = All.hit
Emitted == (done /\ Emit /\ meth = "iterative") => PrintT("@@" \o ToJson([d |-> x.ints[1].d, q |-> x.ints[1].q]))
=============================================================================
