------------------------------- MODULE DarkMC -------------------------------
(* Every small read-out of science and dark.                                  *)
EXTENDS Dark, Json
CONSTANTS Emit
VARIABLES p, nd, dng, S, i
vars == <<p, nd, dng, S, i>>
\* distinct in every integration and frame, and not linear in time; the second pixel is not valid at times
DarkOf(n) == [f \in 1..dng |-> <<12 * (100 * n + f * f), IF f = 2 THEN NoValue ELSE 12 * (n + f)>>]
Init == /\ p \in [nf : 1..3, gap : 0..2, ng : 1..3, ni : 1..3, start : 0..2, dnf : 1..2, dgap : 0..1]
        /\ nd \in 0..3 /\ dng \in 2..7
        /\ (p.nf = p.dnf /\ p.gap = p.dgap) \/ p.dnf > p.nf \/ p.dgap > p.gap \/ (p.dnf = 1 /\ p.dgap = 0)
        /\ nd < 2 => p.start = 0
        /\ S = Begin /\ i = 1
Next == /\ ~Refused(p)
        /\ IF Len(S.sub) < p.ng THEN S' = Step(p, DarkOf(Which(p, Max2(nd, 1), i)), S) /\ i' = i
           ELSE i < p.ni /\ i' = i + 1 /\ S' = Begin
        /\ UNCHANGED <<p, nd, dng>>
Spec == Init /\ [][Next]_vars

Integration == Which(p, Max2(nd, 1), i) \in 1..Max2(nd, 1)
\* after extension no science group reaches past the dark
Enough == (~Refused(p)) => Frames(dng + Extra(p, dng), p.dnf, p.dgap) >= Frames(p.ng, p.nf, p.gap)
FewEnough == (~Refused(p) /\ Extra(p, dng) > 0) =>
               Frames(dng + Extra(p, dng) - (IF p.dgap = 0 THEN 1 ELSE 2), p.dnf, p.dgap) < Frames(p.ng, p.nf, p.gap)
Within == (~Refused(p) /\ Len(S.sub) > 0) => (S.next - p.gap - 1 <= dng + Extra(p, dng) \/ Direct(p))
\* the mean lies within the frames averaged, so later groups have the larger dark here
Ordered == \A g \in 1..(Len(S.sub) - 1) : S.sub[g][1] < S.sub[g + 1][1]
Finished == (Refused(p) \/ (i = p.ni /\ Len(S.sub) = p.ng))
Emitted == (Finished /\ Emit) => PrintT("@@" \o ToJson([p |-> p, nd |-> nd, dng |-> dng]))
=============================================================================
