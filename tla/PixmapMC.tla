------------------------------ MODULE PixmapMC ------------------------------
(* Histories of calls that share three coordinate systems: their boxes are    *)
(* set aside while a call needs it and put back, whatever happens.            *)
EXTENDS Pixmap, TLC, Json
CONSTANTS Depth, Emit
VARIABLES box, pc, call, hist
vars == <<box, pc, call, hist>>
W(m, o, q, s, b, h) == [m |-> m, o |-> o, q |-> q, shape |-> s, box |-> b, hole |-> h]
NoQ == <<0, 0, 0, 0, 0, 0>>
Cat == <<W(<<10, 0, 0, 10>>, <<0, 0>>, NoQ, <<12, 14>>, <<0 - 2, 54, 0 - 2, 46>>, <<>>),
         W(<<0, 5, 0 - 5, 0>>, <<30, 90>>, NoQ, <<30, 26>>, <<5, 96, 4, 110>>, <<>>),
         W(<<7, 2, 0 - 1, 9>>, <<0 - 20, 15>>, NoQ, <<13, 11>>, <<>>, <<1, 2>>)>>
Calls == [from : DOMAIN Cat, to : DOMAIN Cat, dis : {"to", "from", "both", "none"}, how : {<<1, 1>>, <<4, 1>>, <<4, 3>>, <<4, 2>>}, fault : {"", "from", "to"}]
Init == box = [i \in DOMAIN Cat |-> Cat[i].box] /\ pc = "idle" /\ call = [from |-> 1, to |-> 1, dis |-> "", how |-> <<1, 1>>, fault |-> ""] /\ hist = <<>>
\* a call takes the boxes away that it is to disregard, works, fails or not, and puts them back
Start == /\ pc = "idle" /\ Len(hist) < Depth
         /\ \E k \in Calls : /\ call' = k /\ hist' = Append(hist, k)
                             /\ box' = [i \in DOMAIN Cat |-> IF (i = k.from /\ Ignores(k.dis, "from")) \/ (i = k.to /\ Ignores(k.dis, "to")) THEN <<>> ELSE box[i]]
         /\ pc' = "working"
Work == pc = "working" /\ pc' = (IF call.fault # "" \/ call.how[2] = 2 THEN "failed" ELSE "mapped") /\ UNCHANGED <<box, call, hist>>
Return == pc \in {"failed", "mapped"} /\ pc' = "idle" /\ box' = [i \in DOMAIN Cat |-> IF i \in {call.from, call.to} THEN Cat[i].box ELSE box[i]] /\ UNCHANGED <<call, hist>>
Next == Start \/ Work \/ Return
Spec == Init /\ [][Next]_vars
Kept == pc = "idle" => box = [i \in DOMAIN Cat |-> Cat[i].box]
Untouched == \A i \in DOMAIN Cat \ {call.from, call.to} : box[i] = Cat[i].box
\* what counts while at work is what the call asks for
C == [from |-> Cat[call.from], to |-> Cat[call.to], dis |-> Effective(call.dis, call.from = call.to), one |-> call.from = call.to, step |-> call.how[1], order |-> call.how[2]]
Active == pc = "working" =>
   /\ \A x \in 0..3, y \in 0..3 : Known(C, x, y) <=> (~InHole(C.from, x, y) /\ InBox([C.from EXCEPT !.box = box[call.from]], 4 * x, 4 * y))
\* places lead back
There == pc = "working" => \A x \in {0, 3, 11}, y \in {0, 5, 12} :
   LET w == Place(C.from, x, y) D == Abs(Det(C.to)) nx == NumX(C.to, w) ny == NumY(C.to, w)
   IN  /\ C.to.m[1] * nx + C.to.m[2] * ny = D * (w[1] - C.to.o[1])
       /\ C.to.m[3] * nx + C.to.m[4] * ny = D * (w[2] - C.to.o[2])
       /\ (call.from = call.to => nx = D * x /\ ny = D * y)
\* grids: gaps at most ten ninths of the step; between nodes a parabola strays by its curvature times a quarter of the gap squared
Nodes(n, s) == Max2(CeilDiv(n, s), Min2(10, n))
Gaps == (pc = "idle" /\ hist = <<>>) =>
  \A n \in 11..60, s \in 2..30 :
    LET k == Nodes(n, s) IN
    /\ k >= 10 /\ 9 * (n - 1) <= 10 * s * (k - 1)
    \* at pixel x, between nodes l and r = l + 1 (positions times k - 1): (x - l)(r - x) <= gap^2 / 4 <= 0.32 step^2
    /\ \A x \in 0..(n - 2) : LET X == x * (k - 1) l == X \div (n - 1) IN
         1000 * (X - l * (n - 1)) * ((l + 1) * (n - 1) - X) <= 320 * s * s * (k - 1) * (k - 1)
Emitted == (Emit /\ pc = "idle" /\ hist # <<>>) => PrintT("@@" \o ToJson([calls |-> hist]))
EmittedCat == (Emit /\ hist = <<>>) => PrintT("@@" \o ToJson([cat |-> Cat]))
=============================================================================
