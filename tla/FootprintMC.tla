---------------------------- MODULE FootprintMC ----------------------------
(* Two images of a few sizes at every offset, with and without a window; and    *)
(* aberration there and back.                                                     *)
EXTENDS Footprint, Json
CONSTANTS Offsets, Sizes, Emit
VARIABLES s
Box(x, y, w, h) == <<<<x, y>>, <<x + w, y>>, <<x + w, y + h>>, <<x, y + h>>>>
Diamond(x, y, r) == <<<<x - r, y>>, <<x, y - r>>, <<x + r, y>>, <<x, y + r>>>>
Images == [dx : Offsets, dy : Offsets, w : Sizes, h : Sizes, cut : 0..2]
A(t) == <<Box(0, 0, 600, 600), Box(t.dx, t.dy, t.w, t.h)>>
Cut(t) == CASE t.cut = 0 -> <<>> [] t.cut = 1 -> Box(-100, 200, 1500, 150) [] OTHER -> Diamond(500, 500, 450)
Probe == {-55, 25, 145, 310, 433, 577, 622, 690, 955}
In(x, a, w) == x > a /\ x < a + w
\* directions and speeds with rational cosines
Units == {<<10000, 0, 0>>, <<0, 10000, 0>>, <<6000, 8000, 0>>, <<-8000, 0, 6000>>, <<3333, 6667, 6667>>, <<-2857, 4286, 8571>>, <<0, 0, -10000>>}
Speeds == {<<6000, 8000>>, <<2800, 9600>>, <<8000, 6000>>, <<1, 10000>>}
\* the angle of a star to the motion, seen; and seen from there by one who moves back
There(c, b) == SeenCos(c, b[1])
Init == s \in [kind : {"images"}, im : Images] \cup [kind : {"motion"}, u : Units, v : Units, b : Speeds]
Next == UNCHANGED s
Spec == Init /\ [][Next]_s
Band(x, y, d) == In(x, -d, 600 + 2 * d) /\ In(y, -d, 600 + 2 * d) /\ ~(In(x, d, 600 - 2 * d) /\ In(y, d, 600 - 2 * d))
ImagesOk ==
  s.kind = "images" =>
    LET t == s.im IN
    \A x, y \in Probe :
      /\ Inside(A(t)[1], <<x, y>>) = (In(x, 0, 600) /\ In(y, 0, 600))
      /\ Inside(A(t)[2], <<x, y>>) = (In(x, t.dx, t.w) /\ In(y, t.dy, t.h))
      /\ Inside(Diamond(500, 500, 450), <<x, y>>) = (Abs(x - 500) + Abs(y - 500) < 450)
      \* what a window shows is covered without it too; two convex images enclose nothing
      /\ Covered(A(t), Cut(t), <<x, y>>) => Covered(A(t), <<>>, <<x, y>>)
      \* what is called close to the border is, and what is close is called so
      /\ Band(x, y, 28) => Near(A(t)[1], <<x, y>>, 30)
      /\ Near(A(t)[1], <<x, y>>, 30) => Band(x, y, 46)
      /\ (\E P \in {1, 2} : Near(A(t)[P], <<x, y>>, 30)) \/ Enclosed(<<A(t)[1], A(t)[2]>>, <<x, y>>) \/ ~Inside(A(t)[1], <<x, y>>)
MotionOk ==
  s.kind = "motion" =>
    LET c == Dot3(s.u, s.v) b == s.b[1] g == s.b[2] c2 == SeenCos(c, b) IN
    /\ c2 <= 10001 /\ c2 >= -10001
    \* stars crowd towards the motion; back again they are where they were, and scales cancel
    /\ (c2 - c >= -2)
    /\ Abs(c) < 9990 => Abs(SeenCos(c2, -b) - c) <= 2 + 40000 \div Scale(c, b, g)
    /\ Abs((Scale(c, b, g) * Scale(c2, -b, g)) \div 10000 - 10000) <= 30
Emitted == (Emit /\ s.kind = "images") => PrintT("@@" \o ToJson([polys |-> A(s.im), cut |-> Cut(s.im)]))
=============================================================================
