------------------------------ MODULE Footprint ------------------------------
(* Footprints of images on the sky: polygons and what they cover, frames that   *)
(* hold several images, and the directions that a moving observer sees.          *)
(* Polygons are sequences of points <<x, y>> in 1/100 pixel; directions are unit   *)
(* vectors in 1/10000.                                                              *)
EXTENDS Cas22
Sgn(x) == IF x < 0 THEN -1 ELSE 1
Nxt(P, i) == IF i = Len(P) THEN 1 ELSE i + 1

(* ---- polygons --------------------------------------------------------------- *)
\* twice the area of the triangle a b q, counter-clockwise positive
Turn(a, b, q) == (b[1] - a[1]) * (q[2] - a[2]) - (q[1] - a[1]) * (b[2] - a[2])
Crosses(a, b, q) == (a[2] > q[2]) # (b[2] > q[2]) /\ (IF b[2] > a[2] THEN Turn(a, b, q) > 0 ELSE Turn(a, b, q) < 0)
Inside(P, q) == Cardinality({i \in DOMAIN P : Crosses(P[i], P[Nxt(P, i)], q)}) % 2 = 1
\* q is within about d of the border of P
Close(a, b, q, d) ==
  LET l == Top(Abs(b[1] - a[1]), Abs(b[2] - a[2]))
  IN  /\ q[1] >= (IF a[1] < b[1] THEN a[1] ELSE b[1]) - d /\ q[1] <= Top(a[1], b[1]) + d
      /\ q[2] >= (IF a[2] < b[2] THEN a[2] ELSE b[2]) - d /\ q[2] <= Top(a[2], b[2]) + d
      /\ Abs(Turn(a, b, q)) <= (l + l \div 2 + 1) * d
Near(P, q, d) == \E i \in DOMAIN P : Close(P[i], P[Nxt(P, i)], q, d)
\* covered by the polygons of A, and where there is a window, by the window
Covered(A, cut, q) == (\E i \in DOMAIN A : Inside(A[i], q)) /\ (cut = <<>> \/ Inside(cut, q))
Borderline(A, cut, q, d) == (\E i \in DOMAIN A : Near(A[i], q, d)) \/ (cut # <<>> /\ Near(cut, q, d))
\* enclosed on all four sides (a hole, which one outline cannot show)
Enclosed(A, q) ==
  LET E == UNION {{<<A[i][j], A[i][Nxt(A[i], j)]>> : j \in DOMAIN A[i]} : i \in DOMAIN A}
      Swap(p) == <<p[2], p[1]>>
      \* an edge meets the horizontal through q, to the right, or to the left, of it
      right(e) == (e[1][2] > q[2]) # (e[2][2] > q[2]) /\ Crosses(e[1], e[2], q)
      left(e) == (e[1][2] > q[2]) # (e[2][2] > q[2]) /\ ~Crosses(e[1], e[2], q)
      up(e) == (e[1][1] > q[1]) # (e[2][1] > q[1]) /\ Crosses(Swap(e[1]), Swap(e[2]), Swap(q))
      down(e) == (e[1][1] > q[1]) # (e[2][1] > q[1]) /\ ~Crosses(Swap(e[1]), Swap(e[2]), Swap(q))
  IN  (\E e \in E : right(e)) /\ (\E e \in E : left(e)) /\ (\E e \in E : up(e)) /\ (\E e \in E : down(e))

(* ---- rotations --------------------------------------------------------------- *)
\* angles are <<cos, sin>> in 1/10000
Plus(a, b) == <<(a[1] * b[1] - a[2] * b[2]) \div 10000, (a[2] * b[1] + a[1] * b[2]) \div 10000>>
Minus(a, b) == Plus(a, <<b[1], -b[2]>>)
Signed(p, a) == IF p < 0 THEN <<a[1], -a[2]>> ELSE a
\* orientation of an image: roll less the angle of its y axis
Orientation(roll, yangle, p) == Minus(roll, Signed(p, yangle))
\* matrix of the orientation r, with x to the right (1) or to the left (-1): rows are east and north
PC(r, p) == <<p * r[1], r[2], -p * r[2], r[1]>>
Det(m) == (m[1] * m[4] - m[2] * m[3]) \div 10000

(* ---- aberration ------------------------------------------------------------------ *)
Dot3(a, b) == (a[1] * b[1] + a[2] * b[2] + a[3] * b[3]) \div 10000
Size2(a) == Dot3(a, a)
\* cosine of the angle to the motion, of speed b = |v|, seen by the observer; g = sqrt(1 - b^2)
SeenCos(c, b) == ((c + b) * 10000) \div (10000 + (c * b) \div 10000)
Scale(c, b, g) == ((10000 + (c * b) \div 10000) * 10000) \div g
=============================================================================
