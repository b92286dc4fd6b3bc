------------------------------- MODULE Pixmap -------------------------------
(* Maps of the pixels of one image onto those of another, and what is made   *)
(* of them: predicted ("blotted") images, areas of pixels.                    *)
(*                                                                            *)
(* A coordinate system W is a record                                          *)
(*   m     <<a, b, c, d>>: place of pixel (x, y) is (a x + b y, c x + d y)     *)
(*   o     <<ox, oy>>, added to it                                            *)
(*   q     <<p1, p2, p3, r1, r2, r3>>: distortion, p1 x^2 + p2 x y + p3 y^2    *)
(*         added to the first and the same with r to the second coordinate     *)
(*   shape <<rows, columns>> of its image, or <<>>                            *)
(*   box   <<x1, x2, y1, y2>>, four times the limits of its bounding box, or <<>> *)
(*   hole  <<side, k>>: nothing is known of the pixels less than (side 1, 3:   *)
(*         x, y) or more (2, 4) than k; or <<>>                               *)
(* A call  [from, to, shape, dis, step, order, fault]  maps the pixels of      *)
(* from to places on to; dis is the side(s) whose box is to be disregarded,    *)
(* one says that both are the same object.                                    *)
EXTENDS Bits, FiniteSets
CONSTANTS NoValue

Place(W, x, y) == <<W.m[1] * x + W.m[2] * y + W.o[1] + W.q[1] * x * x + W.q[2] * x * y + W.q[3] * y * y,
                    W.m[3] * x + W.m[4] * y + W.o[2] + W.q[4] * x * x + W.q[5] * x * y + W.q[6] * y * y>>
Det(W) == W.m[1] * W.m[4] - W.m[2] * W.m[3]
InHole(W, x, y) == W.hole # <<>> /\ CASE W.hole[1] = 1 -> x < W.hole[2] [] W.hole[1] = 2 -> x > W.hole[2]
                                      [] W.hole[1] = 3 -> y < W.hole[2] [] OTHER -> y > W.hole[2]
\* x4, y4: four times the pixel coordinates
InBox(W, x4, y4) == W.box = <<>> \/ (W.box[1] <= x4 /\ x4 <= W.box[2] /\ W.box[3] <= y4 /\ y4 <= W.box[4])
Ignores(dis, side) == dis = "both" \/ dis = side
\* of one system that is both "from" and "to" there is only one box
Effective(dis, one) == IF one /\ dis # "none" THEN "both" ELSE dis
ShapeOf(c) == IF c.shape # <<>> THEN c.shape
              ELSE IF c.from.shape # <<>> THEN c.from.shape
              ELSE IF c.from.box # <<>> THEN <<CeilDiv(c.from.box[4] + 2, 4), CeilDiv(c.from.box[2] + 2, 4)>>
              ELSE <<>>
Sparse(c) == c.step > 1
\* the places between those of a coarse grid may be off by this much (times 1000, per coordinate):
\* the gaps of the grid are at most ten ninths of the step
Off(c, k) == IF ~Sparse(c) \/ c.order = 3 THEN 0
             ELSE LET q == c.from.q IN
                  (IF k = 1 THEN Abs(q[1]) + Abs(q[3]) ELSE Abs(q[4]) + Abs(q[6])) * 320 * c.step * c.step
\* does (u, v), thousandths of a pixel, lie at the place w of c.to
Near(c, w, u, v, tol) ==
  LET T == c.to m == T.m
  IN  /\ Abs(m[1] * u + m[2] * v - 1000 * (w[1] - T.o[1])) <= tol * (Abs(m[1]) + Abs(m[2])) + Off(c, 1)
      /\ Abs(m[3] * u + m[4] * v - 1000 * (w[2] - T.o[2])) <= tol * (Abs(m[3]) + Abs(m[4])) + Off(c, 2)
\* where the place w is on c.to, exactly: numerators over Det(c.to)
Sg(n) == IF n < 0 THEN 0 - 1 ELSE 1
NumX(T, w) == Sg(Det(T)) * (T.m[4] * (w[1] - T.o[1]) - T.m[2] * (w[2] - T.o[2]))
NumY(T, w) == Sg(Det(T)) * (T.m[1] * (w[2] - T.o[2]) - T.m[3] * (w[1] - T.o[1]))
\* pixel (x, y) of c.from has a place
Known(c, x, y) == ~InHole(c.from, x, y) /\ (Ignores(c.dis, "from") \/ InBox(c.from, 4 * x, 4 * y))
\* with (u, v) thousandths of a pixel: is the place within the box of c.to, surely or possibly
Inside(c, u, v, margin) ==
  \/ Ignores(c.dis, "to") \/ c.to.box = <<>>
  \/ LET b == c.to.box IN
     250 * b[1] + margin <= u /\ u <= 250 * b[2] - margin /\ 250 * b[3] + margin <= v /\ v <= 250 * b[4] - margin
\* pixels outside a disregarded box of "from" may be left out on a coarse grid
MayMiss(c, x, y) == (Sparse(c) \/ (c.one /\ c.dis # "none")) /\ ~InBox(c.from, 4 * x, 4 * y)

\* ---- what is predicted: c.to is the image `data` (rows nr, columns nc) with D = Det(c.to)
Cell(data, nc, x, y) == data[y * nc + x + 1]
\* over D^2; nx, ny: numerators of the place
Bilinear(data, nr, nc, nx, ny, D) ==
  LET x == nx \div D y == ny \div D fx == nx - D * x fy == ny - D * y
      x1 == IF x + 1 < nc THEN x + 1 ELSE x
      y1 == IF y + 1 < nr THEN y + 1 ELSE y
  IN  Cell(data, nc, x, y) * ((D - fx) * (D - fy)) + Cell(data, nc, x1, y) * (fx * (D - fy))
      + Cell(data, nc, x, y1) * ((D - fx) * fy) + Cell(data, nc, x1, y1) * (fx * fy)
Corners(data, nr, nc, nx, ny, D) ==
  LET x == nx \div D y == ny \div D fx == nx - D * x fy == ny - D * y
      xs == IF fx = 0 \/ x + 1 >= nc THEN {x} ELSE {x, x + 1}
      ys == IF fy = 0 \/ y + 1 >= nr THEN {y} ELSE {y, y + 1}
  IN  {Cell(data, nc, a, b) : a \in xs, b \in ys}
Neighbours(data, nr, nc, nx, ny, D) ==
  LET x == nx \div D y == ny \div D
  IN  {Cell(data, nc, a, b) : a \in {t \in {x, x + 1} : t < nc}, b \in {t \in {y, y + 1} : t < nr}}
\* within the centres of the outer pixels, or further out than the next ones would be
Within(nr, nc, nx, ny, D) == 0 <= nx /\ nx <= D * (nc - 1) /\ 0 <= ny /\ ny <= D * (nr - 1)
Beyond(nr, nc, nx, ny, D) == nx <= 0 - D \/ nx >= D * nc \/ ny <= 0 - D \/ ny >= D * nr

\* ---- areas: of all pixels between columns x1..x2 and rows y1..y2 (corners at pixel centres), on average;
\* W distorted only by p1 (and not skewed), or not at all
MeanArea2(W, x1, x2) == 2 * Abs(Det(W)) + 2 * W.q[1] * W.m[4] * Sg(Det(W)) * (x1 + x2)
=============================================================================
