---------------------------- MODULE PixmapTrace ----------------------------
(* Recorded maps, predicted images, ranges of pixels and areas.               *)
(* e.out: per pixel (row by row) <<u, v>>, thousandths, NoValue for none;      *)
(* e.after: the boxes of from and to afterwards.                              *)
EXTENDS TraceBase, Pixmap
Wide(e) == LET s == ShapeOf(e)
               b == e.from.box
               x1 == IF b = <<>> THEN 0 ELSE Max2(0, CeilDiv(b[1], 4)) x2 == IF b = <<>> THEN s[2] - 1 ELSE Min2(s[2] - 1, b[2] \div 4)
               y1 == IF b = <<>> THEN 0 ELSE Max2(0, CeilDiv(b[3], 4)) y2 == IF b = <<>> THEN s[1] - 1 ELSE Min2(s[1] - 1, b[4] \div 4)
           IN  Min2(x2 - x1, y2 - y1) + 1 > 10
BadOrder(e) == Sparse(e) /\ e.order \notin {1, 3}
Milli(n, D) == (n \div D) * 1000 + (((n % D) * 100) \div D) * 10
Margin(c) == 12 + (Off(c, 1) + Off(c, 2)) \div 200
PixelOk(c, D, x, y, p) ==
  LET w == Place(c.from, x, y) IN
  IF p[1] = NoValue \/ p[2] = NoValue
  THEN \/ ~Known(c, x, y) \/ MayMiss(c, x, y)
       \/ ~Inside(c, Milli(NumX(c.to, w), D), Milli(NumY(c.to, w), D), Margin(c))
  ELSE /\ Known(c, x, y)
       /\ Near(c, w, p[1], p[2], 2)
       /\ Inside(c, p[1], p[2], 0 - Margin(c))
MapOk(e) == LET s == ShapeOf(e) c == TLCEval([from |-> e.from, to |-> e.to, dis |-> Effective(e.dis, e.one), one |-> e.one, step |-> e.step, order |-> e.order]) D == Abs(Det(e.to)) IN
            Len(e.out) = s[1] * s[2] /\ \A k \in DOMAIN e.out : PixelOk(c, D, (k - 1) % s[2], (k - 1) \div s[2], e.out[k])
Call(e) ==
  LET s == ShapeOf(e)
      may == BadOrder(e) /\ e.err = "ValueError"
      must == e.fault # "" \/ s = <<>> \/ (BadOrder(e) /\ Wide(e))
  IN  Names([boxes |-> e.after = <<e.from.box, e.to.box>>,
             told |-> must => e.err # "" \/ (e.fault # "" /\ \A k \in DOMAIN e.out : e.out[k][1] = NoValue),
             refused |-> e.err = "" \/ must \/ may,
             shape |-> e.err = "" /\ ~must => e.shp = s,
             places |-> e.err = "" /\ ~must => MapOk(e)])
\* ---- predicted images: e.data (e.nr rows, e.nc columns; NoValue where invalid), e.fill, e.out, all but
\* e.data times 1000; ratio |Det| small
BlotOk(e, D, k) ==
  LET s == e.shape x == (k - 1) % s[2] y == (k - 1) \div s[2]
      c == [from |-> e.from, to |-> e.to, dis |-> "to", one |-> FALSE, step |-> e.step, order |-> e.order]
      w == TLCEval(Place(e.from, x, y)) nx == NumX(e.to, w) ny == NumY(e.to, w) v == e.out[k]
  IN  IF ~Known(c, x, y) THEN v = 1000 * e.fill
      ELSE IF Within(e.nr, e.nc, nx, ny, D)
      THEN IF NoValue \in Corners(e.data, e.nr, e.nc, nx, ny, D) THEN v = NoValue
           \* an invalid pixel next to it, that does not count, may do harm
           ELSE IF v = NoValue THEN NoValue \in Neighbours(e.data, e.nr, e.nc, nx, ny, D)
           ELSE NoValue \in Neighbours(e.data, e.nr, e.nc, nx, ny, D) \/
                Abs(v * D * D - 1000 * Bilinear(e.data, e.nr, e.nc, nx, ny, D)) <= 40 * D * D
                \* a place on the edge may be taken to be just off it
                \/ (v = 1000 * e.fill /\ (nx = 0 \/ ny = 0 \/ nx = D * (e.nc - 1) \/ ny = D * (e.nr - 1)))
      ELSE IF Beyond(e.nr, e.nc, nx, ny, D) THEN v = 1000 * e.fill
      ELSE TRUE
Blot(e) == IF e.err # "" THEN {"error"}
           ELSE Names([boxes |-> e.after = <<e.from.box, e.to.box>>, same |-> e.same,
                       blotted |-> Len(e.out) = e.shape[1] * e.shape[2] /\ LET D == TLCEval(Abs(Det(e.to))) IN \A k \in DOMAIN e.out : BlotOk(e, D, k)])
\* ---- pixels (columns lo..hi) that a box (quarters) touches, of n
Touches(b1, b2, i, slack) == 4 * i + 2 + slack > b1 /\ 4 * i - 2 - slack < b2
RangeOk(n, b1, b2, first, last) ==
  /\ 0 <= first /\ first <= last
  /\ last < n \/ (n = 0 /\ last = 0) \/ first >= n
  /\ \A i \in 0..(n - 1) : Touches(b1, b2, i, 0) => first <= i /\ i <= last
  /\ (\E i \in 0..(n - 1) : Touches(b1, b2, i, 0)) => \A i \in first..last : Touches(b1, b2, i, 1)
Ranged(e) == IF e.err # "" THEN {"error"}
            ELSE IF e.box = <<>> THEN Names([range |-> e.out = <<0, Max2(e.shape[2] - 1, 0), 0, Max2(e.shape[1] - 1, 0)>>])
            ELSE Names([range |-> RangeOk(e.shape[2], e.box[1], e.box[2], e.out[1], e.out[2]) /\ RangeOk(e.shape[1], e.box[3], e.box[4], e.out[3], e.out[4])])
\* ---- the mean area of a pixel, in the units of W; e.out = NoValue if none
Area(e) ==
  LET W == e.from s == e.shape
      x1 == IF W.box = <<>> THEN 0 ELSE Max2(0, (W.box[1] + 2) \div 4) x2 == IF W.box = <<>> THEN s[2] - 1 ELSE Min2(s[2] - 1, (W.box[2] - 2) \div 4)
      y1 == IF W.box = <<>> THEN 0 ELSE Max2(0, (W.box[3] + 2) \div 4) y2 == IF W.box = <<>> THEN s[1] - 1 ELSE Min2(s[1] - 1, (W.box[4] - 2) \div 4)
      h1 == IF W.hole # <<>> /\ W.hole[1] = 1 THEN Max2(x1, W.hole[2]) ELSE x1
      h2 == IF W.hole # <<>> /\ W.hole[1] = 2 THEN Min2(x2, W.hole[2]) ELSE x2
      \* looking for the known part takes as much from the other sides
      cut == Max2(h1 - x1, x2 - h2)
      want == TLCEval(MeanArea2(W, h1, h2))
      tol == want \div 500 + 4 * Abs(W.q[1] * W.m[4]) + 4
  IN  IF e.err # "" THEN {"error"}
      ELSE IF s[1] < 2 \/ s[2] < 2 \/ x2 <= x1 \/ y2 <= y1 \/ h2 <= h1 THEN Names([none |-> e.out = NoValue])
      ELSE IF y2 - y1 <= 2 * cut + 1 \/ h2 - h1 <= 2 * cut + 1 THEN {}
      ELSE Names([area |-> e.out # NoValue /\ Abs(2 * e.out - want) <= tol])
\* ---- the frame of an output image: e.shp rows and columns, e.out the square of the scale
Frame(e) ==
  LET b == e.from.box
      want == IF e.from.shape # <<>> THEN e.from.shape ELSE <<(b[4] + 2) \div 4, (b[2] + 2) \div 4>>
  IN  IF e.from.shape = <<>> /\ b = <<>> THEN Names([told |-> e.err # ""])
      ELSE IF e.err # "" THEN {"error"}
      ELSE Names([shape |-> e.shp = want]) \cup Area(e)
\* ---- an image resampled pixel upon pixel: e.data over e.from, e.out (times 100) over e.to
Upright(c) == [x \in 0..(c.from.shape[2] - 1) |-> [y \in 0..(c.from.shape[1] - 1) |-> Known(c, x, y)]]
Sampled(e) ==
  LET c == [from |-> e.from, to |-> e.to, dis |-> "to", one |-> FALSE, step |-> e.step, order |-> e.order]
      D == Abs(Det(e.to)) s == e.from.shape t == e.to.shape
      good == TLCEval(Upright(c))
      Whole(x, y) == \A a \in (x - 1)..(x + 1), b \in (y - 1)..(y + 1) : a \in DOMAIN good /\ b \in DOMAIN good[a] /\ good[a][b]
      at(x, y) == LET w == Place(e.from, x, y) IN <<NumX(e.to, w) \div D, NumY(e.to, w) \div D>>
  IN  IF e.err # "" THEN {"error"}
      ELSE Names([boxes |-> e.after = <<e.from.box, e.to.box>>,
                  resampled |-> Len(e.out) = t[1] * t[2] /\
                     \A x \in 0..(s[2] - 1), y \in 0..(s[1] - 1) :
                        Whole(x, y) => LET p == at(x, y) IN
                          (0 < p[1] /\ p[1] < t[2] - 1 /\ 0 < p[2] /\ p[2] < t[1] - 1) =>
                             Abs(e.out[p[2] * t[2] + p[1] + 1] - 100 * e.data[y * s[2] + x + 1]) <= 5])
Failed(e) == CASE e.kind = "frame" -> Frame(e) [] e.kind = "sampled" -> Sampled(e) [] e.kind = "call" -> Call(e) [] e.kind = "blot" -> Blot(e) [] e.kind = "range" -> Ranged(e) [] OTHER -> Area(e)
Next == TNext(Failed)
=============================================================================
