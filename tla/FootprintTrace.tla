--------------------------- MODULE FootprintTrace ---------------------------
(* Recorded footprints. kind "union": combined region strings; "keyword": region *)
(* strings written and read; "region": region string of an image; "frame":         *)
(* combined frames; "motion", "slow": aberration; "matrix": orientation matrices;    *)
(* "scale": pixel scale of an image.                                                 *)
EXTENDS TraceBase, Footprint
Closely(a, b, d) == Abs(a - b) <= d
UnionOk(e) ==
  Names([
    none |-> (e.err = "ValueError") => \A i \in DOMAIN e.pts : Borderline(e.polys, e.cut, e.pts[i], 15) \/ ~Covered(e.polys, e.cut, e.pts[i]),
    err |-> e.err \in {"", "ValueError"} /\ (e.err # "" => e.cut # <<>>),
    covered |-> \A i \in DOMAIN e.pts : (e.err = "" /\ Covered(e.polys, e.cut, e.pts[i]) /\ ~Borderline(e.polys, e.cut, e.pts[i], 15))
                                          => \E j \in DOMAIN e.out : Inside(e.out[j], e.pts[i]),
    only |-> \A i \in DOMAIN e.pts : (\E j \in DOMAIN e.out : Inside(e.out[j], e.pts[i]))
               => Covered(e.polys, e.cut, e.pts[i]) \/ Borderline(e.polys, e.cut, e.pts[i], 15)
                  \/ (Len(e.polys) > 2 /\ Enclosed(e.polys, e.pts[i]) /\ (e.cut = <<>> \/ Inside(e.cut, e.pts[i]))),
    \* one outline each place, and outlines are polygons
    once |-> \A i \in DOMAIN e.pts : Cardinality({j \in DOMAIN e.out : Inside(e.out[j], e.pts[i]) /\ ~Near(e.out[j], e.pts[i], 15)}) <= 1,
    polygons |-> \A j \in DOMAIN e.out : Len(e.out[j]) >= 3])
\* numbers are pairs of degrees and 1e-9 degrees
KeywordOk(e) ==
  Names([err |-> e.err = "", nan |-> e.nan = e.none, frame |-> e.none \/ e.frame = "POLYGON ICRS", back |-> e.none \/ e.back = e.v])
RegionOk(e) ==
  Names([err |-> e.err = "",
         vertices |-> e.err # "" \/ (Len(e.got) = Len(e.want) /\ \A i \in DOMAIN e.want : e.got[i][1] = e.want[i][1] /\ Closely(e.got[i][2], e.want[i][2], 2)),
         range |-> e.err # "" \/ \A i \in DOMAIN e.got : i % 2 = 1 => e.got[i][1] >= 0 /\ e.got[i][1] <= 360,
         bbox |-> e.err # "" \/ e.bbox = e.wantbox])
\* e.px: positions of all vertices, e.lo, e.hi: the box, in 1/1000 pixel; e.stepx, e.stepy: 100 pixels to the right and up, on the sky, east and north
FrameOk(e) ==
  LET r == IF e.rot = <<>> THEN Orientation(e.roll, e.yangle, e.par) ELSE e.rot
      m == PC(r, e.par)
      \* an angle of the matrix times the scale, in mas per 100 pixels
      step(k) == (m[k] * e.scale) \div 10000
      d == 10 + e.scale \div 1000
      free == ~e.shaped /\ e.crpix = <<>>
      wide(k) == Max({p[k] : p \in {e.px[i] : i \in DOMAIN e.px}}) - Min({p[k] : p \in {e.px[i] : i \in DOMAIN e.px}})
  IN  Names([
    \* the images may lie outside of what a given reference pixel leaves
    err |-> e.err = "" \/ (e.err = "small" /\ e.crpix # <<>> /\ ~e.shaped),
    back |-> e.err # "" \/ e.off <= 20,
    contains |-> e.err # "" \/ ~free \/ \A i \in DOMAIN e.px : \A k \in {1, 2} : e.px[i][k] >= e.lo[k] - 20 /\ e.px[i][k] <= e.hi[k] + 1020,
    tight |-> e.err # "" \/ ~free \/ \A k \in {1, 2} : 1000 * e.shape[3 - k] >= wide(k) - 1020 /\ 1000 * e.shape[3 - k] <= wide(k) + 1020,
    box |-> e.err # "" \/ e.shaped \/ \A k \in {1, 2} : e.lo[k] = -500 /\ e.hi[k] = 1000 * e.shape[3 - k] - 500,
    shape |-> e.err # "" \/ ~e.shaped \/ (e.shape = e.want /\ \A k \in {1, 2} : e.lo[k] >= -500 /\ e.hi[k] <= 1000 * e.shape[3 - k] - 500),
    shown |-> e.err # "" \/ ~e.shaped \/ \A i \in DOMAIN e.px : \A k \in {1, 2} :
                 (e.px[i][k] >= 20 /\ e.px[i][k] <= 1000 * e.shape[3 - k] - 1020) => e.px[i][k] >= e.lo[k] - 20 /\ e.px[i][k] <= e.hi[k] + 1020,
    right |-> e.err # "" \/ (Closely(e.stepx[1], step(1), d) /\ Closely(e.stepx[2], step(3), d)),
    up |-> e.err # "" \/ (Closely(e.stepy[1], step(2), d) /\ Closely(e.stepy[2], step(4), d)),
    reference |-> e.err # "" \/ (/\ e.crpix # <<>> => Closely(e.fid[1], e.crpix[1], 20) /\ Closely(e.fid[2], e.crpix[2], 20)
                  /\ free /\ ~e.crval => \A k \in {1, 2} : e.fid[k] >= -20 /\ e.fid[k] <= wide(k) + 20)])
MotionTraceOk(e) ==
  LET c == Dot3(e.u, e.v) s == e.seen
  IN  Names([
    unit |-> Closely(Size2(s), 10000, 4),
    angle |-> Closely(Dot3(s, e.v), SeenCos(c, e.b), 4),
    \* in the plane of the star and the motion: what is left of the motion's direction lies along what was
    plane |-> \A i, j \in 1..3 : Closely((s[i] - (Dot3(s, e.v) * e.v[i]) \div 10000) * (e.u[j] - (c * e.v[j]) \div 10000),
                                          (s[j] - (Dot3(s, e.v) * e.v[j]) \div 10000) * (e.u[i] - (c * e.v[i]) \div 10000), 60000),
    scale |-> Closely(e.scale, Scale(c, e.b, e.g), 4 + Scale(c, e.b, e.g) \div 2000),
    back |-> \A i \in 1..3 : Closely(e.back[i], e.u[i], 2),
    scales |-> Closely(MulDiv(e.scale, e.scale2, 10000), 10000, 4 + 20000 \div e.scale)])
\* slow motion: displacements in 1e-9, directions in 1e-6, speeds in 1e-9
SlowOk(e) ==
  LET ub == FoldSet(LAMBDA i, a : a + MulDiv(e.u[i], e.v[i], 1000000), 0, 1..3)
  IN  Names([moved |-> \A i \in 1..3 : Closely(e.moved[i], e.v[i] - MulDiv(ub, e.u[i], 1000000), 20),
             scale |-> Closely(e.scale, ub, 25), still |-> e.v = <<0, 0, 0>> => e.moved = <<0, 0, 0>> /\ e.scale = 0])
MatrixOk(e) ==
  LET m == PC(Orientation(e.roll, e.yangle, e.par), e.par)
  IN  Names([err |-> e.err = IF e.par \in {-1, 1} THEN "" ELSE "ValueError",
             \* the elements come in the order 11, 12, 21, 22
             matrix |-> e.err # "" \/ \A i \in 1..4 : Closely(e.m[i], m[i], 6),
             turn |-> e.err # "" \/ Closely(Det(e.m), e.par * 10000, 6)])
\* along the dispersion (axis 1: columns) a scale means nothing: that of the other axis counts
ScaleOk(e) ==
  IF e.disp = -1 THEN Names([err |-> e.err = "ValueError"])
  ELSE IF e.disp > 0 THEN Names([err |-> e.err = "", scale |-> e.err # "" \/ LET x == MulDiv(IF e.disp = 1 THEN e.sy ELSE e.sx, e.ratio, 100) IN Closely(e.scale, x, 4 + x \div 500)])
  ELSE Names([err |-> e.err = "", scale |-> e.err # "" \/ Closely(MulDiv(e.scale, e.scale, e.sx), MulDiv(e.sy, e.ratio * e.ratio, 10000), 4 + e.sy \div 500)])
Failed(e) == CASE e.kind = "union" -> UnionOk(e) [] e.kind = "keyword" -> KeywordOk(e) [] e.kind = "region" -> RegionOk(e) [] e.kind = "frame" -> FrameOk(e)
               [] e.kind = "motion" -> MotionTraceOk(e) [] e.kind = "slow" -> SlowOk(e) [] e.kind = "matrix" -> MatrixOk(e) [] OTHER -> ScaleOk(e)
Next == TNext(Failed)
=============================================================================
