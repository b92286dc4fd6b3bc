----------------------------- MODULE AlignTrace -----------------------------
(* Recorded alignments ("align"), rejected outliers ("outlier"), sources kept      *)
(* ("box"), reference catalogs ("refcat"), searches ("cone"), read-back pointings   *)
(* ("angles").                                                                       *)
EXTENDS TraceBase, Align
Same(e, i, d) == Close(e.before[i], e.after[i], d)
Move(e, i) == Mean(Off(e.after[i], e.before[i]))
MovedAlike(e, i, j) == LET a == Move(e, i) b == Move(e, j) IN Abs(a[1] - b[1]) <= e.alike /\ Abs(a[2] - b[2]) <= e.alike
Alike(e) == \A i, j \in DOMAIN e.imgs : e.imgs[i].grp = e.imgs[j].grp => MovedAlike(e, i, j)
Unmoved(e) == \A i \in DOMAIN e.imgs : Same(e, i, 0)
Fits(e, ref) ==
  \A i \in DOMAIN e.imgs :
    LET g == e.imgs[i].grp
        s == IF Srcs(e.imgs, g) = {} THEN "FAILED" ELSE StatusOf(e.imgs, e.before, e.p, ref, g)
    IN /\ IF s = "?" THEN e.st[i] \in {"SUCCESS", "FAILED"} ELSE e.st[i] = s
       /\ s \in {"REFERENCE", "FAILED"} => Same(e, i, 0)
       /\ s = "SUCCESS" => Close(e.after[i], e.after[Of(e.imgs, ref)], 2)
Biggest(q) == CHOOSE x \in ToSet(q) : \A y \in ToSet(q) : y <= x
RelativeOk(e) ==
  LET early == Confused(e.p) \/ TooFew(e.imgs) IN
  Names([err |-> e.err \in {"", "TweakregError"},
         refused |-> early => e.err = "TweakregError",
         untouched |-> early => Unmoved(e),
         aligned |-> early \/ \E ref \in References(e.imgs, e.p) : Fits(e, ref),
         alike |-> Alike(e),
         groups |-> e.after_grp = [i \in DOMAIN e.imgs |-> e.imgs[i].grp],
         large |-> early \/ Biggest(e.corr) <= Allowed(e.p) + 1 \/ e.err # "",
         small |-> early \/ Biggest(e.corr) >= Allowed(e.p) - 1 \/ e.err = ""])
CatalogErr(e) ==
  IF Confused(e.p) THEN "TweakregError"
  ELSE IF e.cat = "missing" THEN "ValueError"
  ELSE IF e.cat = "file" /\ Columns(e.cols) = "KeyError" THEN "KeyError"
  ELSE IF TooFewRefs(e.refs, e.p) THEN "TweakregError" ELSE ""
AbsoluteOk(e) ==
  LET first == CatalogErr(e)
      want == IF first # "" THEN first ELSE IF Nothing(e.imgs) THEN "TweakregError" ELSE ""
      s == IF want = "" THEN OnCatalog(e.imgs, e.before, e.refs, e.p) ELSE "none"
  IN Names([err |-> e.err = want,
            untouched |-> want # "" => Unmoved(e),
            groups |-> \A i \in DOMAIN e.imgs : e.after_grp[i] = IF first # "" THEN e.imgs[i].grp ELSE Together,
            status |-> (e.err = "" /\ s \in {"SUCCESS", "FAILED"}) => \A i \in DOMAIN e.imgs : e.st[i] = s,
            failed |-> s = "FAILED" => Unmoved(e),
            truth |-> s = "SUCCESS" => \A i \in DOMAIN e.imgs : ToSet(e.imgs[i].srcs) # {} => \A k \in DOMAIN e.after[i] : Abs(e.after[i][k][1]) <= 2 /\ Abs(e.after[i][k][2]) <= 2,
            rigid |-> s # "?" => \A i, j \in DOMAIN e.imgs : MovedAlike(e, i, j),
            searched |-> e.cat = "service" /\ ~Confused(e.p) => (e.searches = 1 /\ \A k \in DOMAIN e.seps : e.seps[k] <= e.sr + 220),   \* the region of the images together may be up to a pixel short (C22)
            saved |-> e.saved = (e.cat = "service" /\ e.save /\ ~Confused(e.p) /\ e.refs # <<>>)])
OutlierOk(e) ==
  LET want == IF Rejected(e.n, e.sigma, e.nclip) THEN 0 ELSE (10 * e.o) \div e.n IN
  Names([err |-> e.err = "", shift |-> e.err # "" \/ Abs(e.got - want) <= 8])
BoxOk(e) ==
  Names([err |-> e.err = "",
         kept |-> e.err # "" \/ e.kept = Keep([i \in DOMAIN e.rows |-> i], {i \in DOMAIN e.rows : e.box = <<>> \/ (~e.rows[i].nan /\ InBox(e.box, e.rows[i].x, e.rows[i].y))})])
RefcatOk(e) ==
  LET M == Moving(e.rows, e.epoch)
      out == e.out
      In == {out[k].i : k \in DOMAIN out} IN
  IF e.service # "up"
  THEN Names([err |-> e.err = (IF e.service = "slow" THEN "Timeout" ELSE IF e.service = "gone" THEN "ConnectionError" ELSE "RequestException"), file |-> ~e.saved])
  ELSE
  Names([err |-> e.err = "",
         asked |-> e.asked = e.epoch,
         from |-> In \subseteq M,
         once |-> Cardinality(In) = Len(out),
         number |-> Len(out) = (IF e.num = <<>> THEN Cardinality(M) ELSE Wanted(e.num[1], Cardinality(M))),
         row |-> \A k \in DOMAIN out : out[k].ok,
         order |-> \A k \in 1..(Len(out) - 1) : (e.rows[out[k].i].hasmag /\ e.rows[out[k + 1].i].hasmag) => e.rows[out[k].i].mag >= e.rows[out[k + 1].i].mag,
         brightest |-> (e.num # <<>> /\ e.num[1] >= 0) => \A i \in In \cap M, j \in M \ In : ~Fainter(e.rows[i], e.rows[j]) /\ (e.rows[j].hasmag => e.rows[i].hasmag),
         faintest |-> (e.num # <<>> /\ e.num[1] < 0) => \A i \in In \cap M, j \in M \ In : ~Fainter(e.rows[j], e.rows[i]),
         file |-> e.saved = (e.save /\ M # {}) /\ (e.saved => e.same)])
ConeOk(e) ==
  Names([err |-> e.err = "", covered |-> \A k \in DOMAIN e.seps : e.seps[k] <= e.sr + 2, tight |-> \E k \in DOMAIN e.seps : e.seps[k] >= e.sr - 2])
AnglesOk(e) == Names([err |-> e.err = e.want, angles |-> e.err # "" \/ \A k \in DOMAIN e.got : Abs(e.got[k] - e.given[k]) <= e.tol[k]])
Failed(e) == CASE e.kind = "relative" -> RelativeOk(e) [] e.kind = "absolute" -> AbsoluteOk(e) [] e.kind = "outlier" -> OutlierOk(e)
               [] e.kind = "box" -> BoxOk(e) [] e.kind = "refcat" -> RefcatOk(e) [] e.kind = "cone" -> ConeOk(e) [] OTHER -> AnglesOk(e)
Next == TNext(Failed)
=============================================================================
