----------------------------- MODULE TilesTrace -----------------------------
(* Recorded searches of catalogs. src: the stored sources, sep: distance from the   *)
(* center, the radius being 1000000; pm: has proper motion and parallax; n: how       *)
(* often it was found. holder: its tile; cell: its cell of the deepest tiles.          *)
EXTENDS TraceBase, Tiles
Border == 1000000
Tls(e) == {<<e.tiles[i][1], e.tiles[i][2]>> : i \in DOMAIN e.tiles}
In(e, s) == s.sep <= Border
Sure(e, s) == Abs(s.sep - Border) > e.border
Wanted(e, s) == In(e, s) /\ (~e.epoch \/ s.pm)
Failed(e) ==
  Names([valid |-> Disjoint(Tls(e)) /\ \A i \in DOMAIN e.src : <<e.src[i].holder[1], e.src[i].holder[2]>> \in Holder(Tls(e), <<e.depth, e.src[i].cell>>),
         err |-> e.err = "",
         inside |-> e.err # "" \/ \A i \in DOMAIN e.src : (Wanted(e, e.src[i]) /\ Sure(e, e.src[i])) => e.src[i].n = 1,
         outside |-> \A i \in DOMAIN e.src : ~Wanted(e, e.src[i]) => e.src[i].n = 0 \/ ~Sure(e, e.src[i]),
         once |-> \A i \in DOMAIN e.src : e.src[i].n <= 1,
         without |-> \A i \in DOMAIN e.src : (e.epoch /\ ~e.src[i].pm) => e.src[i].n = 0,
         row |-> \A i \in DOMAIN e.src : e.src[i].n > 0 => e.src[i].row,
         stays |-> e.epoch \/ \A i \in DOMAIN e.src : e.src[i].n > 0 => e.src[i].dx = 0 /\ e.src[i].dy = 0,
         east |-> ~e.epoch \/ \A i \in DOMAIN e.src : e.src[i].n > 0 => Abs(e.src[i].dx - Moved(e.src[i].dt, e.src[i].pmra, e.src[i].plx, e.src[i].ex)) <= 3,
         north |-> ~e.epoch \/ \A i \in DOMAIN e.src : e.src[i].n > 0 => Abs(e.src[i].dy - Moved(e.src[i].dt, e.src[i].pmdec, e.src[i].plx, e.src[i].ey)) <= 3,
         nothing |-> e.extra = 0])
Next == TNext(Failed)
=============================================================================
