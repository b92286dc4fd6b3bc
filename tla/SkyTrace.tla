------------------------------ MODULE SkyTrace ------------------------------
(* Recorded sky matching. e.s: the state before (masks and overlaps as        *)
(* sequences); e.out: [v, sky, ok] per image after; e.pos: image -> pixel ->   *)
(* place and e.rect: image -> its borders, in quarters of a pixel.             *)
EXTENDS TraceBase, Sky
Setify(a) == {a[i] : i \in DOMAIN a}
StateOf(e) ==
  LET n == DOMAIN e.s.v
  IN  TLCEval([item |-> e.s.item, v |-> e.s.v, sky |-> e.s.sky, ok |-> e.s.ok,
               mask |-> TLCEval([m \in n |-> Setify(e.s.mask[m])]),
               ov |-> TLCEval([m \in n |-> TLCEval([b \in n |-> Setify(e.s.ov[m][b])])])])

\* what overlaps may be: pixels well inside the other image, and none well outside
Inside(q, r, d) == q[1] >= r[1] + d /\ q[1] <= r[2] - d /\ q[2] >= r[3] + d /\ q[2] <= r[4] - d
Geometry(e, s) ==
  \A m \in DOMAIN s.v : \A b \in DOMAIN s.v : m = b \/
    \A j \in DOMAIN e.pos[m] : /\ (Inside(e.pos[m][j], e.rect[b], 5) /\ Inside(e.pos[m][j], e.rect[m], 5)) => j \in s.ov[m][b]
                               /\ j \in s.ov[m][b] => Inside(e.pos[m][j], e.rect[b], -5)

Near(a, b, d) == Abs(a - b) <= d
\* e.v: values given to a measurement of the sky with settings e.c; e.got: value (in units of 1/K) and number of pixels
Stats(e) ==
  LET r == TLCEval(Clipped(e.c, e.v)) T == r[2] n == Cardinality(T)
  IN  IF ~r[1] THEN {}
      ELSE IF T = {} THEN (IF e.err = "ValueError" THEN {} ELSE {"empty"})
      ELSE IF e.err # "" THEN {"error"}
      ELSE Names([count |-> e.got[2] = n,
                  value |-> IF e.c.stat = "mean" THEN Near(n * e.got[1], Sum(e.v, T) * e.K, 2 * n)
                            ELSE Near(2 * e.got[1], Median2(e.v, T) * e.K, 4),
                  kept |-> e.kept])
Failed(e) ==
  IF "c" \in DOMAIN e THEN Stats(e) ELSE
  IF e.err # "" THEN {"error"}
  ELSE
  LET s == StateOf(e) p == TLCEval(e.p)
      M == Measures(p, s)
      first(I) == s.item[I][1]
      \* the sky given to each item
      f == TLCEval([I \in Items(s) |-> e.out.sky[first(I)] - s.sky[first(I)]])
      on == TLCEval(Matched(M))
      match == p.method \in {"match", "both"}
      own == TLCEval([I \in Items(s) |-> Whole(p, s, I)])
      \* matching first: what it gave (the global value g is common to all)
      ref(S) == IF p.down THEN Least({f[I] : I \in S}) ELSE Most({f[I] : I \in S})
      g == IF p.method # "both" THEN 0 ELSE IF on # {} THEN ref(on) ELSE f[1]
      x == TLCEval([I \in Items(s) |-> f[I] - g])
      t == TLCEval(IF p.method = "both" THEN Assigned(p, s, x, on) ELSE s)
      low == TLCEval(Global(p, t))
      every(P(_)) == \A I \in Items(s) : \A i \in DOMAIN s.item[I] : P(s.item[I][i]) = TRUE
      valid(I) == \A i \in DOMAIN s.item[I] : e.out.ok[s.item[I][i]]
      void(I) == \A i \in DOMAIN s.item[I] : ~e.out.ok[s.item[I][i]]
      shift(m) == IF p.subtract THEN e.out.sky[m] - s.sky[m] ELSE 0
  IN  Names([
       group |-> \A I \in Items(s) : \A i \in DOMAIN s.item[I] : Near(e.out.sky[s.item[I][i]] - s.sky[s.item[I][i]], f[I], 2),
       image |-> \A m \in DOMAIN s.v : \A j \in DOMAIN s.v[m] :
                    IF s.v[m][j] = NoValue THEN e.out.v[m][j] = NoValue ELSE e.out.v[m][j] # NoValue /\ Near(e.out.v[m][j], s.v[m][j] - shift(m), 3),
       own |-> p.method = "local" => \A I \in Items(s) : IF own[I] = NoValue THEN Near(f[I], 0, 1) ELSE Near(f[I], own[I], 4),
       match |-> match => Agrees(M, x, 10),
       reference |-> p.method = "match" => IF on = {} THEN TRUE ELSE Near(ref(on), 0, 2),
       others |-> match => \A I \in Items(s) : I \notin on => Near(x[I], 0, 4),
       global |-> /\ p.method = "global" => \A I \in Items(s) : Near(f[I], IF low = NoValue THEN 0 ELSE low, 4)
                  /\ p.method = "both" => Near(g, IF low = NoValue THEN 0 ELSE low, 6),
       valid |-> \A I \in Items(s) :
                    IF p.method = "local" THEN (IF own[I] = NoValue THEN void(I) ELSE valid(I))
                    ELSE IF p.method = "match" \/ (p.method = "both" /\ low = NoValue) THEN (IF I \in on THEN valid(I) ELSE void(I))
                    ELSE (low # NoValue => valid(I)),
       keeps |-> (p.method = "global" /\ low = NoValue) => \A I \in Items(s) : IF s.ok[first(I)] THEN valid(I) ELSE void(I),
       geometry |-> Geometry(e, s)])
Next == TNext(Failed)
=============================================================================
