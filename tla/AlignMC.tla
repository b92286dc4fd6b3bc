------------------------------ MODULE AlignMC ------------------------------
(* Histories of alignments of three images.                                      *)
EXTENDS Align, TLC, Json
CONSTANTS Steps, Emit, Points
P3 == {0, 700, -2100}
P4 == {0, 700, -2100, 4600}
VARIABLES first, imgs, orig, at, n, hist, last
vars == <<first, imgs, orig, at, n, hist, last>>
Catalogs == {<<>>, <<1, 2, 3, 4, 5>>, <<1, 2, 3, 4, 5, 6, 7, 8>>, <<5, 6, 7, 8, 9, 10, 11, 12>>}
\* images 1 and 2 may be one group
Base == [sep |-> 1000, tol |-> 500, minobj |-> 5, searchrad |-> 3000, use2d |-> TRUE, xoff |-> 0, yoff |-> 0, enforce |-> FALSE, expand |-> FALSE]
Settings == {Base, [Base EXCEPT !.searchrad = 1000], [Base EXCEPT !.searchrad = 6000, !.minobj = 6], [Base EXCEPT !.sep = 700],
             [Base EXCEPT !.use2d = FALSE], [Base EXCEPT !.use2d = FALSE, !.xoff = 700], [Base EXCEPT !.use2d = FALSE, !.xoff = -4600, !.minobj = 6],
             [Base EXCEPT !.expand = TRUE, !.enforce = TRUE], [Base EXCEPT !.expand = TRUE]}
Refs == {<<1, 2, 3>>, <<1, 2, 3, 4, 5, 6, 20, 21>>, <<5, 6, 7, 8, 9, 10, 11, 12>>}
P(x) == <<<<x, 0>>>>
Init == /\ imgs \in {<<[grp |-> 1, srcs |-> a], [grp |-> 2, srcs |-> b], [grp |-> g, srcs |-> c]>> : a, b, c \in Catalogs, g \in {2, 3}}
        /\ \E x, y, z \in Points : orig = <<P(x), P(y), P(IF imgs[3].grp = 2 THEN y ELSE z)>>
        /\ (imgs[3].grp = 2 => ToSet(imgs[2].srcs) \cap ToSet(imgs[3].srcs) = {})
        /\ at = orig /\ first = (IF Emit THEN imgs ELSE <<>>) /\ n = 0 /\ hist = <<>> /\ last = [op |-> "", err |-> "", st |-> <<>>, lim |-> 0]
Far(a, i) == Max(Abs(a[i][1][1] - orig[i][1][1]), Abs(a[i][1][2] - orig[i][1][2]))
Relative(p) ==
  IF Confused(p) \/ TooFew(imgs)
  THEN /\ UNCHANGED at
       /\ last' = [op |-> "relative", err |-> "early", st |-> <<>>, lim |-> Allowed(p)]
  ELSE \E ref \in References(imgs, p) :
         LET S(g) == IF Srcs(imgs, g) = {} THEN "FAILED" ELSE StatusOf(imgs, at, p, ref, g)
             new == [i \in DOMAIN imgs |-> IF S(imgs[i].grp) = "SUCCESS" THEN at[Of(imgs, ref)] ELSE at[i]]
         IN /\ \A g \in ToSet(Usable(imgs)) : S(g) # "?"
            /\ at' = new
            /\ last' = [op |-> "relative", err |-> IF \E i \in DOMAIN imgs : Far(new, i) >= Allowed(p) THEN "late" ELSE "", st |-> [i \in DOMAIN imgs |-> S(imgs[i].grp)], lim |-> Allowed(p)]
Absolute(p, refs) ==
  /\ imgs' = IF Confused(p) \/ TooFewRefs(refs, p) THEN imgs ELSE [i \in DOMAIN imgs |-> [imgs[i] EXCEPT !.grp = Together]]
  /\ IF Confused(p) \/ TooFewRefs(refs, p) \/ Nothing(imgs)
     THEN /\ UNCHANGED at
          /\ last' = [op |-> "absolute", err |-> "early", st |-> <<>>, lim |-> Allowed(p)]
     ELSE LET s == OnCatalog(imgs, at, refs, p)
              i == CHOOSE j \in DOMAIN imgs : ToSet(imgs[j].srcs) # {}
              d == at[i][1]
          IN /\ s # "?"
             /\ at' = IF s = "SUCCESS" THEN [j \in DOMAIN imgs |-> <<<<at[j][1][1] - d[1], at[j][1][2] - d[2]>>>>] ELSE at
             /\ last' = [op |-> "absolute", err |-> "", st |-> [j \in DOMAIN imgs |-> s], lim |-> 0]
Told(r) == hist' = IF Emit THEN Append(hist, r) ELSE hist
Next == /\ n < Steps /\ n' = n + 1
        /\ UNCHANGED <<first, orig>>
        /\ \E p \in Settings :
             \/ Relative(p) /\ UNCHANGED imgs /\ Told([op |-> "relative", p |-> p, refs |-> <<>>])
             \/ \E r \in Refs : ~p.expand /\ p.xoff = 0 /\ Absolute(p, r) /\ Told([op |-> "absolute", p |-> p, refs |-> r])
Spec == Init /\ [][Next]_vars
Done(i) == last.st[i] \in {"SUCCESS", "REFERENCE"}
\* those aligned agree
Agree == (last.st # <<>> /\ last.op = "relative") => \A i, j \in DOMAIN imgs : (Done(i) /\ Done(j)) => at[i] = at[j]
Truth == (last.st # <<>> /\ last.op = "absolute" /\ last.st[1] = "SUCCESS") => \A i \in DOMAIN imgs : ToSet(imgs[i].srcs) # {} => at[i] = P(0)
\* what was accepted is small, whatever happened before
Small == (last.op = "relative" /\ last.err = "") => \A i \in DOMAIN imgs : Far(at, i) < last.lim
OneReference == (last.op = "relative" /\ last.st # <<>>) => Cardinality({imgs[i].grp : i \in {j \in DOMAIN imgs : last.st[j] = "REFERENCE"}}) = 1
Enough == (last.op = "relative" /\ last.err # "early") => ~TooFew(imgs)
\* refusals before anything was done, and failures, leave everything where it was
StaysP == (last'.err = "early" => at' = at) /\ (last'.st # <<>> => \A i \in DOMAIN imgs : last'.st[i] \in {"FAILED", "REFERENCE"} => at'[i] = at[i])
Stays == [][StaysP]_vars
TogetherP == \A i, j \in DOMAIN imgs : imgs[i].grp = imgs[j].grp => at'[i][1][1] - at[i][1][1] = at'[j][1][1] - at[j][1][1]
GroupsMove == [][TogetherP]_vars
\* images that were on one another stay so under an absolute alignment
RigidP == last'.op = "absolute" => \A i, j \in DOMAIN imgs : at'[i][1][1] - at'[j][1][1] = at[i][1][1] - at[j][1][1]
Rigid == [][RigidP]_vars
Emitted == (Emit /\ n = Steps) => PrintT("@@" \o ToJson([imgs |-> first, orig |-> orig, ops |-> hist]))
=============================================================================
