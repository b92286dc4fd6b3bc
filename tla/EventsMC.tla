------------------------------ MODULE EventsMC ------------------------------
(* Snowballs on a small detector, group by group: one cluster of jumps, one   *)
(* saturated core that appears in some group and stays, a second integration. *)
EXTENDS Events, Json
CONSTANTS Wide, Emit
VARIABLES jk, jp, jg, sk, sp, sg, set, g, q, persist, snow
vars == <<jk, jp, jg, sk, sp, sg, set, g, q, persist, snow>>
F == [dnu |-> 1, sat |-> 2, jump |-> 4]
NG == 4
Shape == [none |-> {}, one |-> {<<0, 0>>},
          two |-> {0, 1} \X {0, 1},
          plus |-> {<<0, 0>>, <<0, 1>>, <<1, 0>>, <<0, -1>>, <<-1, 0>>},
          block |-> (-1..1) \X (-1..1),
          hollow |-> ((-1..1) \X (-1..1)) \ {<<0, 0>>},
          bar |-> {-1, 0} \X (-2..2),
          pole |-> (-2..2) \X {0, 1},
          slope |-> {<<-2, -1>>, <<-2, -2>>, <<-1, -1>>, <<-1, 0>>, <<0, 0>>, <<0, 1>>, <<1, 1>>, <<1, 2>>, <<-1, -2>>, <<0, -1>>, <<1, 0>>}]
Sets == [nc : {7, 9}, satRequired : BOOLEAN]
NR == 8
Param(s) == s @@ [nr |-> NR, edge |-> 2, persist |-> TRUE, F |-> F, minJump |-> 5, minSat |-> 1, expand |-> 20, minSatR |-> 9, satExpand |-> 2, maxWidth |-> 200, persistN |-> 3]
Img == (1..NR) \X (1..set.nc)
At(k, z) == {<<x[1] + z[1], x[2] + z[2]>> : x \in Shape[k]} \cap Img
q0 == LET s == At(sk, sp) j == At(jk, jp)
      IN  [k \in 1..NG |-> [x \in Img |-> (IF k >= sg /\ x \in s THEN 2 ELSE IF k = jg /\ x \in j THEN 4 ELSE 0)
                                          + (IF k = NG THEN 1 ELSE 0) + (IF x = <<4, 5>> THEN 16 ELSE 0)]]
Init == /\ set \in Sets
        /\ jk \in {"plus", "block", "hollow", "bar", "pole", "slope"} /\ sk \in {"none", "one", "two", "block"}
        /\ jp \in (IF Wide THEN (3..6) \X (3..6) ELSE {<<4, 4>>, <<5, 6>>, <<2, 4>>})
        /\ sp \in (IF sk = "none" THEN {<<5, 5>>} ELSE IF Wide THEN {<<4, 4>>, <<5, 5>>, <<5, 3>>, <<4, 6>>} ELSE {<<4, 4>>, <<4, 6>>, <<6, 4>>})
        /\ jg \in 2..(NG - 1) /\ sg \in (IF sk = "none" THEN {1} ELSE (jg - 1)..(jg + 1))
        /\ g = 2 /\ persist = {} /\ snow = 0
        /\ q = q0
Step == /\ g <= NG
        /\ LET pp == TLCEval(Param(set)) r == TLCEval(Group(pp, [q |-> q, persist |-> persist, unsure |-> {}, unsurek |-> {}, n |-> snow, amb |-> FALSE], g))
           IN  q' = r.q /\ persist' = r.persist /\ snow' = r.n
        /\ g' = g + 1 /\ UNCHANGED <<jk, jp, jg, sk, sp, sg, set>>
Next == Step
Spec == Init /\ [][Next]_vars

Done == g > NG
OnlyAdds == LET was == TLCEval(q0) IN \A k \in 1..NG : \A x \in Img :
  /\ Without(q[k][x], 6) = Without(was[k][x], 6)
  /\ Has(was[k][x], 2) => Has(q[k][x], 2)
  /\ Has(was[k][x], 4) => (Has(q[k][x], 4) \/ Has(q[k][x], 2))
\* new flags appear only in the group of the jumps, saturation from the group of the core on
Where == LET was == TLCEval(q0) near(s, d) == UNION {{<<y[1] + a, y[2] + b>> : a \in -d..d, b \in -d..d} : y \in s}
             jn == TLCEval(near(At(jk, jp), 5)) sn == TLCEval(near(At(sk, sp), 2)) IN \A k \in 1..NG : \A x \in Img :
  /\ (Has(q[k][x], 4) /\ ~Has(was[k][x], 4)) => k = jg /\ snow > 0 /\ x \in jn
  /\ (Has(q[k][x], 2) /\ ~Has(was[k][x], 2)) => sk \in {"two", "block"} /\ set.satRequired /\ sg > 1 /\ k >= sg
        /\ x \in sn
\* saturation is never cleared later
Stays == \A k \in 1..(NG - 1) : \A x \in Img : Has(q[k][x], 2) => Has(q[k + 1][x], 2)
Core == persist \subseteq {x \in Img : Has(q[NG][x], 2)}
\* away from the edge a snowball needs a core
Needs == (Done /\ set.satRequired /\ snow > 0) =>
            \/ \E e \in {EllipseOf(At(jk, jp) \ (IF jg >= sg THEN At(sk, sp) ELSE {}))} : AtEdge(Param(set), e)
            \/ sk # "none" /\ sg \in {jg, jg + 1}
            \/ sk # "none" /\ \E k \in Clusters(At(jk, jp) \ At(sk, sp)) : AtEdge(Param(set), EllipseOf(k))
Emitted == (Done /\ Emit) => PrintT("@@" \o ToJson([jk |-> jk, jp |-> jp, jg |-> jg, sk |-> sk, sp |-> sp, sg |-> sg, set |-> set]))
=============================================================================
