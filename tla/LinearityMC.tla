---------------------------- MODULE LinearityMC ----------------------------
(* Every ramp of three groups of one pixel over small values, flags and       *)
(* polynomials, corrected group by group.                                     *)
EXTENDS Linearity, Json
CONSTANTS Emit
VARIABLES set, d, q, out, g
vars == <<set, d, q, out, g>>
SAT == 2
NOLIN == 1048576
NG == 3
Patterns == {<<<<1>>, <<2>>, <<3>>>>, <<<<1, 3>>, <<4>>, <<5, 7>>>>, <<<<1>>, <<2, 4>>, <<5, 6, 8, 9>>>>}
Lins == {<<0, 1>>, <<1, 2>>, <<1, 1, 1>>, <<0, 2, -1>>, <<1, 0, 1>>, <<0, 2, NoValue>>}
Invs == {<<0, 1>>, <<2, 3>>, <<0, NoValue>>, <<1, 0>>}
P == [sat |-> SAT, nolin |-> NOLIN, reads |-> set.reads, h |-> 1, u |-> 2]
C == Used(P, set.c, set.ldq)
CI == Used(P, set.ci, set.ldq)
Init == /\ set \in [reads : Patterns, c : Lins, ci : Invs, ldq : {0, NOLIN}, more : {<<0, 0>>, <<3, 1>>}, cap : {<<>>, <<6>>}]
        /\ set.ldq # 0 => (set.c = <<1, 1, 1>> /\ set.ci = <<2, 3>>)
        /\ d \in [1..NG -> {0, 1, 5}] /\ q \in [1..NG -> {0, SAT}]
        /\ out = d /\ g = 1
\* what the correction makes of a group does not depend on the groups written before it
Next == /\ g <= NG /\ g' = g + 1 /\ UNCHANGED <<set, d, q>>
        /\ out' = [out EXCEPT ![g] = Group(P, C, CI, d, q, g, set.more, set.cap)]
Spec == Init /\ [][Next]_vars

W(k) == UnitW(P, C, CI, k)
Plain == set.more = <<0, 0>> /\ set.cap = <<>>
Kept == \A k \in 1..(g - 1) : Has(q[k], SAT) => out[k] = d[k] * W(k)
\* without valid polynomials nothing changes
Unchanged == (Plain /\ C = Identity(Len(C))) => \A k \in 1..(g - 1) : out[k] = d[k] * W(k)
\* a group of one read gets the polynomial itself, as does any group if the polynomial is linear
Same == Plain => \A k \in 1..(g - 1) : (Len(set.reads[k]) = 1 \/ Len(C) = 2) /\ ~Has(q[k], SAT) => out[k] = Poly(C, d[k], 1) * W(k)
Capped == set.cap # <<>> => \A k \in 1..(g - 1) : \A i \in DOMAIN set.reads[k] :
             Measured(P, C, CI, d, q, k, set.more, set.cap)[i] <= set.cap[1] * UnitV(P, CI, k)
Flagged == Has(PixelDQ(P, 0, set.ldq, <<set.c, set.ci>>), NOLIN) <=> (set.ldq # 0 \/ Broken(set.c) \/ Broken(set.ci))
Emitted == (g > NG /\ Emit) => PrintT("@@" \o ToJson([set |-> set, d |-> d, q |-> q]))
=============================================================================
