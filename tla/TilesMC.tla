------------------------------ MODULE TilesMC ------------------------------
(* Divisions of a base cell (with parts of the sky that hold nothing), next to an   *)
(* undivided one, and searches of up to three cells. Plain: the quarters of a cell    *)
(* that are not divided further.                                                      *)
EXTENDS Tiles, TLC, Json
CONSTANTS Depth, Plain, Emit
VARIABLES T, S, done
Quads == {0, 1, 2, 3}
\* the divisions of cell c
RECURSIVE Divisions(_)
Divisions(c) ==
  {{}, {c}} \cup
  (IF c[1] = Depth \/ (c[1] > 0 /\ c[2] % 4 \in Plain) THEN {}
   ELSE LET D(k) == Divisions(<<c[1] + 1, 4 * c[2] + k>>) IN {a \cup b \cup x \cup y : a \in D(0), b \in D(1), x \in D(2), y \in D(3)})
Leaves == {<<Depth, i>> : i \in 0..(2 * Pow4(Depth) - 1)}
MaxDepth(t) == CHOOSE d \in 0..Depth : (\E x \in t : x[1] = d) /\ \A x \in t : x[1] <= d
\* cells to search for are those of the deepest tiles there are
Coarse(s, d) == {<<d, c[2] \div Pow4(Depth - d)>> : c \in s}
Init == /\ T \in {d \cup e : d \in Divisions(<<0, 0>>), e \in {{}, {<<0, 1>>}}} \ {{}}
        /\ S = {} /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED T
        /\ S' \in {{<<Depth, 5>>, b} : b \in Leaves}
Spec == Init /\ [][Next]_<<T, S, done>>
\* every cell that is in a tile is in one
Once == \A c \in Leaves : \A s, t \in T : (Contains(s, c) /\ Contains(t, c)) => s = t
Valid == Disjoint(T)
Complete == done => LET d == MaxDepth(T) C == Coarse(S, d) O == Opened(T, C) IN
  \* what the circle holds lies in the cells that meet it
  /\ \A c \in S, t \in T : Contains(t, c) =>
       LET s == [cell |-> <<d, c[2] \div Pow4(Depth - d)>>, tile |-> t, in |-> TRUE] IN Found(T, C, {s}) = {s}
  /\ O \subseteq T
  /\ \A c \in C : Cardinality(Holder(T, c)) <= 1
  \* no tile is opened in vain
  /\ \A t \in O : \E c \in C : Contains(t, c)
Emitted == (Emit /\ ~done) => PrintT("@@" \o ToJson([tiles |-> T]))
=============================================================================
