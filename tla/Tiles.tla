------------------------------- MODULE Tiles -------------------------------
(* A catalog of the sky kept in tiles. The sky is divided into base cells, each   *)
(* cell <<d, i>> of depth d into four of depth d + 1, <<d + 1, 4 i>> to            *)
(* <<d + 1, 4 i + 3>>. Tiles are cells of any depth, none inside another; every    *)
(* source is in the tile that contains it, with its cell of the greatest depth.   *)
(* A search looks for the cells of the deepest tiles that meet the circle, opens   *)
(* the tiles that hold them, and keeps the sources of those cells that are inside. *)
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Pow4(_)
Pow4(n) == IF n = 0 THEN 1 ELSE 4 * Pow4(n - 1)
Contains(t, c) == t[1] <= c[1] /\ c[2] \div Pow4(c[1] - t[1]) = t[2]
Disjoint(T) == \A a, b \in T : a # b => ~Contains(a, b)
\* the tile that holds a cell: the cell itself, or the one around it, and so on
RECURSIVE Holder(_, _)
Holder(T, c) == IF c \in T THEN {c} ELSE IF c[1] = 0 THEN {} ELSE Holder(T, <<c[1] - 1, c[2] \div 4>>)
Opened(T, S) == UNION {Holder(T, c) : c \in S}
\* sources: [id, tile, cell, in] (in: inside of the circle)
Found(T, S, sources) == {s \in sources : s.tile \in Opened(T, S) /\ s.cell \in S /\ s.in}

\* ---- proper motion and parallax, mas; dt in 1/1000 year; e: the Earth along the direction, 1/1000 au ----
Moved(dt, pm, plx, e) == (dt * pm - plx * e) \div 1000
=============================================================================
