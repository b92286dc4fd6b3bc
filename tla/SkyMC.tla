------------------------------- MODULE SkyMC -------------------------------
(* Flat images, every graph of overlaps, any two calls one after another.     *)
(* Items 1 and 2 are images, item 3 an image or a group of two images.        *)
EXTENDS Sky, Json
CONSTANTS Group, Values, Emit
VARIABLES s, start, calls, given
vars == <<s, start, calls, given>>
Ims == IF Group THEN 1..4 ELSE 1..3
Item == IF Group THEN <<<<1>>, <<2>>, <<3, 4>>>> ELSE <<<<1>>, <<2>>, <<3>>>>
Pairs == {<<a, b>> \in Ims \X Ims : a < b /\ ~(a = 3 /\ b = 4)}
P(c) == [stat |-> "mean", need |-> 1, lower |-> -1000, upper |-> 1000, method |-> c[1], down |-> c[2], subtract |-> c[3]]
Calls == {<<"local", TRUE>>, <<"global", TRUE>>, <<"match", TRUE>>, <<"match", FALSE>>, <<"both", TRUE>>, <<"both", FALSE>>}
Init == \E v \in [Ims -> Values], G \in SUBSET Pairs, X \in SUBSET Ims :
          /\ Cardinality(X) <= 1
          /\ s = [item |-> Item, v |-> [m \in Ims |-> <<v[m]>>], mask |-> [m \in Ims |-> IF m \in X THEN {} ELSE {1}],
                  ov |-> [m \in Ims |-> [b \in Ims |-> IF <<m, b>> \in G \/ <<b, m>> \in G THEN {1} ELSE {}]],
                  sky |-> [m \in Ims |-> 0], ok |-> [m \in Ims |-> FALSE]]
          /\ start = s /\ calls = <<>> /\ given = <<>>
Span == {a - b : a \in 0..Most(Values), b \in 0..Most(Values)}
\* the matches in which every connected set of items has its own reference
Matches(p, t) ==
  LET M == Measures(p, t)
      near == {TLCEval(Connected(M, I)) : I \in Matched(M)}
      ref(x, C) == (IF p.down THEN Least({x[I] : I \in C}) ELSE Most({x[I] : I \in C})) = 0
      fit == {x \in [Items(t) -> Span] : (\A I \in Items(t) : I \notin Matched(M) => x[I] = 0) /\ (\A C \in near : ref(x, C))}
  IN  {x \in fit : Agrees(M, x, 0) /\ Reference(p, M, x)}
Step(p, f, t) == s' = t /\ given' = f /\ UNCHANGED start
GlobalF(p, t) == LET g == Global(p, t) IN [I \in Items(t) |-> IF g = NoValue THEN 0 ELSE g]
Do(c) ==
  LET p == P(c) IN
  /\ Len(calls) < 2 /\ calls' = Append(calls, c)
  /\ \/ /\ p.method = "local"
        /\ LET f == [I \in Items(s) |-> Whole(p, s, I)] f0 == [I \in Items(s) |-> IF f[I] = NoValue THEN 0 ELSE f[I]]
           IN  Step(p, f0, Assigned(p, s, f0, {I \in Items(s) : f[I] # NoValue}))
     \/ /\ p.method = "global"
        /\ LET f == GlobalF(p, s) IN Step(p, f, Assigned(p, s, f, IF Global(p, s) = NoValue THEN {} ELSE Items(s)))
     \/ /\ p.method = "match"
        /\ \E x \in Matches(p, s) : Step(p, x, Assigned(p, s, x, Matched(Measures(p, s))))
     \/ /\ p.method = "both"
        /\ \E x \in Matches(p, s) :
             LET t == Assigned(p, s, x, Matched(Measures(p, s))) f == GlobalF(p, t)
                IN  Step(p, [I \in Items(s) |-> x[I] + f[I]], Assigned(p, t, f, IF Global(p, t) = NoValue THEN {} ELSE Items(t)))
Next == \E c \in Calls, u \in BOOLEAN : Do(Append(c, u))
Spec == Init /\ [][Next]_vars

Last == calls[Len(calls)]
PL == P(Last)
Some == Len(calls) > 0
\* what is left of the differences in the overlaps once sky is taken off
Left(m) == IF Last[3] THEN s.v[m][1] ELSE s.v[m][1] - s.sky[m]
Agreement == (Some /\ ~Group /\ Last[1] \in {"match", "both"}) =>
                \A a, b \in Ims : (s.ov[a][b] # {} /\ s.mask[a] # {} /\ s.mask[b] # {} /\ a # b) => Left(a) = Left(b)
\* matching what has been matched changes nothing
Again == (Len(calls) = 2 /\ calls[1][1] = "match" /\ calls[2][1] = "match" /\ calls[1][3] = calls[2][3]) => given = [I \in Items(s) |-> 0]
Kept == (Len(calls) = 1) => \A m \in Ims : s.v[m][1] + (IF Last[3] THEN s.sky[m] ELSE 0) = start.v[m][1]
Never == \A m \in Ims : Some /\ ~s.ok[m] => \A i \in DOMAIN calls : calls[i][1] \in {"global", "both"} => \A k \in Ims : s.mask[k] = {} \/ i < Len(calls)
Together == Group => s.sky[3] = s.sky[4]
Same == (Some /\ Last[1] = "global") => \A I, J \in Items(s) : given[I] = given[J]
Settled == (Some /\ Last[1] = "both" /\ Last[2] = TRUE) => \A I \in Items(s) : s.ok[s.item[I][1]]
Emitted == (Emit /\ Len(calls) = 2) => PrintT("@@" \o ToJson([v |-> start.v, mask |-> start.mask, ov |-> start.ov, calls |-> calls]))
=============================================================================
