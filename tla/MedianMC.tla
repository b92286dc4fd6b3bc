----------------------------- MODULE MedianMC -----------------------------
(* Exhaustive exploration of stacks of small frames; every finished stack is *)
(* printed as a behaviour to be replayed on the real code.                   *)
EXTENDS Median, Json
CONSTANTS Vals, MaxN, MaxRows

VARIABLES s, hist
vars == <<s, hist>>

Frames(rows) == [1..rows -> {<<v>> : v \in Vals}]

Init == /\ \E n \in 1..MaxN, rows \in 1..MaxRows, mem \in BOOLEAN : n * rows <= 4 /\ s = New(n, rows, 1, mem)
        /\ hist = <<>>

DoAppend == \E f \in Frames(s.rows) :
  \E idx \in (IF s.mem THEN 0..(s.n - 1) \ DOMAIN s.frames ELSE {NFrames(s)}) :
   /\ ~s.done /\ AppendOutcome(s, idx, TRUE, TRUE) = ""
   /\ s' = Appended(s, idx, f)
   /\ hist' = Append(hist, [op |-> "append", idx |-> idx, data |-> f])

TooMany == /\ ~s.done /\ NFrames(s) = s.n /\ Len(hist) = s.n
           /\ AppendOutcome(s, s.n, TRUE, TRUE) = "IndexError"
           /\ UNCHANGED s
           /\ hist' = Append(hist, [op |-> "toomany", idx |-> s.n, data |-> <<>>])

Evaluate == /\ ~s.done /\ NFrames(s) >= 1 /\ (s.mem => NFrames(s) = s.n)
            /\ s' = [s EXCEPT !.done = TRUE]
            /\ hist' = hist
            /\ PrintT("@@" \o ToJson([n |-> s.n, rows |-> s.rows, mem |-> s.mem, ops |-> hist,
                                      med |-> MedianFrame2(s)]))

Next == DoAppend \/ TooMany \/ Evaluate
Spec == Init /\ [][Next]_vars

AtMostN  == NFrames(s) <= s.n
Bounded  == \A r \in 1..s.rows :
              LET m == MedianFrame2(s)[r][1]
                  vs == {Stack(s)[k][r][1] : k \in DOMAIN Stack(s)} \ {NaNV}
              IN  IF vs = {} THEN m = NaNV ELSE 2 * Min(vs) <= m /\ m <= 2 * Max(vs)
Sections == \A n \in 1..5, rows \in 1..7, buf \in 0..40 : Partition(n, rows, 2, buf)
ASSUME Sections
=============================================================================
