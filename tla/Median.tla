------------------------------ MODULE Median ------------------------------
(* The median stack: frames are appended one by one, in memory (by index) or  *)
(* to row sections on disk (in order), and evaluated once.                    *)
(* State of a stack: [n, rows, mem, frames, done]; frames is a sequence of    *)
(* frames for the disk mode and a function idx -> frame for the memory mode,  *)
(* a frame being a sequence of rows, a row a sequence of numbers.             *)
EXTENDS Bits, TLC, FiniteSets, FiniteSetsExt

NaNV == 2000000001

\* twice the median of the numbers in s, ignoring NaN
Median2(s) ==
  LET t == SortSeq(SelectSeq(s, LAMBDA x : x # NaNV), <)
      k == Len(t)
  IN  IF k = 0 THEN NaNV
      ELSE IF k % 2 = 1 THEN 2 * t[(k + 1) \div 2]
      ELSE t[k \div 2] + t[k \div 2 + 1]

SetToSeqF(f) == LET RECURSIVE g(_)
                    g(D) == IF D = {} THEN <<>> ELSE LET i == Min(D) IN <<f[i]>> \o g(D \ {i})
                IN  g(DOMAIN f)
\* the frames of a stack, as a sequence (order does not matter to the median)
Stack(s) == IF s.mem THEN SetToSeqF(s.frames) ELSE s.frames
MedianFrame2(s) ==
  LET fs == Stack(s)
  IN  [r \in 1..s.rows |-> [c \in 1..s.cols |-> Median2([k \in DOMAIN fs |-> fs[k][r][c]])]]

New(n, rows, cols, mem) ==
  [n |-> n, rows |-> rows, cols |-> cols, mem |-> mem,
   frames |-> IF mem THEN [i \in {} |-> <<>>] ELSE <<>>, done |-> FALSE]

\* outcome of an append: "" accepted, otherwise the kind of refusal
AppendOutcome(s, idx, shapeOk, typeOk) ==
  IF s.mem THEN IF idx < 0 THEN "ValueError"                   \* no index given
                ELSE IF idx >= s.n THEN "IndexError"
                ELSE IF shapeOk THEN "" ELSE "ValueError"
  ELSE IF Len(s.frames) >= s.n THEN "IndexError"
  ELSE IF ~shapeOk \/ ~typeOk THEN "ValueError" ELSE ""

Appended(s, idx, frame) ==
  IF s.mem THEN [s EXCEPT !.frames = [i \in DOMAIN s.frames \cup {idx} |->
                                         IF i = idx THEN frame ELSE s.frames[i]]]
  ELSE [s EXCEPT !.frames = Append(s.frames, frame)]

NFrames(s) == IF s.mem THEN Cardinality(DOMAIN s.frames) ELSE Len(s.frames)

---------------------------------------------------------------------------
(* Row sections of the disk mode.                                            *)
SectionRows(n, rows, rowbytes, buf) ==
  LET b == IF buf = 0 THEN rows * rowbytes ELSE buf
      k == b \div (n * rowbytes)
  IN  IF k <= 0 THEN 1 ELSE Min2(rows, k)
NSections(n, rows, rowbytes, buf) == CeilDiv(rows, SectionRows(n, rows, rowbytes, buf))
SectionOf(i, n, rows, rowbytes, buf) ==
  LET k == SectionRows(n, rows, rowbytes, buf)
  IN  (i * k)..(Min2((i + 1) * k, rows) - 1)
\* every row lies in exactly one section, and a section of n frames fits the buffer
Partition(n, rows, rowbytes, buf) ==
  /\ \A r \in 0..(rows - 1) :
       Cardinality({i \in 0..(NSections(n, rows, rowbytes, buf) - 1) :
                      r \in SectionOf(i, n, rows, rowbytes, buf)}) = 1
  /\ \A i \in 0..(NSections(n, rows, rowbytes, buf) - 1) :
       LET z == Cardinality(SectionOf(i, n, rows, rowbytes, buf))
       IN  z >= 1 /\ (z = 1 \/ z * n * rowbytes <= (IF buf = 0 THEN rows * rowbytes ELSE buf))
=============================================================================
