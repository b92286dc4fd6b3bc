------------------------------- MODULE Bits -------------------------------
(* Data-quality words as integers, their flags as powers of two.            *)
EXTENDS Integers, Sequences, Bitwise
Without(x, y) == x - (x & y)
Has(x, b)     == (x & b) # 0
SetB(x, b)    == x | b
Min2(a, b)    == IF a < b THEN a ELSE b
Max2(a, b)    == IF a > b THEN a ELSE b
Abs(a)        == IF a < 0 THEN -a ELSE a
CeilDiv(a, b) == (a + b - 1) \div b
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE OrSeq(_)
OrSeq(s)  == IF s = <<>> THEN 0 ELSE Head(s) | OrSeq(Tail(s))
Map(s, F(_)) == [i \in DOMAIN s |-> F(s[i])]
IsAll(s, P(_)) == \A i \in DOMAIN s : P(s[i])
=============================================================================
