----------------------------- MODULE TraceBase -----------------------------
(* Validation of recorded executions of the real code.                       *)
(* The trace is a file of JSON lines, one recorded step each. It is split    *)
(* into chunks of IOEnv.CHUNK consecutive steps, validated independently.    *)
(* A trace module supplies Failed(e): the set of names of the clauses of the *)
(* specification that the step e breaks (empty: the step conforms).          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace  == ndJsonDeserialize(IOEnv.TRACE)
ChunkN == atoi(IOEnv.CHUNK)
TLen   == Len(Trace)

NaN  == 2000000001
Big  == 2000000002
Frac == 2000000003

VARIABLES l, hi

TInit == /\ l \in {i \in 1..TLen : (i - 1) % ChunkN = 0}
         /\ hi = IF l + ChunkN - 1 < TLen THEN l + ChunkN - 1 ELSE TLen

TNext(Failed(_)) ==
  /\ l <= hi
  /\ LET f == Failed(Trace[l])
     IN  IF f = {} THEN TRUE ELSE PrintT(<<"FAIL", l, f>>)
  /\ l' = l + 1
  /\ UNCHANGED hi

\* the names in DOMAIN v whose value is FALSE
Names(v) == {k \in DOMAIN v : ~v[k]}
=============================================================================
