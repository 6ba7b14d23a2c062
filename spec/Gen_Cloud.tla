------------------------------ MODULE Gen_Cloud ------------------------------
(* Files of every length up to N: the first bytes of a file of whole points.  *)
EXTENDS Integers, Sequences, Json, IOUtils, SequencesExt
CONSTANT N
\* bytes of small numbers: 0.25 * (4 k + 1) and so on, written with e in 127..133
ByteAt(k) == CASE k % 4 = 0 -> 0 [] k % 4 = 1 -> 0 [] k % 4 = 2 -> 64 * ((k \div 4) % 3) [] OTHER -> IF (k \div 4) % 2 = 0 THEN 64 ELSE 193
Cases == {[bytes |-> [k \in 1..n |-> ByteAt(k - 1)]] : n \in 1..N}
VARIABLE done
Init == done = ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
Spec == Init /\ [][UNCHANGED done]_done
=============================================================================
