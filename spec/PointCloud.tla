------------------------------ MODULE PointCloud ------------------------------
(* Point clouds (property C21).  A file is a sequence of bytes; a point is    *)
(* five 32-bit little-endian IEEE numbers; values are quarters.               *)
EXTENDS Integers, Sequences

RecordSize == 20
Valid(bytes) == Len(bytes) % RecordSize = 0     \* no bytes: no points

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)

(* Four times the number whose bytes start at k, if that is an integer of     *)
(* moderate size.                                                             *)
Quarters(bytes, k) ==
  LET b1 == bytes[k]  b2 == bytes[k + 1]  b3 == bytes[k + 2]  b4 == bytes[k + 3]
      e == (b4 % 128) * 2 + b3 \div 128
      m == 8388608 + (b3 % 128) * 65536 + b2 * 256 + b1
      x == IF e = 0 THEN 0
           ELSE IF e >= 148 THEN m * Pow2(e - 148) ELSE m \div Pow2(148 - e)
  IN IF b4 >= 128 THEN -x ELSE x

Points(bytes) ==
  [p \in 1..(Len(bytes) \div RecordSize) |-> [v \in 1..5 |-> Quarters(bytes, RecordSize * (p - 1) + 4 * (v - 1) + 1)]]
=============================================================================
