------------------------------- MODULE Common -------------------------------
(* Small mathematical helpers shared by all modules of the specification. *)
EXTENDS Integers, Sequences, FiniteSets

Range(s) == {s[k] : k \in DOMAIN s}
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0

(* Stands for the infinite length: a limit or threshold that is not one, or  *)
(* the place of an object that is nowhere.  Larger than every other length.   *)
Infinite == 1073741824

RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumTo(s, k - 1)
Sum(s) == SumTo(s, Len(s))

RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN Abs(a) ELSE GCD(b, a % Abs(b))
LCM(a, b) == IF a = 0 \/ b = 0 THEN Max2(Abs(a), Abs(b)) ELSE (Abs(a) \div GCD(a, b)) * Abs(b)

IsInjective(s) == \A x, y \in DOMAIN s : s[x] = s[y] => x = y

(* Number of occurrences of a value in a sequence, and equality of sequences as bags. *)
Count(s, v) == Cardinality({k \in DOMAIN s : s[k] = v})
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A v \in Range(s) : Count(s, v) = Count(t, v)

(* The elements of a sequence that satisfy a predicate on their index, in order. *)
RECURSIVE PickTo(_, _, _)
PickTo(s, keep, k) ==
  IF k = 0 THEN <<>>
  ELSE IF k \in keep THEN Append(PickTo(s, keep, k - 1), s[k])
  ELSE PickTo(s, keep, k - 1)
Pick(s, keep) == PickTo(s, keep, Len(s))

Indices(s, keep) == Pick([k \in 1..Len(s) |-> k], keep)

(* Position of the first occurrence of a value, 0 if there is none. *)
FirstIndex(s, v) ==
  IF \E k \in DOMAIN s : s[k] = v
  THEN CHOOSE k \in DOMAIN s : s[k] = v /\ \A j \in DOMAIN s : s[j] = v => k <= j
  ELSE 0

(* x*y/z rounded down for 0 <= x*y/z and small y, without overflowing 32 bits. *)
MulDiv(x, y, z) == (x \div z) * y + ((x % z) * y) \div z

RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN 1 ELSE 10 * Pow10(k - 1)

(* floor(a * 10^k / b) for a >= 0 and b > 0, digit by digit (no overflow). *)
RECURSIVE FracDigits(_, _, _)
FracDigits(r, b, k) ==
  IF k = 0 THEN 0
  ELSE ((10 * r) \div b) * Pow10(k - 1) + FracDigits((10 * r) % b, b, k - 1)
LongDiv(a, b, k) == (a \div b) * Pow10(k) + FracDigits(a % b, b, k)

(* a/b rounded to the nearest integer, b > 0 *)
RoundDiv(a, b) == (2 * a + b) \div (2 * b)
=============================================================================
