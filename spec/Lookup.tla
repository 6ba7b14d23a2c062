------------------------------- MODULE Lookup -------------------------------
(* Lookup of the ground-truth frame for a time (property C10).  Times are     *)
(* microseconds relative to a whole second; they are compared at whole        *)
(* milliseconds.                                                              *)
EXTENDS Common

Limit == 75
Nothing == -1

Milli(t) == t \div 1000               \* rounds down, also below 0
Gap(t, at) == Abs(Milli(t) - Milli(at))

(* The answers allowed for the frame times ts: positions in ts, or Nothing.   *)
NearestFrames(ts, at) ==
  {k \in DOMAIN ts : \A j \in DOMAIN ts : Gap(ts[k], at) <= Gap(ts[j], at)}
Allowed(ts, at) ==
  LET close == {k \in NearestFrames(ts, at) : Gap(ts[k], at) < Limit}
  IN IF close = {} THEN {Nothing} ELSE close

(* A frame is reported as the first one equal to it.                          *)
=============================================================================
