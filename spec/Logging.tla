------------------------------ MODULE Logging ------------------------------
(* The process-wide log (property C23): it is written to the directory that   *)
(* was configured last, with the messages at or above the configured level.   *)
EXTENDS Integers, Sequences

Severity == [Error |-> 1, Warn |-> 2, Info |-> 3, Debug |-> 4, Trace |-> 5]

(* st.dir is the directory written to ("" for none that the case knows),      *)
(* st.level what is written, st.files the lines of each directory.            *)
Start(dirs) == [dir |-> "", level |-> 0, files |-> [d \in dirs |-> <<>>]]

(* A directory that cannot be used changes nothing. *)
Configured(st, d, lv, usable) == IF usable THEN [st EXCEPT !.dir = d, !.level = Severity[lv]] ELSE st

Written(st, lv) == st.dir # "" /\ Severity[lv] <= st.level
Emitted(st, lv, m) ==
  IF Written(st, lv) THEN [st EXCEPT !.files[st.dir] = Append(@, [lv |-> lv, m |-> m])] ELSE st

(* op: conf (dir, lv), scenario (dir; everything but traces), emit (lv, m).   *)
Done(st, op) ==
  CASE op.op = "conf" -> Configured(st, op.dir, op.lv, op.usable)
    [] op.op = "scenario" -> Configured(st, op.dir, "Debug", op.usable)
    [] op.op = "emit" -> Emitted(st, op.lv, op.m)

RECURSIVE After(_, _, _)
After(st, ops, k) == IF k > Len(ops) THEN st ELSE After(Done(st, ops[k]), ops, k + 1)
=============================================================================
