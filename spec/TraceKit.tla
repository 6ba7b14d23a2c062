------------------------------ MODULE TraceKit ------------------------------
(* Common part of the trace validators.  A trace is a sequence of calls of    *)
(* the implementation recorded by the harness: id, the input c, how the call  *)
(* ended (st: "ok", "panic", "hang") and the observation o.                   *)
(* A validator steps through the calls; for each it evaluates the named       *)
(* requirements of the specification and reports those that fail, so that     *)
(* the rest of the trace is validated all the same.                           *)
EXTENDS Common, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Report(r, failed) ==
  IF failed = {} THEN TRUE ELSE PrintT("REJECT " \o ToString(r.id) \o " " \o ToString(failed))

(* Names of the requirements that fail: reqs is a function from names to      *)
(* truth values.                                                              *)
Failing(reqs) == {n \in DOMAIN reqs : ~reqs[n]}
Finished(n) == PrintT("DONE " \o ToString(n))
=============================================================================
