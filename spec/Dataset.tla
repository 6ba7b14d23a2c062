------------------------------- MODULE Dataset -------------------------------
(* The tables of a dataset, when they are consistent (C15), what iterating    *)
(* and following links must yield (C17).                                      *)
(*                                                                            *)
(* d.tables maps a table name to the sequence of its records; references are  *)
(* numbers, 0 is "none"; a number that no record of the table has dangles.    *)
(* d.files maps a table name to the state of its file.                        *)
EXTENDS Integers, Sequences, FiniteSets

RangeOf(s) == {s[k] : k \in DOMAIN s}
Recs(d, table) == RangeOf(d.tables[table])
Toks(d, table) == {r.t : r \in Recs(d, table)}
Rec(d, table, t) == CHOOSE r \in Recs(d, table) : r.t = t

FilesOK(d) == \A f \in DOMAIN d.files : d.files[f] = "ok"

(* ---------------- references ---------------- *)

In(d, t, table) == t \in Toks(d, table)
OrNone(d, t, table) == t = 0 \/ t \in Toks(d, table)

RefsResolve(d) ==
  /\ \A r \in Recs(d, "cs") : In(d, r.sensor, "sensor")
  /\ \A r \in Recs(d, "instance") : In(d, r.cat, "category") /\ In(d, r.first, "ann") /\ In(d, r.last, "ann")
  /\ \A r \in Recs(d, "scene") : In(d, r.log, "log") /\ In(d, r.first, "sample") /\ In(d, r.last, "sample")
  /\ \A r \in Recs(d, "sample") : In(d, r.scene, "scene") /\ OrNone(d, r.prev, "sample") /\ OrNone(d, r.next, "sample")
  /\ \A r \in Recs(d, "ann") :
       /\ In(d, r.sample, "sample") /\ In(d, r.inst, "instance") /\ OrNone(d, r.vis, "visibility")
       /\ OrNone(d, r.prev, "ann") /\ OrNone(d, r.next, "ann")
       /\ \A k \in DOMAIN r.attrs : In(d, r.attrs[k], "attribute")
  /\ \A r \in Recs(d, "sd") :
       /\ In(d, r.sample, "sample") /\ In(d, r.ego, "ego") /\ In(d, r.cs, "cs")
       /\ OrNone(d, r.prev, "sd") /\ OrNone(d, r.next, "sd")
  \* references of maps to logs may dangle

(* ---------------- chains ---------------- *)

(* The k-th record reached from first; 0 when the links end or dangle before. *)
RECURSIVE StepOn(_, _, _)
StepOn(next, first, k) ==
  IF k = 1 THEN (IF first \in DOMAIN next THEN first ELSE 0)
  ELSE LET p == StepOn(next, first, k - 1) IN
       IF p = 0 THEN 0 ELSE IF next[p] \in DOMAIN next THEN next[p] ELSE 0

(* next and prev are functions on the tokens of the table.                    *)
ChainOK(next, prev, first, last, n) ==
  /\ n >= 1
  /\ \A k \in 1..n : StepOn(next, first, k) # 0
  /\ prev[first] = 0
  /\ \A k \in 2..n : prev[StepOn(next, first, k)] = StepOn(next, first, k - 1)
  /\ StepOn(next, first, n) = last
  /\ next[last] = 0

Chain(next, first, n) == [k \in 1..n |-> StepOn(next, first, k)]

Links(d, table, field) == [t \in Toks(d, table) |-> Rec(d, table, t)[field]]

ChainsOK(d, owner, member) ==
  LET next == Links(d, member, "next")
      prev == Links(d, member, "prev")
  IN \A o \in Recs(d, owner) :
       o.first \in Toks(d, member) /\ o.last \in Toks(d, member) /\ ChainOK(next, prev, o.first, o.last, o.n)

(* The members of each chain are those that name its owner.                   *)
Owned(d, owner, member, field) ==
  LET next == Links(d, member, "next") IN
  \A o \in Recs(d, owner) :
    RangeOf(Chain(next, o.first, o.n)) = {r.t : r \in {x \in Recs(d, member) : x[field] = o.t}}

(* Whether loading must succeed: "?" when the chains are right but leave out  *)
(* records that name their owner, or borrow those of another owner.           *)
Loads(d) ==
  IF ~(FilesOK(d) /\ RefsResolve(d) /\ ChainsOK(d, "instance", "ann") /\ ChainsOK(d, "scene", "sample")) THEN "no"
  ELSE IF Owned(d, "instance", "ann", "inst") /\ Owned(d, "scene", "sample", "scene") THEN "yes"
  ELSE "?"

(* ---------------- iteration and links of a consistent dataset -------------- *)

AnnsOf(d, s) == {r.t : r \in {x \in Recs(d, "ann") : x.sample = s}}
SdsOf(d, s) == {r.t : r \in {x \in Recs(d, "sd") : x.sample = s}}
SamplesOf(d, scene) == {r \in Recs(d, "sample") : r.scene = scene}

TimeOf(d, table, t) ==
  CASE table \in {"sample", "sd", "ego"} -> Rec(d, table, t).ts
    [] table = "scene" -> LET ts == {r.ts : r \in SamplesOf(d, t)} IN CHOOSE x \in ts : \A y \in ts : x <= y
Timed == {"sample", "sd", "ego", "scene"}

(* s lists each member of S exactly once. *)
Lists(s, S) == Len(s) = Cardinality(S) /\ RangeOf(s) = S
InTimeOrder(d, table, s) == \A k \in 1..(Len(s) - 1) : TimeOf(d, table, s[k]) <= TimeOf(d, table, s[k + 1])

SensorOf(d, sd) == Rec(d, "cs", Rec(d, "sd", sd).cs).sensor
=============================================================================
