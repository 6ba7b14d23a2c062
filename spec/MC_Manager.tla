----------------------------- MODULE MC_Manager -----------------------------
(* Design check of the manager: every history of at most MaxFrames frames     *)
(* over small lists of estimates and ground truths, every outcome the greedy  *)
(* pairing allows, and score requests at any point.                           *)
EXTENDS Manager

CONSTANTS MaxFrames, TaskKinds, LabelLists, EstLists, GTLists

VARIABLES cfg, asked     \* asked: the last scores requested and for how many frames
vars == <<cfg, frames, asked>>

Obj(l, x, h, c) ==
  [l |-> l, p |-> <<x, 8, 0>>, q |-> <<1, 0, 0, 0>>, h |-> h, s |-> <<2, 4, 2>>, c |-> c, n |-> 5,
   id |-> "", t |-> 0, f |-> "BaseLink", v |-> <<>>]
EstListsDef ==
  { <<>>, <<Obj("Car", 0, 0, 900)>>, <<Obj("Car", 1, 12, 700), Obj("Car", 4, 0, 800)>>,
    <<Obj("Bus", 0, 0, 600), Obj("Car", 9, 0, 500)>>, <<Obj("Car", 40, 0, 400)>> }
GTListsDef ==
  { <<>>, <<Obj("Car", 0, 0, 900)>>, <<Obj("Car", 1, 0, 700), Obj("Car", 4, 24, 800)>>,
    <<Obj("Car", 3, 0, 1), Obj("Bus", 0, 6, 1), Obj("Car", 9, 42, 1)>> }
TaskKindsDef == {"Detection", "Tracking"}
LabelListsDef == {<<"Car">>, <<"Car", "Bus", "Car">>}

Cfg(ls, k) == [labels |-> ls, mx |-> 30, my |-> 30, mp |-> 1, uuids |-> [on |-> FALSE, ids |-> <<>>],
               tc |-> 3, tp |-> 5, task |-> k]

NotAsked == [n |-> -1, sc |-> <<>>]
Init == /\ cfg \in {Cfg(ls, k) : ls \in LabelLists, k \in TaskKinds}
        /\ frames = <<>>
        /\ asked = NotAsked

Add == /\ Len(frames) < MaxFrames
       /\ \E e \in EstLists, g \in GTLists : \E fr \in FramesFor(cfg, e, g, 0) : AddFrame(cfg, e, g, 0, fr)
       /\ UNCHANGED <<cfg, asked>>
AllScores == [m \in {"center", "plane"} |-> Scores(cfg, m)]
Ask == /\ QueryStatus(cfg) = "ok"
       /\ Query(cfg)
       /\ asked' = [n |-> Len(frames), sc |-> AllScores]
       /\ UNCHANGED cfg
Rearrange == /\ \/ \E n \in 0..Len(frames) : Keep(n)
                \/ Turn
             /\ asked' = NotAsked
             /\ UNCHANGED cfg
Next == Add \/ Ask \/ Rearrange
Spec == Init /\ [][Next]_vars

(* The evaluation never gets stuck: for all inputs it produces an allowed frame. *)
AlwaysEvaluates ==
  Len(frames) < MaxFrames =>
    \A e \in EstLists, g \in GTLists :
      LET fs == FramesFor(cfg, e, g, 0) IN fs # {} /\ \A fr \in fs : FrameAllowed(cfg, e, g, 0, fr)

(* TP + FN is the number of ground truths, TP + FP that of targeted results. *)
Balance ==
  \A k \in DOMAIN frames :
    LET f == frames[k].fr IN /\ Len(f.tp) + Len(f.fn) = Len(f.gt)
                             /\ Len(f.tp) + Len(f.fp) = Len(f.res)

InRange ==
  \A m \in {"center", "plane"} : LET s == Scores(cfg, m) IN
    \A k \in DOMAIN s : LET e == s[k].n + 2 IN
      /\ s[k].ap = NotANumber \/ s[k].ap \in 0..One + e
      /\ s[k].aph = NotANumber \/ s[k].aph \in 0..s[k].ap + e

PerfectIsOne ==
  (frames # <<>> /\ Perfect(cfg)) => \A m \in {"center", "plane"} : LET s == Scores(cfg, m) IN
    \A k \in DOMAIN s : s[k].g > 0 => /\ s[k].ap >= One - s[k].n - 2
                                      /\ s[k].aph >= One - s[k].n - 2
SilentIsZero ==
  Silent => \A m \in {"center", "plane"} : LET s == Scores(cfg, m) IN
    \A k \in DOMAIN s : s[k].ap = (IF s[k].g > 0 THEN 0 ELSE NotANumber)

(* Frames added in the opposite order give the same scores. *)
OrderFree ==
  LET rev == [k \in DOMAIN frames |-> frames[Len(frames) + 1 - k]]
      R(fs) == INSTANCE Manager WITH frames <- fs
  IN \A m \in {"center", "plane"} : R(rev)!Scores(cfg, m) = Scores(cfg, m)

(* Asking again without adding anything gives the same answer. *)
Repeatable == asked.n = Len(frames) => asked.sc = AllScores

AppendOnly == [][\/ /\ Len(frames') >= Len(frames)
                    /\ SubSeq(frames', 1, Len(frames)) = frames
                    /\ Len(frames') <= Len(frames) + 1
                 \/ Rearrange]_vars
=============================================================================
