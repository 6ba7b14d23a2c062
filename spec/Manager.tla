------------------------------- MODULE Manager -------------------------------
(* The evaluation manager (property C08, with C05 to C07, C09): it filters    *)
(* the objects of a frame, pairs and evaluates them, accumulates the frames,  *)
(* and scores what it has accumulated.                                        *)
(*                                                                            *)
(* cfg: labels (target labels, in order, possibly repeated), mx, my, mp,      *)
(* uuids (see Filtering), tc and tp: center- and plane-distance thresholds,   *)
(* task.  A frame fr: res (pairs of indices of the input lists), tp, fp       *)
(* (positions in res), fn and gt (indices of ground truths), gtt (time).      *)
EXTENDS Filtering, FrameEval, Metrics, TLC

VARIABLE frames

Thr(cfg, mode) == [k \in DOMAIN cfg.labels |-> IF mode = "center" THEN cfg.tc ELSE cfg.tp]

(* -------- requirements on the frame added for given inputs, by name -------- *)

InputsOK(cfg, ests, gts, fr) ==
  /\ WellFormed(fr.res, Len(ests), Len(gts))
  /\ \A k \in DOMAIN fr.tp : fr.tp[k] \in DOMAIN fr.res
  /\ \A k \in DOMAIN fr.fp : fr.fp[k] \in DOMAIN fr.res
  /\ \A k \in DOMAIN fr.fn : fr.fn[k] \in DOMAIN gts
  /\ \A k \in DOMAIN fr.gt : fr.gt[k] \in DOMAIN gts

Admitted(cfg, ests, gts, fr) ==
  /\ fr.gt = Kept(gts, TRUE, cfg)
  /\ SameBag([k \in DOMAIN fr.res |-> fr.res[k][1]], Kept(ests, FALSE, cfg))

(* Pairing, on the admitted objects only. *)
Rank(s, v) == FirstIndex(s, v)
Local(cfg, ests, gts, fr) ==
  LET ke == Kept(ests, FALSE, cfg)  kg == Kept(gts, TRUE, cfg) IN
  TLCEval([k \in DOMAIN fr.res |->
     <<Rank(ke, fr.res[k][1]), IF fr.res[k][2] = None THEN None ELSE Rank(kg, fr.res[k][2])>>])
PairedOnce(cfg, ests, gts, fr) ==
  /\ GroundTruthOnce(fr.res)
  /\ \A k \in DOMAIN fr.res : fr.res[k][2] # None =>
        ests[fr.res[k][1]].l = gts[fr.res[k][2]].l
PairedClosest(cfg, ests, gts, fr) ==
  LET e == TLCEval(Filter(ests, FALSE, cfg))
      g == TLCEval(Filter(gts, TRUE, cfg))
  IN Stable(Local(cfg, ests, gts, fr), Table(e, g), Len(e), Len(g))

Split(cfg, ests, gts, fr) ==
  SplitOK(fr.res, fr.tp, fr.fp, ests, cfg.labels)
Verdicts(cfg, ests, gts, fr) ==
  VerdictsOK("plane", fr.res, fr.tp, fr.fp, ests, gts, cfg.labels, Thr(cfg, "plane"))
Missed(cfg, ests, gts, fr) == MissedOK(fr.res, fr.tp, fr.fn, Kept(gts, TRUE, cfg))

FrameAllowed(cfg, ests, gts, t, fr) ==
  /\ InputsOK(cfg, ests, gts, fr)
  /\ Admitted(cfg, ests, gts, fr)
  /\ PairedOnce(cfg, ests, gts, fr)
  /\ PairedClosest(cfg, ests, gts, fr)
  /\ Split(cfg, ests, gts, fr)
  /\ Verdicts(cfg, ests, gts, fr)
  /\ Missed(cfg, ests, gts, fr)
  /\ fr.gtt = t

(* -------- actions -------- *)

Entry(ests, gts, fr) == [e |-> ests, g |-> gts, fr |-> fr]

AddFrame(cfg, ests, gts, t, fr) ==
  /\ TRUE = FrameAllowed(cfg, ests, gts, t, fr)      \* a value for TLC, not an action
  /\ frames' = Append(frames, Entry(ests, gts, fr))

Query(cfg) == UNCHANGED frames

(* The list of accumulated frames is open to the caller, who may take frames  *)
(* out of it or rearrange it.                                                 *)
Keep(n) == frames' = SubSeq(frames, 1, IF n < Len(frames) THEN n ELSE Len(frames))
Turn == frames' = [k \in DOMAIN frames |-> frames[Len(frames) + 1 - k]]

(* All frames the evaluation may produce for given inputs. *)
FramesFor(cfg, ests, gts, t) ==
  LET ke == Kept(ests, FALSE, cfg)  kg == Kept(gts, TRUE, cfg)
      table == Table(Filter(ests, FALSE, cfg), Filter(gts, TRUE, cfg))
      outs == IF ke = <<>> \/ kg = <<>> THEN {Outcome({}, Len(ke))}
              ELSE {Outcome(ps, Len(ke)) : ps \in Reach({}, table)}
      global(o) == [k \in DOMAIN o |-> <<ke[o[k][1]], IF o[k][2] = None THEN None ELSE kg[o[k][2]]>>]
      build(res) ==
        LET tp == TPOf("plane", res, ests, gts, cfg.labels, Thr(cfg, "plane"))
            fp == FPOf("plane", res, ests, gts, cfg.labels, Thr(cfg, "plane"))
        IN [res |-> res, tp |-> tp, fp |-> fp, gt |-> kg, gtt |-> t,
            fn |-> Pick(kg, {k \in DOMAIN kg : kg[k] \notin DetectedGTs(res, tp)})]
  IN {build(global(o)) : o \in outs}

(* -------- scores of the accumulated frames -------- *)

(* Verdict on a result of an accumulated frame under a criterion. *)
IsHit(cfg, mode, f, k) ==
  LET v == ResultVerdict(mode, f.fr.res[k], f.e, f.g, cfg.labels, Thr(cfg, mode)) IN
  IF v = "?" THEN k \in Range(f.fr.tp) ELSE v = "tp"

RECURSIVE Pool(_, _, _, _)
Pool(cfg, mode, l, n) ==
  IF n = 0 THEN <<>>
  ELSE LET f == frames[n]
           ks == Indices(f.fr.res, {k \in DOMAIN f.fr.res : f.e[f.fr.res[k][1]].l = l})
       IN Pool(cfg, mode, l, n - 1) \o
          TLCEval([j \in DOMAIN ks |->
             LET r == f.fr.res[ks[j]]  hit == TLCEval(IsHit(cfg, mode, f, ks[j])) IN
             [c |-> f.e[r[1]].c,
              hit |-> IF hit THEN Full ELSE 0,
              head |-> IF hit THEN Full - HeadingDiff(f.e[r[1]], f.g[r[2]]) ELSE 0]])

RECURSIVE GTCount(_, _)
GTCount(l, n) ==
  IF n = 0 THEN 0
  ELSE GTCount(l, n - 1) +
       Cardinality({k \in DOMAIN frames[n].fr.gt : frames[n].g[frames[n].fr.gt[k]].l = l})

(* Results of equal confidence may be ranked in any order.  A ranking with     *)
(* heavier results earlier has the larger area (MC_Metrics!BetterFirst): the   *)
(* score lies between those of the two extreme rankings.                      *)
LabelScore(cfg, mode, l) ==
  LET pool == TLCEval(Pool(cfg, mode, l, Len(frames)))
      n == GTCount(l, Len(frames))
      low(W(_)) == TLCEval(LET r == SortSeq(pool, LAMBDA x, y : x.c > y.c \/ (x.c = y.c /\ W(x) < W(y)))
                           IN AP(TLCEval([k \in DOMAIN r |-> W(r[k])]), n))
      high(W(_)) == TLCEval(LET r == SortSeq(pool, LAMBDA x, y : x.c > y.c \/ (x.c = y.c /\ W(x) > W(y)))
                            IN AP(TLCEval([k \in DOMAIN r |-> W(r[k])]), n))
      tied == \E j, k \in DOMAIN pool : j < k /\ pool[j].c = pool[k].c
                                       /\ (pool[j].hit # pool[k].hit \/ pool[j].head # pool[k].head)
      hit(x) == x.hit
      head(x) == x.head
      ap == low(hit)  aph == low(head)
  IN [ap |-> ap, aph |-> aph,
      apMost |-> IF tied THEN high(hit) ELSE ap, aphMost |-> IF tied THEN high(head) ELSE aph,
      n |-> Len(pool), g |-> n]

Scores(cfg, mode) == TLCEval([k \in DOMAIN cfg.labels |-> LabelScore(cfg, mode, cfg.labels[k])])

(* A request for scores succeeds for detection only. *)
QueryStatus(cfg) == IF cfg.task = "Detection" THEN "ok" ELSE "err"

(* -------- special histories (property C09) -------- *)

(* The estimates of the labels L (all labels with ground truth) are copies of *)
(* the ground truths, which are all admitted and apart from each other.       *)
LabelsOf(objs) == {objs[k].l : k \in DOMAIN objs}
PerfectFrame(cfg, f, L) ==
  /\ LabelsOf(f.g) \subseteq L
  /\ Pick(f.e, {k \in DOMAIN f.e : f.e[k].l \in L}) = f.g
  /\ \A k \in DOMAIN f.g : Admissible(f.g[k], TRUE, cfg)
  /\ \A j, k \in DOMAIN f.g : f.g[j].p = f.g[k].p => j = k
Perfect(cfg) ==
  LET L == UNION {LabelsOf(frames[k].g) : k \in DOMAIN frames} IN
  /\ cfg.tc > 0 /\ cfg.tp > 0
  /\ \A k \in DOMAIN frames : PerfectFrame(cfg, frames[k], L)
Silent == \A k \in DOMAIN frames : frames[k].e = <<>>
=============================================================================
