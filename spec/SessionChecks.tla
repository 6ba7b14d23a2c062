--------------------------- MODULE SessionChecks ---------------------------
(* Requirements on the recorded steps of a manager, by name.                  *)
(* A query is recorded with what it printed: fine (scores with all digits if  *)
(* available, else those of the report; eps is their resolution) and the      *)
(* sections of the report.                                                    *)
EXTENDS TraceKit, Manager

FrameBad(cfg, op, fr) ==
  LET e == op.e  g == op.g IN
  IF ~InputsOK(cfg, e, g, fr) THEN {"C08.frame", "C01.copies"}
  ELSE LET adm == Admitted(cfg, e, g, fr)
           one == PairedOnce(cfg, e, g, fr)
           bad == Failing(
             "C05.admitted" :> adm
             @@ "C08.computedFromFiltered" :> adm
             @@ "C01.pairedOnce" :> one
             @@ "C02.closestFirst" :> (adm => PairedClosest(cfg, e, g, fr))
             @@ "C03.split" :> Split(cfg, e, g, fr)
             @@ "C03.verdicts" :> Verdicts(cfg, e, g, fr)
             @@ "C04.missed" :> ((adm /\ one) => Missed(cfg, e, g, fr))
             @@ "C08.time" :> (fr.gtt = op.t))
       IN IF bad = {} THEN {} ELSE bad

(* What the frame just added says about perfect and silent frames. *)
SpecialBad(cfg, f) ==
  (IF PerfectFrame(cfg, f, LabelsOf(f.g)) /\ cfg.tp > 0
   THEN Failing("C09.allDetected" :> (\A k \in DOMAIN f.fr.res : k \in Range(f.fr.tp) <=> f.e[f.fr.res[k][1]].l \in LabelsOf(f.g))
                @@ "C09.noneMissed" :> (f.fr.fn = <<>>))
   ELSE {})
  \cup
  (IF f.e = <<>>
   THEN Failing("C09.allMissed" :> SameBag(f.fr.fn, Kept(f.g, TRUE, cfg)) @@ "C09.noResult" :> (f.fr.tp = <<>>))
   ELSE {})
  \cup
  Failing("C09.noTruthNoHit" :> (\A k \in Range(f.fr.tp) :
             LET r == f.fr.res[k] IN r[2] # None /\ f.e[r[1]].l = f.g[r[2]].l))

AddFails(cfg, op, s) ==
  IF s.st # "ok" THEN {"C08.addSucceeds", "completes"}
  ELSE LET structural == Failing("C08.appends" :> (s.len = Len(frames) + 1) @@ "C08.earlierKept" :> s.same)
       IN IF s.len = 0 THEN structural
          ELSE structural \cup FrameBad(cfg, op, s.fr)
               \cup (IF InputsOK(cfg, op.e, op.g, s.fr)
                     THEN SpecialBad(cfg, Entry(op.e, op.g, s.fr)) ELSE {})

(* ---- scores ---- *)
Modes == {"center", "plane"}
FineOf(s, mode) == {x \in Range(s.fine) : x.mode = mode}
SectionOf(s, mode) == {x \in Range(s.sections) : x.mode = mode}

Least(x, what) == IF what = "ap" THEN x.ap ELSE x.aph
Most(x, what) == IF what = "ap" THEN x.apMost ELSE x.aphMost

Agrees(got, want, what, eps) ==
  /\ Len(got) = Len(want)
  /\ \A k \in DOMAIN want :
       Between(got[k], Least(want[k], what), Most(want[k], what), want[k].n + 2 + eps)

MeanOf(v) ==
  IF v = <<>> \/ \E k \in DOMAIN v : v[k] = NotANumber THEN NotANumber
  ELSE LongDiv(Sum([k \in DOMAIN v |-> v[k] \div 10]), Len(v), 1)

MeanAgrees(got, want, what) ==
  Between(got, MeanOf([k \in DOMAIN want |-> Least(want[k], what)]), MeanOf([k \in DOMAIN want |-> Most(want[k], what)]),
          5030 + 2 * Len(want))

(* Which histories pool several frames or labels *)
Pooled(cfg) == Len(frames) # 1 \/ ~IsInjective(cfg.labels)

ScoreFails(cfg, s, want) ==
  LET all(what) == \A m \in Modes : \E x \in FineOf(s, m) :
                     Agrees(IF what = "ap" THEN x.ap ELSE x.aph, want[m], what, s.eps)
      ap == all("ap")  aph == all("aph")
      ones == \A m \in Modes : \E x \in FineOf(s, m) :
                /\ Len(x.ap) = Len(want[m]) /\ Len(x.aph) = Len(want[m])
                /\ \A k \in DOMAIN want[m] : want[m][k].g > 0 =>
                     /\ CloseTo(x.ap[k], One, want[m][k].n + 2 + s.eps)
                     /\ CloseTo(x.aph[k], One, want[m][k].n + 2 + s.eps)
      zeros == \A m \in Modes : \E x \in FineOf(s, m) :
                /\ Len(x.ap) = Len(want[m]) /\ Len(x.aph) = Len(want[m])
                /\ \A k \in DOMAIN want[m] : want[m][k].g > 0 =>
                     CloseTo(x.ap[k], 0, s.eps) /\ CloseTo(x.aph[k], 0, s.eps)
  IN Failing("C06.ap" :> ap
             @@ "C07.aph" :> aph
             @@ "C08.pool" :> (~Pooled(cfg) \/ (ap /\ aph))
             @@ "C09.perfectIsOne" :> ((frames # <<>> /\ Perfect(cfg)) => ones)
             @@ "C09.silentIsZero" :> (Silent => zeros))

(* The report; shown(x, t): x thousandths of a metre show the length t. *)
ReportFails(cfg, s, want, shown(_, _)) ==
  LET one(m) == Cardinality({k \in DOMAIN s.sections : s.sections[k].mode = m}) = 1
      each(P(_, _)) == \A m \in Modes : \E x \in SectionOf(s, m) : P(m, x)
      labels(m, x) == x.labels = cfg.labels
      thr(m, x) == Len(x.thr) = Len(cfg.labels)
                   /\ \A k \in DOMAIN x.thr : shown(x.thr[k], IF m = "center" THEN cfg.tc ELSE cfg.tp)
      rows(m, x) == Len(x.ap) = Len(cfg.labels) /\ Len(x.aph) = Len(cfg.labels) /\ x.dec3
      vals(m, x) == Agrees(x.ap, want[m], "ap", 5001) /\ Agrees(x.aph, want[m], "aph", 5001)
      means(m, x) == /\ MeanAgrees(x.map, want[m], "ap")
                     /\ MeanAgrees(x.maph, want[m], "aph")
  IN IF ~(Len(s.sections) = 2 /\ \A m \in Modes : one(m)) THEN {"C22.sections"}
     ELSE Failing("C22.labels" :> each(labels) @@ "C22.thresholds" :> each(thr) @@ "C22.rows" :> each(rows)
                  @@ "C22.values" :> each(vals) @@ "C22.means" :> each(means))

QueryFails(cfg, s, shown(_, _)) ==
  IF s.st = "panic" THEN {"C08.querySucceeds", "completes"}
  ELSE IF s.st # QueryStatus(cfg) THEN {"C08.status"}
  ELSE Failing("C08.queryKeeps" :> (s.same /\ s.len = Len(frames)))
       \cup IF s.st # "ok" THEN {}
            ELSE LET want == TLCEval([m \in Modes |-> Scores(cfg, m)])
                 IN ScoreFails(cfg, s, want) \cup ReportFails(cfg, s, want, shown)
=============================================================================
