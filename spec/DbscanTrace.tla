---------------------------- MODULE DbscanTrace ----------------------------
EXTENDS Dbscan, TraceRun
\* x = <<>>: never trained; kept: the last training was a predictive one
DStart(cs) == [x |-> <<>>, e2 |-> 0, m |-> 0, lab |-> <<>>, pred |-> FALSE, kept |-> FALSE]
DAfter(s, ev) ==
  CASE ev.op = "new" -> [s EXCEPT !.e2 = ev.e2, !.m = ev.m]
    [] ev.op = "predictive" -> [s EXCEPT !.pred = ev.on]
    [] ev.op \in {"train", "trained"} -> [s EXCEPT !.x = ev.x, !.lab = ev.lab, !.kept = s.pred]
    [] OTHER -> s
DBad(s, ev) ==
  CASE ev.op \in {"new", "predictive"} -> {}
    [] ev.op = "train" -> IF ev.end # "ok" THEN {"train-succeeds"} ELSE ClauseIf(IsClustering(ev.x, s.e2, s.m, ev.lab), "clusters")
    [] ev.op = "chains" -> IF ev.end # "ok" THEN {"train-succeeds"} ELSE ClauseIf(IsChains(ev.runs, ev.lab), "clusters")
    [] ev.op = "trained" -> ClauseIf(ev.end = "ok" /\ Len(ev.lab) = Len(ev.x), "train-succeeds")   \* the clusters themselves are P09
    [] ev.op = "clusters" -> ClauseIf(ev.lab = (IF s.x = <<>> THEN <<>> ELSE <<s.lab>>), "clusters-unchanged")
    [] ev.op = "predict" ->
         IF ~s.pred \/ ~s.kept THEN ClauseIf(ev.end = "err", "prediction-refused")
         ELSE IF ev.end # "ok" THEN {"prediction-succeeds"}
         ELSE ClauseIf(Len(ev.lab) = Len(ev.q) /\ \A i \in DOMAIN ev.q : IsGuess(s.x, s.e2, s.lab, ev.q[i], ev.lab[i]), "nearest-row-cluster")
=============================================================================
