----------------------------- MODULE KnnTrace -----------------------------
(* Histories of search structures and classifiers.                         *)
EXTENDS Knn, TraceRun
KStart(cs) == [x |-> <<>>, y |-> <<>>, k |-> 0]      \* x = <<>>: not built / not trained
KAfter(s, ev) ==
  CASE ev.op = "new" -> s
    [] ev.op \in {"build", "rbuild"} -> [s EXCEPT !.x = ev.x]
    [] ev.op = "classifier" -> [s EXCEPT !.k = ev.k]
    [] ev.op = "train" -> IF ev.end = "ok" THEN [s EXCEPT !.x = ev.x, !.y = ev.y] ELSE s
    [] OTHER -> s
Answers(s, q) == s.x # <<>> /\ Len(q) = Len(s.x[1])
KBad(s, ev) ==
  CASE ev.op \in {"new", "classifier"} -> {}
    [] ev.op \in {"build", "rbuild"} -> ClauseIf(ev.end = "ok", "build-terminates")
    [] ev.op = "search" ->
         IF s.x = <<>> THEN ClauseIf(ev.end = "err", "search-before-build-is-an-error")
         ELSE IF Len(ev.q) # Len(s.x[1]) THEN ClauseIf(ev.end = "err", "wrong-width-query-is-an-error")
         ELSE IF ev.end # "ok" THEN {"search-succeeds"}
         ELSE ClauseIf(IsNearest(s.x, ev.q, ev.k, ev.idx, ev.d), "exact-neighbours")
    [] ev.op = "rsearch" -> IF ev.end # "ok" THEN {"search-succeeds"} ELSE ClauseIf(FxNearest(s.x, ev.q, ev.k, ev.idx, ev.d), "exact-neighbours")
    [] ev.op = "train" -> ClauseIf(ev.end = (IF Len(ev.x) = Len(ev.y) /\ Len(ev.x) >= s.k THEN "ok" ELSE "err"), "train-outcome")
    [] ev.op = "predict" ->
         IF s.x = <<>> THEN ClauseIf(ev.end = "err", "predict-before-train-is-an-error")
         ELSE IF \E i \in DOMAIN ev.q : ~Answers(s, ev.q[i]) THEN ClauseIf(ev.end = "err", "wrong-width-query-is-an-error")
         ELSE IF ev.end # "ok" THEN {"predict-succeeds"}
         ELSE UNION {ClauseIf(Len(ev.labels) = Len(ev.q), "one-label-per-row"),
                     ClauseIf(Len(ev.labels) = Len(ev.q) => \A i \in DOMAIN ev.q : IsClass(s.x, s.y, ev.q[i], s.k, ev.labels[i]), "majority-label")}
=============================================================================
