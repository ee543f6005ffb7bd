---------------------------- MODULE CrossValTrace ----------------------------
(* Calls seen by a recording model and score function.  Rows and targets    *)
(* are identified by number, 0: not a row of the data.                      *)
EXTENDS CrossVal, TraceRun
CVStart(cs) == [n |-> 0, nt |-> 0, k |-> 0, failed |-> FALSE, rows |-> <<>>, preds |-> <<>>, scores |-> <<>>]
CVAfter(s, ev) ==
  CASE ev.op = "begin" -> [CVStart(0) EXCEPT !.n = ev.n, !.nt = ev.nt, !.k = ev.k]
    [] ev.op = "train" -> [s EXCEPT !.rows = ev.x, !.failed = @ \/ ev.fails]
    [] ev.op = "predict" -> [s EXCEPT !.preds = Append(@, ev.x), !.failed = @ \/ ev.fails]
    [] ev.op = "score" -> [s EXCEPT !.scores = Append(@, ev.call)]
    [] OTHER -> s
Valid(n, r) == NoDup(r) /\ Ran(r) \subseteq 1..n
CVBad(s, ev) ==
  CASE ev.op = "begin" -> {}
    [] ev.op = "train" -> UNION {ClauseIf(~s.failed, "error-ends-it"), ClauseIf(ev.x = ev.y, "rows-paired"), ClauseIf(Valid(s.n, ev.x), "training-rows")}
    \* the fold is tested by the model trained on all other rows
    [] ev.op = "predict" -> UNION {ClauseIf(~s.failed, "error-ends-it"), ClauseIf(Valid(s.n, ev.x), "test-rows"),
                                   ClauseIf(Ran(ev.x) \intersect Ran(s.rows) = {}, "test-rows-unseen"),
                                   ClauseIf(Ran(ev.x) \union Ran(s.rows) = 1..s.n, "trained-on-the-rest")}
    \* the predictions of one call, each beside its own target
    [] ev.op = "score" -> UNION {ClauseIf(ev.call \in DOMAIN s.preds, "score-of-predictions"),
                                 ClauseIf(ev.call \in DOMAIN s.preds => ev.x = s.preds[ev.call] /\ ev.y = ev.x, "scored-against-own-targets")}
    [] ev.op = "end" ->
         IF ~(MayRun(s.n, s.k) /\ s.n = s.nt) THEN ClauseIf(ev.end # "ok", "refused")
         ELSE IF s.failed THEN ClauseIf(ev.end = "err", "error-returned")
         ELSE IF ev.end # "ok" THEN {"succeeds"}
         ELSE UNION {ClauseIf(Folds(s.n, s.k, s.preds), "folds"), ClauseIf(SameBag(ev.scores, s.scores) /\ Ran(ev.scores) = 1..s.k /\ Len(ev.scores) = s.k, "one-score-per-fold")}
    [] ev.op = "law" ->  \* folds over all random choices
         IF ev.end # "ok" THEN {"succeeds"}
         ELSE IF ~ \A i \in DOMAIN ev.hist : Folds(ev.n, ev.k, ev.hist[i][1]) THEN {"folds"}
         ELSE ClauseIf(UniformFolds(ev.n, ev.k, ev.exact, ev.den, ev.hist), "uniform-folds")
    [] ev.op = "together" -> \* how often (of m) rows a, b fell into one fold, n rows in k equal folds
         IF ev.end # "ok" THEN {"succeeds"}
         ELSE ClauseIf(\A i \in DOMAIN ev.counts : Near(ev.counts[i], (ev.m * (ev.n \div ev.k - 1)) \div (ev.n - 1)), "uniform-folds")
    [] ev.op = "spread" -> \* how often, over all p and m runs, rows p and p + d fell into one fold
         IF ev.end # "ok" THEN {"succeeds"}
         ELSE ClauseIf(\A i \in DOMAIN ev.gaps : LET d == ev.gaps[i][1] e == FxMul(FxI(ev.m * (ev.n - d)), SameFold(ev.n, ev.k)) IN Within(ev.gaps[i][2], e, FxMul(FxI(2), e)), "uniform-folds")
=============================================================================
