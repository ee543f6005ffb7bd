----------------------------- MODULE ScoresTrace -----------------------------
EXTENDS Scores, TraceRun
SCStart(cs) == <<>>
SCAfter(s, ev) == s
SCBad(s, ev) ==
  CASE ev.op = "confusion" ->
         IF Len(ev.p) # Len(ev.t) \/ (ev.given # <<>> /\ ~Distinct(ev.given[1])) THEN ClauseIf(ev.end = "panic", "refused")
         ELSE IF ev.end # "ok" THEN {"succeeds"}
         ELSE LET ls == LabelsOf(ev.p, ev.t, ev.given) IN
              UNION {ClauseIf(ev.shape = <<Len(ls), Len(ls)>>, "square-over-the-labels"), ClauseIf(ev.C = Confusion(ev.p, ev.t, ls), "counts")}
    [] ev.op = "score" ->
         IF ~Legal(ev.f, ev.p, ev.t) THEN ClauseIf(ev.end = "panic", "refused")
         ELSE IF ev.end # "ok" THEN {"succeeds"}
         ELSE ClauseIf(IsScore(ev.f, ev.p, ev.t, ev.v), ev.f)
    [] ev.op = "mse" ->
         IF Len(ev.p) # Len(ev.t) THEN ClauseIf(ev.end = "panic", "refused")
         ELSE IF ev.end # "ok" THEN {"succeeds"}
         ELSE ClauseIf(FxRel(ev.v, NegMse(ev.p, ev.t), Eps(11), FxZero), "neg_mean_squared_error")
=============================================================================
