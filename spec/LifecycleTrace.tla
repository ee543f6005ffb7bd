--------------------------- MODULE LifecycleTrace ---------------------------
(* Lives of every kind of model, next to twins of the same configuration    *)
(* trained on what counts only (with the same random draws).                *)
EXTENDS Lifecycle, TraceRun
LStart(cs) == [continues |-> FALSE, history |-> <<>>, dead |-> FALSE]
LAfter(s, ev) ==
  CASE ev.op = "new" -> [s EXCEPT !.continues = ev.continues]
    [] ev.op = "train" -> IF ev.end = "ok" THEN [s EXCEPT !.history = Learnt(s.continues, @, ev.d)] ELSE s
    [] OTHER -> s
LBad(s, ev) ==
  CASE ev.op = "new" -> {}
    \* paired: as many targets as inputs
    [] ev.op = "train" -> IF ~ev.paired THEN ClauseIf(ev.end # "ok", "mispaired-refused")
         ELSE ClauseIf(ev.end \in {"ok", "err"}, "no-panic") \cup ClauseIf(~ev.easy \/ ev.end = "ok", "trains")
    \* twin: the trainings the twin went through; once, twice: fingerprints of the answers, again: of the twin's
    \* look: what the accessors of the fitted state show, with the same rules
    [] ev.op \in {"predict", "look"} ->
         IF ~Answers(s.continues, s.history) THEN ClauseIf(ev.end = "err" /\ ev.kind = "untrained", "untrained-refused")
         ELSE ClauseIf(ev.twin = s.history, "told") \cup ClauseIf(ev.end \in {"ok", "err"}, "no-panic")
              \cup ClauseIf(ev.once = ev.twice, "predicting-keeps-model") \cup ClauseIf(ev.end = ev.tend /\ ev.once = ev.again, "latest-training-only")
    [] OTHER -> {"unknown-event"}
=============================================================================
