---------------------------- MODULE FminCgTrace ----------------------------
(* Runs of ConjugateGD on recording objectives.                             *)
EXTENDS FminCg, TraceRun
CGStart(cs) == [iters |-> 0, max |-> 0, costs |-> <<>>]
CGAfter(s, ev) == CASE ev.op = "start" -> [iters |-> ev.iters, max |-> ev.max, costs |-> <<>>]
                    [] ev.op = "call" -> [s EXCEPT !.costs = Append(@, ev.c)]
                    [] OTHER -> s
CGBad(s, ev) ==
  CASE ev.op = "start" -> {}
    [] ev.op = "call" -> ClauseIf(Len(s.costs) < Budget(s.iters, s.max), "evaluation-budget")
    [] ev.op = "done" ->
         IF ev.end # "ok" THEN {"optimizes"}
         ELSE IF ~Finite(ev.out) \/ ~FxFin(ev.c) THEN {"finite"}
         ELSE UNION {ClauseIf(FxLe(ev.c, ev.c0), "not-above-start"),
                     ClauseIf(ev.kind # "quadratic" \/ FxLe(FxSub(ev.c, ev.least), FxAdd(FxMul(Eps(6), FxSub(ev.c0, ev.least)), FxMul(Eps(12), FxAdd(FxOne, FxAdd(FxAbs(ev.least), FxAbs(ev.c0)))))), "reaches-minimum")}
=============================================================================
