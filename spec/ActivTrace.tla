----------------------------- MODULE ActivTrace -----------------------------
EXTENDS Activ, TraceRun
AStart(cs) == <<>>
AAfter(s, ev) == s
ABad(s, ev) ==
  CASE ev.end # "ok" -> {"terminates-normally"}
    [] ev.op = "point" ->   \* y = func(x), g = func_grad(x), h = func_grad_from_output(y)
         UNION {ClauseIf(OkFunc(ev.f, ev.x, ev.y), "value"),
                ClauseIf(OkGrad(ev.f, ev.x, ev.g), "gradient"),
                ClauseIf(Bounded(ev.f, ev.y), "range"),
                ClauseIf(OkGrad(ev.f, ev.x, ev.h), "gradient-from-output")}
    [] ev.op = "out" -> ClauseIf(Near(ev.f, ev.h, DOut(ev.f, ev.y)), "gradient-from-output")
    [] ev.op = "inv" -> ClauseIf(OkInv(ev.f, ev.y, ev.v), "inverse")
    [] ev.op = "round" -> ClauseIf(OkRound(ev.f, ev.x, ev.v), "inverse")
    [] ev.op = "sweep" ->   \* at increasing points
         UNION {ClauseIf(\A i \in DOMAIN ev.ys : Bounded(ev.f, ev.ys[i]), "range"),
                ClauseIf((\A i \in DOMAIN ev.ys : FxFin(ev.ys[i])) => NonDecreasing(ev.ys), "monotone")}
    [] ev.op = "wild" -> UNION {ClauseIf(Bounded(ev.f, ev.y), "range"), ClauseIf(ev.g # FxNaN, "no-nan")}
=============================================================================
