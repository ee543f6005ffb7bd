------------------------------ MODULE DistTrace ------------------------------
EXTENDS Dist, TraceRun
DStart(cs) == None
DAfter(d, ev) == IF ev.op = "make" THEN Made(ev.ctor, ev.p) ELSE d

DBad(d, ev) ==
  CASE ev.op = "refuse" -> ClauseIf(ev.end = "panic", "negative-refused")
    [] ev.end # "ok" -> {"terminates-normally"}
    [] ev.op = "make" -> {}
    [] ev.op = "rate" -> ClauseIf(FxFin(ev.v) /\ FxEq(ev.v, d.rate), "accessor")
    [] ev.op = "at" ->                 \* the three functions at one point
         UNION {ClauseIf(OkPdf(d, ev.x, ev.pdf), "pdf"),
                ClauseIf(OkLogPdf(d, ev.x, ev.logpdf), "logpdf"),
                ClauseIf(OkCdf(d, ev.x, ev.cdf), "cdf")}
    [] ev.op = "limit" ->              \* infinitely or overflowingly far out
         UNION {ClauseIf(FxFin(ev.pdf) /\ FxEq(ev.pdf, FxZero), "pdf"),
                ClauseIf(ev.logpdf = FxNInf \/ (FxFin(ev.logpdf) /\ FxLt(ev.logpdf, FxI(-1000000))), "logpdf"),
                ClauseIf(FxFin(ev.cdf) /\ FxEq(ev.cdf, IF ev.right THEN FxOne ELSE FxZero), "cdf")}
    [] ev.op = "sym" -> ClauseIf(FxFin(ev.lo) /\ FxFin(ev.hi) /\ OkSym(ev.lo, ev.hi), "symmetric")
    [] ev.op = "mid" -> ClauseIf(FxFin(ev.v) /\ OkMid(ev.v), "median")
    [] ev.op = "sweep" -> UNION {ClauseIf(\A i \in DOMAIN ev.ys : InUnit(ev.ys[i]), "range"),
                                 ClauseIf((\A i \in DOMAIN ev.ys : FxFin(ev.ys[i])) => NonDecreasing(ev.ys), "monotone")}
    [] ev.op = "sample" ->             \* the standard variate drawn was scripted
         ClauseIf(OkSample(d, ev.n, ev.v), "sample")
    [] ev.op = "law" ->                \* ev.m seeded draws: how many up to each cut, how many pairs
         UNION {ClauseIf(ev.nonfinite = 0, "finite"),
                ClauseIf(d.kind = "exponential" => ev.negative = 0, "non-negative"),
                ClauseIf(\A i \in DOMAIN ev.cuts : OkCount(ev.cuts[i].cnt, ev.m, Cdf(d, ev.cuts[i].x), 7), "law"),
                ClauseIf(\A i \in DOMAIN ev.cuts : OkCount(ev.cuts[i].pairs, ev.m - 1, FxSq(Cdf(d, ev.cuts[i].x)), 12), "independent")}
=============================================================================
