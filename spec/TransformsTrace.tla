--------------------------- MODULE TransformsTrace ---------------------------
(* Histories of one fitted transformer.  fit = <<>>: there is none.          *)
EXTENDS Transforms, TraceRun
TFStart(cs) == [kind |-> "", lo |-> FxZero, w |-> FxOne, tol |-> FxZero, has |-> FALSE, fit |-> <<>>]
Tol(ev) == IF ev.single THEN Eps(5) ELSE Eps(12)
Unit(ev) == IF ev.single THEN FxQ(1, 1048576) ELSE FxDiv(FxQ(1, 1073741824), FxI(262144))
TFAfter(s, ev) ==
  CASE ev.op = "fit" -> IF ev.end = "ok" /\ ~Refused(ev.kind, ev.x, ev.cols)
                        THEN [kind |-> ev.kind, lo |-> ev.lo, w |-> IF ev.kind = "minmax" THEN FxSub(ev.hi, ev.lo) ELSE ev.hi,
                              tol |-> Tol(ev), has |-> TRUE, fit |-> FitCols(ev.kind, ev.x, ev.cols, Unit(ev))]
                        ELSE TFStart(0)
    [] OTHER -> s
\* the fitted data themselves come out with the requested statistics
FirstUse(s, ev) ==
  IF s.kind = "minmax"
  THEN \A j \in DOMAIN s.fit : LET c == ColOf(ev.out, j) t == FxMul(s.tol, FxMax(FxOne, FxAdd(Terms(s.fit[j], s.lo, s.w, MinOf(ColOf(ev.q, j))), Terms(s.fit[j], s.lo, s.w, MaxOf(ColOf(ev.q, j)))))) IN
         FxAbsClose(MinOf(c), s.lo, t) /\ FxAbsClose(MaxOf(c), FxAdd(s.lo, s.w), t)
  ELSE \A j \in DOMAIN s.fit : LET c == ColOf(ev.out, j) t == FxMul(s.tol, FxAdd(FxI(8), FxMul(FxI(8), Terms(s.fit[j], s.lo, s.w, s.fit[j][1])))) IN
         FxAbsClose(MeanOf(c), s.lo, t) /\ FxAbsClose(FxSqrt(VarOf(c)), s.w, FxAdd(t, FxMul(FxI(Len(c)), FxMul(s.w, s.fit[j][3]))))
TFBad(s, ev) ==
  CASE ev.op = "fit" ->
         IF Refused(ev.kind, ev.x, ev.cols) THEN ClauseIf(ev.end = "err", "refused")
         ELSE IF ev.end = "ok" THEN {} ELSE IF ev.extreme THEN ClauseIf(ev.end = "err", "refused") ELSE {"fits"}
    [] ev.op \in {"transform", "inverse"} ->
         IF ~s.has THEN {}
         ELSE IF ev.cols # Len(s.fit) THEN ClauseIf(ev.end = "err", "other-width-refused")
         ELSE IF ev.end # "ok" THEN {"transforms"}
         ELSE IF ev.op = "inverse" THEN ClauseIf(UnMapped(s.fit, s.lo, s.w, ev.q, ev.out, s.tol), "inverse-map")
         ELSE ClauseIf(Mapped(s.fit, s.lo, s.w, ev.q, ev.out, s.tol), "affine-map") \union (IF ev.own /\ AllFin(ev.out) THEN ClauseIf(FirstUse(s, ev), "requested-statistics") ELSE {})
    [] ev.op = "normalize" ->
         IF ~AllFin(ev.x) THEN ClauseIf(ev.end = "err", "refused")
         ELSE IF ev.extreme /\ ev.end = "err" THEN {}
         ELSE IF ev.end # "ok" THEN {"normalizes"}
         ELSE ClauseIf(Len(ev.out) = Len(ev.x) /\ \A i \in DOMAIN ev.x : Normalized(ev.x[i], ev.out[i], ev.p, Tol(ev)), "unit-norm-same-direction")
    [] ev.op = "shuffle" -> \* rows as codes
         IF ev.end # "ok" THEN {"shuffles"} ELSE UNION {ClauseIf(SameBag(ev.x, ev.out), "same-rows"), ClauseIf(ev.shape = <<Len(ev.x), ev.cols>>, "shape")}
    [] ev.op = "shuffle-law" -> IF ev.end # "ok" THEN {"shuffles"}
         ELSE IF \E i \in DOMAIN ev.hist : ~ValidPerm(ev.n, ev.hist[i][1]) THEN {"same-rows"} ELSE ClauseIf(UniformPerms(ev.n, ev.exact, ev.den, ev.hist), "uniform")
    [] ev.op = "shuffle-counts" -> IF ev.end # "ok" THEN {"shuffles"}
         ELSE ClauseIf(\A p \in DOMAIN ev.counts : \A v \in DOMAIN ev.counts[p] : FairCount(ev.counts[p][v], ev.m, ev.n), "uniform")
    [] ev.op = "shuffle-stats" -> IF ev.end # "ok" THEN {"shuffles"}
         ELSE UNION {ClauseIf(ev.bad = 0, "same-rows"), ClauseIf(FairShuffle(ev.n, ev.m, ev.grid, ev.even, ev.fixed, ev.next, ev.asc), "uniform")}
=============================================================================
