------------------------------ MODULE SvmTrace ------------------------------
(* Histories of one support vector machine, and laws of its predictions.    *)
EXTENDS Svm, TraceRun
VStart(cs) == [k |-> <<>>, lam |-> FxZero, iters |-> 0, fit |-> <<>>]
\* fit: <<rows, targets (of those alike the first), width, law of the dual coefficients, clear>> of the last successful training
VFit(s, ev) == LET l == Law(s.k, ev.x, ev.y, s.lam, s.iters) F == Firsts(ev.x, ev.y) IN <<Pick(ev.x, F), Pick(ev.y, F), ev.cols, l[1], l[2]>>
VAfter(s, ev) ==
  CASE ev.op = "new" -> [s EXCEPT !.k = ev.k, !.lam = ev.lam, !.iters = ev.iters]
    [] ev.op = "iters" -> [s EXCEPT !.iters = ev.iters]
    [] ev.op = "train" -> IF ev.end = "ok" THEN [s EXCEPT !.fit = VFit(s, ev)] ELSE s
    \* all predictions of one trained model: what is known of its coefficients
    [] ev.op = "predict" -> IF ev.end = "ok" /\ s.fit # <<>> /\ s.fit[5]
         THEN LET cs == Columns(s.k, s.fit[1], s.fit[2], ev.q) IN [s EXCEPT !.fit[4] = [a \in {b \in DOMAIN s.fit[4] : Fits(ev.out, Sides(b, cs))} |-> s.fit[4][a]]] ELSE s
    [] OTHER -> s
\* observed count c of n against probability p: exact, or within some eight standard deviations
Plausible(exact, c, n, w, total) ==
  LET e == FxSub(FxMul(FxI(c), total), FxMul(FxI(n), w)) IN      \* (c - n p) total
  IF exact THEN e[1] = 0
  ELSE FxLe(FxSq(e), FxAdd(FxMul(FxI(64 * n), FxMul(w, FxSub(total, w))), FxMul(FxI(64), FxSq(total))))
LawRight(s, ev) ==
  LET l == Law(s.k, ev.x, ev.y, s.lam, s.iters) d == l[1] F == Firsts(ev.x, ev.y) cs == Columns(s.k, Pick(ev.x, F), Pick(ev.y, F), ev.q)
      side == [a \in DOMAIN d |-> Sides(a, cs)]
      total == AddUp(d, DOMAIN d)
      seen == {ev.hist[i][1] : i \in DOMAIN ev.hist}
      count(p) == LET i == CHOOSE i \in DOMAIN ev.hist : ev.hist[i][1] = p IN ev.hist[i][2] IN
  ~l[2] \/ (\E a \in DOMAIN d : \E i \in DOMAIN cs : side[a][i] = 0)
  \/ /\ seen \subseteq {side[a] : a \in DOMAIN d}
     /\ \A p \in {side[a] : a \in DOMAIN d} : Plausible(ev.exact, IF p \in seen THEN count(p) ELSE 0, ev.den, AddUp(d, {a \in DOMAIN d : side[a] = p}), total)
VBad(s, ev) ==
  CASE ev.op \in {"new", "iters"} -> {}
    [] ev.op = "untrained" -> ClauseIf(ev.end = "err", "untrained-refused")
    [] ev.op = "train" -> IF Len(ev.x) # Len(ev.y) THEN ClauseIf(ev.end = "err", "mispaired-refused") ELSE ClauseIf(ev.end = "ok", "trains")
    [] ev.op = "predict" ->
         IF s.fit = <<>> THEN ClauseIf(ev.end = "err", "untrained-refused")
         ELSE IF ev.cols # s.fit[3] THEN ClauseIf(ev.end = "err", "other-width-refused")
         ELSE IF ev.end # "ok" THEN {"predicts"}
         ELSE IF Len(ev.out) # Len(ev.q) \/ \E i \in DOMAIN ev.out : ev.out[i] \notin {1, -1} THEN {"one-or-minus-one"}
         ELSE IF ~s.fit[5] THEN {}
         ELSE LET cs == Columns(s.k, s.fit[1], s.fit[2], ev.q) IN ClauseIf(\E a \in DOMAIN s.fit[4] : Fits(ev.out, Sides(a, cs)), "sign-of-expansion")
    [] ev.op = "law" -> IF ev.end # "ok" THEN {"trains"} ELSE ClauseIf(LawRight(s, ev), "pegasos-law")
    [] OTHER -> {"unknown-event"}
=============================================================================
