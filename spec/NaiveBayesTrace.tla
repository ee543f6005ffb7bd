-------------------------- MODULE NaiveBayesTrace --------------------------
(* Histories of one NaiveBayes model.                                       *)
EXTENDS NaiveBayes, TraceRun
NBStart(cs) == [has |-> FALSE, kind |-> "", cols |-> 0, classes |-> 0, rows |-> 0, fit |-> <<>>]
Tol == Eps(9)
Refused(ev) == Impossible(ev.kind, ev.x, ev.cls, ev.classes, ev.cols, Len(ev.cls))
NBAfter(s, ev) ==
  IF ev.op = "train" /\ ev.end = "ok" /\ ~Refused(ev)
  THEN [has |-> TRUE, kind |-> ev.kind, cols |-> ev.cols, classes |-> ev.classes, rows |-> Len(ev.cls), fit |-> FitOf(ev.kind, ev.x, ev.cls, ev.classes, ev.cols)]
  ELSE s
Posts(s, q) == [i \in DOMAIN q |-> [c \in 1..s.classes |-> IF s.fit[c].n = 0 THEN <<FxNInf, FxZero>> ELSE LogPost(s.kind, s.fit[c], q[i])]]
LogProbsOk(s, post, lp) == \A i \in DOMAIN post : \A c \in 1..s.classes :
  IF s.fit[c].n = 0 THEN lp[i][c] = FxNInf ELSE FxAbsClose(lp[i][c], post[i][c][1], FxMul(Tol, post[i][c][2]))
\* out: 1 + the class of the single 1 of each row, 0: not one-hot
Best(s, p, k) == k \in 1..s.classes /\ s.fit[k].n > 0 /\ \A c \in 1..s.classes : s.fit[c].n = 0 \/ FxLe(p[c][1], FxAdd(p[k][1], FxMul(Tol, FxAdd(p[k][2], p[c][2]))))
LawSame(kind, a, b) == Len(a) = Len(b) /\ \A j \in DOMAIN a :
  CASE kind = "gaussian" -> FxAbsClose(b[j][1], a[j][1], FxMul(Tol, FxAdd(FxOne, FxAdd(FxAbs(a[j][1]), FxSqrt(a[j][2]))))) /\ FxAbsClose(b[j][2], a[j][2], FxMul(Eps(6), a[j][2]))
    [] OTHER -> FxAbsClose(b[j], FxLn(a[j]), FxMul(Tol, FxAdd(FxOne, FxAbs(FxLn(a[j])))))
NBBad(s, ev) ==
  CASE ev.op = "train" -> IF Refused(ev) THEN ClauseIf(ev.end = "err", "impossible-refused") ELSE ClauseIf(ev.end = "ok", "trains")
    [] ev.op = "fitted" ->
         IF ev.end # "ok" THEN {"accessors"}
         ELSE IF ~s.has THEN ClauseIf(ev.count = 0 /\ ev.prior = <<>> /\ ev.laws = <<>>, "nothing-before-training")
         ELSE UNION {ClauseIf(ev.count = s.classes, "class-count"),
                     ClauseIf(Len(ev.prior) = s.classes /\ \A c \in 1..s.classes : FxAbsClose(ev.prior[c], FxQ(s.fit[c].n, s.rows), Eps(12)), "prior-is-frequency"),
                     ClauseIf(Len(ev.laws) = s.classes /\ \A c \in 1..s.classes : s.fit[c].n = 0 \/ LawSame(s.kind, s.fit[c].law, ev.laws[c]), "fitted-law")}
    [] ev.op = "predict" ->
         IF ~s.has THEN ClauseIf(ev.end = "err" /\ ev.lpend = "err", "untrained-refused")
         ELSE IF ev.cols # s.cols THEN ClauseIf(ev.end = "err" /\ ev.lpend = "err", "other-width-refused")
         ELSE IF ev.end # "ok" \/ ev.lpend # "ok" THEN {"predicts"}
         ELSE IF Len(ev.out) # Len(ev.q) \/ Len(ev.lp) # Len(ev.q) \/ (\E i \in DOMAIN ev.lp : Len(ev.lp[i]) # s.classes) THEN {"one-per-row"}
         ELSE LET post == Posts(s, ev.q) IN
              UNION {ClauseIf(LogProbsOk(s, post, ev.lp), "log-posteriors"),
                     ClauseIf(\A i \in DOMAIN ev.out : Best(s, post[i], ev.out[i]), "maximal-posterior")}
=============================================================================
