---------------------------- MODULE RegressTrace ----------------------------
(* Histories of one regression model.                                       *)
EXTENDS Regress, TraceRun
RStart(cs) == [kind |-> "", fam |-> <<>>, par |-> <<>>, start |-> <<>>, means |-> <<>>, X |-> <<>>, y |-> <<>>]
\* par: <<coefficients>> of the last successful training
RAfter(s, ev) ==
  CASE ev.op = "new" -> [s EXCEPT !.kind = ev.kind, !.fam = ev.fam]
    [] ev.op = "train" -> IF ev.end # "ok" THEN s ELSE [s EXCEPT !.par = ev.par, !.X = ev.x, !.y = ev.y]
    [] ev.op = "descend" -> IF ev.end # "ok" THEN s ELSE [s EXCEPT !.par = ev.par]
    [] ev.op = "begin" -> [s EXCEPT !.start = Append(@, ev.w)]
    [] OTHER -> s
Tol == Eps(9)
Same(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : FxFin(a[i]) /\ a[i] = b[i]
PredictRight(s, ev) ==
  /\ Len(ev.out) = Len(ev.x)
  /\ \A i \in DOMAIN ev.x : LET z == Score(s.par[1], ev.x[i]) IN
       IF s.kind = "logit" THEN FxAbsClose(ev.out[i], Sigmoid(z), FxAdd(Eps(12), FxMul(Eps(13), Bulky(s.par[1], ev.x[i]))))
       ELSE FxAbsClose(ev.out[i], z, FxMul(Eps(12), FxAdd(Bulky(s.par[1], ev.x[i]), Eps(30))))
\* coefficients sure(j) are known to satisfy the score equations and to give moderate means
Certain(fam, x, y, b) ==
  LET X == Design(x) m == [i \in DOMAIN X |-> MeanOf(fam.link, FxDot(X[i], b))] IN
  /\ \A i \in DOMAIN X : LET z == FxDot(X[i], b) IN CASE fam.link = "logit" -> FxLe(FxAbs(z), FxI(4)) [] fam.link = "log" -> FxLe(FxI(-2), z) /\ FxLe(z, FxI(6)) [] OTHER -> TRUE
  /\ \A j \in DOMAIN b : FxLe(FxAbs(LikeSlope(fam, X, y, m, j)), FxMul(Eps(9), LikeTerms(fam, X, y, m, j)))
  /\ Rank(X) = 2
RBad(s, ev) ==
  CASE ev.op = "new" -> {}
    [] ev.op = "train" ->
         IF Len(ev.x) # Len(ev.y) THEN ClauseIf(IF s.kind \in {"lin", "logit"} THEN ev.end # "ok" ELSE ev.end = "err", "mispaired-refused")
         ELSE IF s.kind = "lin" THEN
           LET X == Design(ev.x) r == Rank(X) IN
           IF ev.end # "ok" THEN (IF r = 2 THEN {"trains"} ELSE ClauseIf(ev.end = "err", "fails-with-error"))
           ELSE ClauseIf(Len(ev.par) = 1 /\ Len(ev.par[1]) = ev.cols + 1 /\ AllFin(ev.par[1]) /\ NormalEqs(X, ev.y, ev.par[1], FxMul(Eps(12), FxI(10))), "least-squares")
         ELSE IF s.kind = "logit" THEN IF ev.end # "ok" THEN {"trains"}
           ELSE UNION {ClauseIf(ev.design, "intercept-and-data"), ClauseIf(Len(ev.par) = 1 /\ Same(ev.par[1], ev.ret), "keeps-the-result")}
         ELSE IF ev.sure # <<>> /\ Certain(s.fam, ev.x, ev.y, ev.sure[1]) THEN ClauseIf(ev.end = "ok", "trains")
         ELSE ClauseIf(ev.end \in {"ok", "err"}, "fails-with-error")
    [] ev.op = "begin" ->     \* where an optimizer is started
         IF \E i \in DOMAIN s.start : Len(s.start[i]) = Len(ev.w) /\ s.start[i] # ev.w THEN {"fixed-start"} ELSE ClauseIf(AllFin(ev.w) /\ Len(ev.w) = ev.cols + 1, "fixed-start")
    [] ev.op = "grad" ->
         IF ev.end # "ok" THEN {"evaluates"} ELSE
         LET X == Design(ev.x) logit == s.kind = "logit"
             c == IF logit THEN LogitCost(X, ev.y, ev.w) ELSE SquareCost(X, ev.y, ev.w)
             g == IF logit THEN LogitGrad(X, ev.y, ev.w) ELSE SquareGrad(X, ev.y, ev.w) IN
         UNION {ClauseIf(FxAbsClose(ev.c, c, FxMul(Tol, FxAdd(Eps(3), FxAbs(c)))), "cost"),
                ClauseIf(Len(ev.g) = Len(g) /\ \A j \in DOMAIN g : FxAbsClose(ev.g[j], g[j], FxAdd(Eps(11), FxMul(FxMul(Tol, Eps(2)), TermsOf(X, ev.y, ev.w, j)))), "gradient-of-cost")}
    \* trained by the program's own optimizer: the same bits as that optimizer on the model's cost
    [] ev.op = "descend" -> ClauseIf(ev.end = "ok" /\ ev.same /\ Len(ev.par) = 1, "configured-optimizer")
    [] ev.op = "mispaired" -> ClauseIf(ev.end # "ok", "mispaired-refused")
    [] ev.op = "untrained" -> ClauseIf(ev.end = "err", "untrained-refused")
    [] ev.op = "predict" ->
         IF s.par = <<>> THEN ClauseIf(ev.end = "err", "untrained-refused")
         ELSE IF ev.cols # Len(s.par[1]) - 1 THEN ClauseIf(ev.end # "ok", "other-width-refused")
         ELSE IF ev.end # "ok" THEN {"predicts"} ELSE IF ~AllFin(s.par[1]) THEN {} ELSE ClauseIf(PredictRight(s, ev), "affine-score")
    \* generalized linear models show their coefficients through predictions only
    [] ev.op = "fitted" ->
         IF ev.end # "ok" THEN {"predicts"} ELSE
         LET X == Design(ev.x) f == s.fam b == ev.sure[1] IN
         IF ~Certain(f, ev.x, ev.y, b) THEN {}
         ELSE UNION {ClauseIf(Len(ev.out) = Len(X) /\ \A i \in DOMAIN X : LET z == FxDot(X[i], b) m == MeanOf(f.link, z) IN FxAbsClose(ev.out[i], m, FxMul(Eps(5), FxAdd(Eps(2), FxAbs(m)))), "score-equations"),
                     ClauseIf(Len(ev.qout) = Len(ev.q) /\ \A i \in DOMAIN ev.q : LET z == Score(b, ev.q[i]) m == MeanOf(f.link, z) IN FxAbsClose(ev.qout[i], m, FxMul(Eps(5), FxMul(FxAdd(Eps(2), FxAbs(m)), FxAdd(FxOne, Bulky(b, ev.q[i]))))), "inverse-link-of-score")}
    [] ev.op = "link" -> UNION {ClauseIf(FxRel(ev.f, LinkOf(ev.link, ev.m), Eps(12), Eps(14)), "link"), ClauseIf(FxRel(ev.g, LinkSlope(ev.link, ev.m), Eps(12), Eps(14)), "link-derivative"),
                                ClauseIf(FxRel(ev.i, MeanOf(ev.link, ev.z), Eps(12), Eps(30)), "link-inverse")}
=============================================================================
