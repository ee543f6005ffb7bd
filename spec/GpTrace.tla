------------------------------ MODULE GpTrace ------------------------------
(* Histories of one Gaussian process.                                       *)
EXTENDS Gp, TraceRun
GStart(cs) == [k |-> <<>>, mf |-> "", noise |-> FxZero, fit |-> <<>>]
GAfter(s, ev) ==
  CASE ev.op = "new" -> [s EXCEPT !.k = ev.k, !.mf = ev.mf, !.noise = ev.noise]
    [] ev.op = "noise" -> [s EXCEPT !.noise = ev.noise]
    \* fit: rows, targets, width, inverse of the noisy kernel matrix, condition and error of the last successful training
    [] ev.op = "train" -> IF ev.end # "ok" THEN s
         ELSE LET m == Noisy(s.k, ev.x, s.noise) a == IF Definite(m) = 1 THEN Inv(m, FxZero) ELSE <<>> IN
              [s EXCEPT !.fit = <<[x |-> ev.x, y |-> ev.y, cols |-> ev.cols, inv |-> a, cond |-> IF a = <<>> THEN FxZero ELSE FxMul(NormInf(m), NormInf(a)), amp |-> IF a = <<>> THEN FxZero ELSE Amplified(m, a)]>>]
    [] OTHER -> s
\* the answer is determined well enough to be judged
Clear(f) == f.inv # <<>> /\ FxLe(f.cond, FxTen(8))
\* largest sum of a row of the kernel matrix between queries and rows
Size(s, f, q) == Largest({FxSum([j \in DOMAIN f.x |-> FxAbs(Ker(s.k, q[i], f.x[j]))]) : i \in DOMAIN q})
Biggest(v) == Largest({FxAbs(v[i]) : i \in DOMAIN v})
MeanTol(s, f, q) == LET m == Means(s.mf, f.x) al == MatVec(f.inv, Center(s.mf, f.x, f.y)) IN
  FxAdd(FxMul(Eps(13), FxAdd(FxOne, Biggest(Means(s.mf, q)))),
        FxMul(FxMul(Eps(14), f.amp), FxMul(Size(s, f, q), FxAdd(Biggest(al), FxMul(NormInf(f.inv), FxAdd(Biggest(f.y), Biggest(m)))))))
CovTol(s, f, q) == FxAdd(FxMul(Eps(13), FxAdd(FxOne, Largest({FxAbs(Ker(s.k, q[i], q[i])) : i \in DOMAIN q}))), FxMul(FxMul(Eps(14), f.amp), FxMul(FxSq(Size(s, f, q)), NormInf(f.inv))))
MeanRight(s, f, q, out) == Len(out) = Len(q) /\ LET p == TLCEval(PostMean(s.k, s.mf, f.x, f.y, f.inv, q)) t == TLCEval(MeanTol(s, f, q)) IN \A i \in DOMAIN q : FxAbsClose(out[i], p[i], t)
CovRight(s, f, q, cov) == Len(cov) = Len(q) /\ LET p == TLCEval(PostCov(s.k, f.x, f.inv, q)) t == TLCEval(CovTol(s, f, q)) IN \A i \in DOMAIN q : Len(cov[i]) = Len(q) /\ \A j \in DOMAIN q : FxAbsClose(cov[i][j], p[i][j], t)
GBad(s, ev) ==
  CASE ev.op \in {"new", "noise"} -> {}
    [] ev.op = "train" ->
         IF Len(ev.x) # Len(ev.y) THEN ClauseIf(ev.end # "ok", "mispaired-refused")
         ELSE LET d == Definite(Noisy(s.k, ev.x, s.noise)) IN
           CASE d = 1 -> ClauseIf(ev.end = "ok", "trains") [] d = -1 -> ClauseIf(ev.end = "err", "no-distribution") [] OTHER -> ClauseIf(ev.end \in {"ok", "err"}, "fails-with-error")
    [] ev.op \in {"predict", "posterior"} ->
         IF s.fit = <<>> THEN ClauseIf(ev.end = "err", "untrained-refused")
         ELSE IF ev.cols # s.fit[1].cols THEN ClauseIf(ev.end = "err", "other-width-refused")
         ELSE IF ev.end # "ok" THEN {"predicts"}
         ELSE IF ~Clear(s.fit[1]) THEN {}
         ELSE UNION {ClauseIf(MeanRight(s, s.fit[1], ev.q, ev.out), "posterior-mean"), IF ev.op = "posterior" THEN ClauseIf(CovRight(s, s.fit[1], ev.q, ev.cov), "posterior-covariance") ELSE {}}
=============================================================================
