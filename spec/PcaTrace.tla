------------------------------ MODULE PcaTrace ------------------------------
(* Histories of one principal component analysis.                           *)
EXTENDS Pca, TraceRun
PStart(cs) == [n |-> <<>>, center |-> TRUE, fit |-> <<>>]
Dirs(comps, cols, wide) == IF wide THEN comps ELSE Flip(comps, IF comps = <<>> THEN 0 ELSE Len(comps[1]))
PAfter(s, ev) ==
  CASE ev.op = "new" -> [s EXCEPT !.n = ev.n, !.center = ev.center]
    \* of the last successful training
    [] ev.op = "train" -> IF ev.end # "ok" THEN s ELSE [s EXCEPT !.fit = <<[x |-> ev.x, cols |-> ev.cols, comps |-> ev.comps]>>]
    [] OTHER -> s
Wide(ev) == ev.cols > Len(ev.x)
Most(ev) == IF Wide(ev) THEN Len(ev.x) ELSE ev.cols
Count(s, ev) == IF s.n = <<>> THEN Most(ev) ELSE s.n[1]
Biggest(X) == Sup({FxOne} \cup UNION {{FxAbs(X[i][c]) : c \in DOMAIN X[i]} : i \in DOMAIN X})
Shape(s, ev) == LET k == Count(s, ev) r == IF Wide(ev) THEN k ELSE ev.cols c == IF Wide(ev) THEN ev.cols ELSE k IN
                Len(ev.comps) = r /\ \A i \in 1..r : Len(ev.comps[i]) = c /\ \A j \in 1..c : FxFin(ev.comps[i][j])
Fitted(s, ev) ==
  LET d == Dirs(ev.comps, ev.cols, Wide(ev)) c == Scatter(Shift(ev.x, CentreOf(ev.x, ev.cols, s.center)), ev.cols) IN
  LET t == FxAdd(Eps(30), FxAdd(FxMul(Eps(10), Trace(c)), FxMul(Eps(14), FxMul(FxI(Len(ev.x)), FxSq(Biggest(ev.x)))))) IN
  UNION {ClauseIf(Orthonormal(d, Eps(10)), "orthonormal"), ClauseIf(Uncorrelated(d, c, t), "uncorrelated"),
         ClauseIf(Descending(d, c, t), "falling-variance"), ClauseIf(Greatest(d, c, t), "greatest-variance")}
Train(s, ev) ==
  IF s.n # <<>> /\ s.n[1] > Most(ev) THEN ClauseIf(ev.end = "err", "too-many-refused") \cup ClauseIf(ev.comps = (IF s.fit = <<>> THEN <<>> ELSE s.fit[1].comps), "failure-keeps-model")
  ELSE IF ev.end # "ok" THEN {"trains"}
  ELSE IF ~Shape(s, ev) THEN {"components-kept"} ELSE Fitted(s, ev)
Predict(s, ev) ==
  IF s.fit = <<>> THEN ClauseIf(ev.end = "err", "untrained-refused")
  ELSE LET f == s.fit[1] IN
    IF ev.cols # f.cols THEN ClauseIf(ev.end = "err", "other-width-refused")
    ELSE IF ev.end # "ok" THEN {"predicts"}
    ELSE LET d == Dirs(f.comps, f.cols, Wide(f)) m == CentreOf(f.x, f.cols, s.center) IN
      ClauseIf(Len(ev.out) = Len(ev.q) /\ \A i \in DOMAIN ev.q : Len(ev.out[i]) = Len(d) /\
        LET p == Project(d, m, ev.q[i]) t == FxMul(Eps(12), FxAdd(Biggest(f.x), Biggest(ev.q))) IN \A k \in DOMAIN d : FxAbsClose(ev.out[i][k], p[k], t), "projects")
PBad(s, ev) ==
  CASE ev.op = "new" -> {}
    [] ev.op = "train" -> Train(s, ev)
    [] ev.op = "components" -> ClauseIf(IF s.fit = <<>> THEN ev.end = "err" ELSE ev.end = "ok" /\ ev.comps = s.fit[1].comps, "components-as-trained")
    [] ev.op = "predict" -> Predict(s, ev)
    [] OTHER -> {"unknown-event"}
=============================================================================
