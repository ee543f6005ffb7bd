------------------------------ MODULE GmmTrace ------------------------------
(* Histories of Gaussian mixtures, with the states of their training.       *)
EXTENDS Gmm, RandTools, TraceRun
MStart(cs) == [k |-> 0, opt |-> "full", eps |-> FxZero, prior |-> <<>>, last |-> <<>>, cols |-> 0]
StOf(ev) == [w |-> ev.w, mu |-> ev.mu, cov |-> ev.cov]
MAfter(s, ev) ==
  CASE ev.op = "new" -> [s EXCEPT !.k = ev.k, !.prior = ev.prior]
    [] ev.op = "opt" -> [s EXCEPT !.opt = ev.opt, !.eps = ev.eps]
    [] ev.op = "train" -> IF ev.end = "ok" THEN [s EXCEPT !.last = <<StOf(ev)>>, !.cols = ev.cols] ELSE s
    [] OTHER -> s
Finite(st) == (\A j \in DOMAIN st.w : FxFin(st.w[j])) /\ (\A j \in DOMAIN st.mu : \A c \in DOMAIN st.mu[j] : FxFin(st.mu[j][c]))
              /\ (\A j \in DOMAIN st.cov : \A c \in DOMAIN st.cov[j] : \A d \in DOMAIN st.cov[j][c] : FxFin(st.cov[j][c][d]))
Shaped(st, k, cols) == Len(st.w) = k /\ Len(st.mu) = k /\ Len(st.cov) = k /\ (\A j \in 1..k : Len(st.mu[j]) = cols /\ Len(st.cov[j]) = cols /\ \A c \in 1..cols : Len(st.cov[j][c]) = cols)
Sound(st, k, cols) ==
  UNION {ClauseIf(Shaped(st, k, cols), "shapes"),
         IF ~Finite(st) THEN {"finite"} ELSE
         UNION {ClauseIf(FxAbsClose(FxSum(st.w), FxOne, Eps(12)) /\ \A j \in DOMAIN st.w : st.w[j][1] >= 0, "weights-sum-to-one"),
                ClauseIf(\A j \in DOMAIN st.cov : \A c, d \in DOMAIN st.cov[j] : FxAbsClose(st.cov[j][c][d], st.cov[j][d][c], FxMul(Eps(12), Trace(st.cov[j]))), "covariances-symmetric")}}
\* all covariances are safely invertible
CondOf(st, invs) == Sup({Cond(st.cov[j], invs[j]) : j \in DOMAIN st.cov})
Safe(st) == (\A j \in DOMAIN st.cov : Definite(st.cov[j]) = 1 /\ FxLt(Eps(6), Low(Ran(Pivots(st.cov[j]))))) /\ FxLe(CondOf(st, Invs(st)), FxTen(7))
\* error of the responsibilities of a row whose distances are ms
RespTol(st, invs, ms) == FxAdd(Eps(12), FxMul(FxMul(Eps(14), CondOf(st, invs)), FxAdd(FxOne, Sup(Ran(ms)))))
RowTol(st, invs, X) == Sup({RespTol(st, invs, Mahas(st, invs, X[i])) : i \in DOMAIN X})
Largest(X) == Sup({FxOne} \cup UNION {{FxAbs(X[i][c]) : c \in DOMAIN X[i]} : i \in DOMAIN X})
\* nxt follows st by one round
Round(s, st, nxt, X) ==
  LET invs == Invs(st) r == Resp(st, invs, Heights(st), X) u == Update(st, r, X, s.opt, s.eps) t == RowTol(st, invs, X) b == Largest(X) n == FxI(Len(X)) IN
  /\ \A j \in DOMAIN st.w : FxAbsClose(nxt.w[j], u.w[j], t)
  /\ \A j \in DOMAIN st.w :
       LET h == Share(r, j) e == IF h[1] = 0 THEN FxZero ELSE FxMul(FxMul(FxI(8), FxAdd(t, Eps(12))), FxMul(FxDiv(FxMul(n, FxAdd(FxOne, h)), h), FxSq(b))) IN
       \* shares too small to compute with are not judged
       (h[1] # 0 /\ FxLt(h, Eps(9))) \/
       /\ \A c \in DOMAIN u.mu[j] : FxAbsClose(nxt.mu[j][c], u.mu[j][c], e)
       /\ \A c, d \in DOMAIN u.cov[j] : FxAbsClose(nxt.cov[j][c][d], u.cov[j][c][d], FxAdd(e, FxMul(Eps(13), FxAbs(u.cov[j][c][d]))))
\* the round was not made because the likelihood had stopped changing
Lik(st, X) == LogLik(st, Invs(st), Heights(st), X)
Settled(states, j, X) == /\ j > 1 /\ states[j + 1] = states[j]
                         /\ LET a == Lik(states[j - 1], X) b == Lik(states[j], X) IN FxAbsClose(a, b, FxMul(Eps(11), FxAdd(FxOne, FxAbs(b))))
Starts(s, st, X) ==
  LET k == s.k p == IF s.prior = <<>> THEN [j \in 1..k |-> FxQ(1, k)] ELSE Prior(s.prior) c == StartCov(X, s.opt, s.eps) b == FxSq(Largest(X)) IN
  UNION {ClauseIf(\A j \in 1..k : FxAbsClose(st.w[j], p[j], Eps(14)), "starts-from-prior"),
         \* at k different rows (equal rows are different rows)
         ClauseIf(\A j \in 1..k : Cardinality({l \in 1..k : st.mu[l] = st.mu[j]}) <= Cardinality({i \in DOMAIN X : X[i] = st.mu[j]}), "starts-at-rows"),
         ClauseIf(\A j \in 1..k : st.cov[j] = st.cov[1], "starts-with-one-covariance"),
         IF s.opt # "diag" THEN ClauseIf(\A a, d \in DOMAIN c : FxAbsClose(st.cov[1][a][d], c[a][d], FxMul(Eps(12), b)), "starts-with-covariance")
         \* some multiple of the variances
         ELSE ClauseIf(\A a, d \in DOMAIN c : FxAbsClose(FxMul(st.cov[1][a][a], c[d][d]), FxMul(st.cov[1][d][d], c[a][a]), FxMul(Eps(12), FxSq(b))) /\ FxLe(FxZero, st.cov[1][a][a]) /\ (c[a][a][1] = 0) = (st.cov[1][a][a][1] = 0) /\ (a # d => st.cov[1][a][d][1] = 0), "starts-with-variances")}
TooFew(s, X) == Len(X) < 2 \/ Len(X) < s.k
Path(s, ev) ==
  LET ss == ev.states IN
  IF TooFew(s, ev.x) THEN ClauseIf(\A i \in DOMAIN ss : ss[i].end = "err", "too-few-rows-refused")
  ELSE IF \E i \in DOMAIN ss : ss[i].end \notin {"ok", "err"} THEN {"no-panic"}
  ELSE IF ss[1].end # "ok" THEN {"starts"}
  ELSE IF \E i \in 1..(Len(ss) - 1) : ss[i].end = "err" /\ ss[i + 1].end = "ok" THEN {"fails-once-and-for-all"}
  ELSE LET good == {i \in DOMAIN ss : ss[i].end = "ok"} st(i) == StOf(ss[i]) IN
    IF \E i \in good : Sound(st(i), s.k, ev.cols) # {} THEN UNION {Sound(st(i), s.k, ev.cols) : i \in good}
    ELSE UNION {Starts(s, st(1), ev.x)} \cup
         UNION {IF ~Safe(st(i)) THEN {}
                ELSE IF ss[i + 1].end = "err" THEN {"trains"}
                ELSE ClauseIf(Round(s, st(i), st(i + 1), ev.x) \/ Settled([q \in 1..(i + 1) |-> st(q)], i, ev.x), "round-is-em") : i \in good \ {Len(ss)}}
\* states after many rounds: one more round is made unless it would not change the likelihood
Rests(s, st, X) == LET invs == Invs(st) u == Update(st, Resp(st, invs, Heights(st), X), X, s.opt, s.eps) a == Lik(st, X)
                   IN Safe(u) => FxAbsClose(Lik(u, X), a, FxMul(Eps(10), FxAdd(FxOne, FxAbs(a))))
Late(s, ev) ==
  LET ss == ev.states st(i) == StOf(ss[i]) IN
  IF \E i \in DOMAIN ss : ss[i].end \notin {"ok", "err"} THEN {"no-panic"}
  ELSE IF \E i \in 1..(Len(ss) - 1) : ss[i].end = "err" /\ ss[i + 1].end = "ok" THEN {"fails-once-and-for-all"}
  ELSE LET good == {i \in DOMAIN ss : ss[i].end = "ok"} IN
    IF \E i \in good : Sound(st(i), s.k, ev.cols) # {} THEN UNION {Sound(st(i), s.k, ev.cols) : i \in good}
    ELSE UNION {IF ~Safe(st(i)) THEN {}
                ELSE IF ss[i + 1].end = "err" THEN {"trains"}
                ELSE ClauseIf(IF st(i + 1) = st(i) THEN Rests(s, st(i), ev.x) ELSE Round(s, st(i), st(i + 1), ev.x), "round-is-em") : i \in good \ {Len(ss)}}
Predicts(s, ev) ==
  LET st == s.last[1] k == s.k IN
  IF Len(ev.out) # Len(ev.q) \/ \E i \in DOMAIN ev.out : Len(ev.out[i]) # k THEN {"shapes"}
  ELSE IF ~Finite(st) THEN {}
  ELSE IF ~Safe(st) THEN {}
  ELSE IF \E i \in DOMAIN ev.out : \E j \in 1..k : ~FxFin(ev.out[i][j]) THEN {"rows-sum-to-one"}
  ELSE UNION {ClauseIf(\A i \in DOMAIN ev.out : FxAbsClose(FxSum(ev.out[i]), FxOne, Eps(12)) /\ \A j \in 1..k : ev.out[i][j][1] >= 0, "rows-sum-to-one"),
              LET invs == Invs(st) hs == Heights(st) IN
              ClauseIf(\A i \in DOMAIN ev.q : LET ms == Mahas(st, invs, ev.q[i]) t == RespTol(st, invs, ms) p == RespOf(st, hs, ms) IN \A j \in 1..k : FxAbsClose(ev.out[i][j], p[j], t), "responsibilities")}
MBad(s, ev) ==
  CASE ev.op = "new" ->
         LET p == IF ev.prior = <<>> THEN [j \in 1..ev.k |-> FxQ(1, ev.k)] ELSE Prior(ev.prior)
             starts == Len(ev.w) = ev.k /\ \A j \in 1..ev.k : FxFin(ev.w[j]) /\ FxAbsClose(ev.w[j], p[j], Eps(14)) IN
         IF ev.prior = <<>> THEN ClauseIf(ev.end = "ok" /\ starts, "constructs")
         ELSE LET good == Len(ev.prior) = ev.k /\ (\A j \in DOMAIN ev.prior : ev.prior[j][1] >= 0) /\ FxSum(ev.prior)[1] = 1 IN
              ClauseIf(ev.end = (IF good THEN "ok" ELSE "err"), "weights-checked") \cup
              (IF good /\ ev.end = "ok" THEN ClauseIf(starts, "constructs") ELSE {})
    [] ev.op = "opt" -> {}
    [] ev.op = "path" -> Path(s, ev)
    [] ev.op = "late" -> Late(s, ev)
    [] ev.op = "start" -> IF ev.end # "ok" THEN {"starts"} ELSE ClauseIf(UniformSubsets(ev.n, s.k, ev.exact, ev.den, ev.hist), "starts-uniformly")
    [] ev.op = "train" ->      \* same: the state is that of a new model trained on these data with these draws; kept: a failure leaves the model as it was
         IF ev.end = "err" THEN ClauseIf(ev.kept, "failure-keeps-model") \cup ClauseIf(ev.same, "function-of-data")
         ELSE IF ev.end # "ok" THEN {"no-panic"}
         ELSE IF TooFew(s, ev.x) THEN {"too-few-rows-refused"}
         ELSE ClauseIf(ev.same, "function-of-data") \cup Sound(StOf(ev), s.k, ev.cols)
    [] ev.op = "predict" ->
         IF s.last = <<>> THEN ClauseIf(ev.end = "err", "untrained-refused")
         ELSE IF ev.cols # s.cols THEN ClauseIf(ev.end # "ok", "other-width-refused")
         ELSE ClauseIf(ev.kept, "predicting-keeps-model") \cup
              (IF ev.end = "err" THEN ClauseIf(~Safe(s.last[1]), "predicts") ELSE IF ev.end # "ok" THEN {"no-panic"} ELSE Predicts(s, ev))
    [] OTHER -> {"unknown-event"}
=============================================================================
