--------------------------------- MODULE Gmm ---------------------------------
(***************************************************************************)
(* learning::gmm.  A mixture st: weights w, means mu and covariances cov   *)
(* of its components.  opt: "full", "reg" (eps on the diagonal), "diag".   *)
(***************************************************************************)
EXTENDS Lin
Decay(a) == IF FxLe(FxI(150), a) THEN FxZero ELSE FxExp(FxNeg(a))
Half(a) == FxDiv(a, FxI(2))
Minus(a, b) == TLCEval([c \in DOMAIN a |-> FxSub(a[c], b[c])])
\* squared Mahalanobis distance, a the inverse of the covariance
Maha(x, mu, a) == LET d == Minus(x, mu) IN FxDot(d, MatVec(a, d))
Invs(st) == TLCEval([j \in DOMAIN st.cov |-> Inv(st.cov[j], FxZero)])
Heights(st) == TLCEval([j \in DOMAIN st.cov |-> FxDiv(st.w[j], FxSqrt(Det(st.cov[j])))])
Mahas(st, invs, x) == TLCEval([j \in DOMAIN st.mu |-> Maha(x, st.mu[j], invs[j])])
Live(st) == {j \in DOMAIN st.w : st.w[j][1] # 0}
Low(S) == CHOOSE m \in S : \A v \in S : FxLe(m, v)
\* responsibilities of the components for a row
RespOf(st, hs, ms) ==
  LET lo == Low({ms[j] : j \in Live(st)})
      e == [j \in DOMAIN ms |-> IF j \in Live(st) THEN FxMul(hs[j], Decay(Half(FxSub(ms[j], lo)))) ELSE FxZero]
      t == FxSum(e) IN
  TLCEval([j \in DOMAIN ms |-> FxDiv(e[j], t)])
Resp(st, invs, hs, X) == TLCEval([i \in DOMAIN X |-> RespOf(st, hs, Mahas(st, invs, X[i]))])
\* log likelihood of the data, up to the constant of the Gaussian density
LogLik(st, invs, hs, X) == FxSum([i \in DOMAIN X |-> FxLn(FxSum([j \in DOMAIN st.w |-> FxMul(hs[j], Decay(Half(Maha(X[i], st.mu[j], invs[j])))) ]))])
\* estimates from responsibilities r
Share(r, j) == FxSum(Column(r, j))
Weighted(r, X, j, f(_)) == FxDiv(FxSum([i \in DOMAIN X |-> FxMul(r[i][j], f(X[i]))]), Share(r, j))
MeanOf(r, X, j) == TLCEval([c \in DOMAIN X[1] |-> Weighted(r, X, j, LAMBDA x : x[c])])
CovOf(r, X, j, mu, opt, eps) == TLCEval([c \in DOMAIN mu |-> [d \in DOMAIN mu |->
   IF opt = "diag" /\ c # d THEN FxZero
   ELSE FxAdd(Weighted(r, X, j, LAMBDA x : FxMul(FxSub(x[c], mu[c]), FxSub(x[d], mu[d]))), IF opt = "reg" /\ c = d THEN eps ELSE FxZero)]])
\* a component responsible for nothing keeps its mean and covariance
Update(st, r, X, opt, eps) ==
  LET mu == TLCEval([j \in DOMAIN st.w |-> IF Share(r, j)[1] = 0 THEN st.mu[j] ELSE MeanOf(r, X, j)]) IN
  [w |-> TLCEval([j \in DOMAIN st.w |-> FxDiv(Share(r, j), FxI(Len(X)))]), mu |-> mu,
   cov |-> TLCEval([j \in DOMAIN st.w |-> IF Share(r, j)[1] = 0 THEN st.cov[j] ELSE CovOf(r, X, j, mu[j], opt, eps)])]
\* sample covariance, the start of every component
Avg(X, c) == FxDiv(FxSum([i \in DOMAIN X |-> X[i][c]]), FxI(Len(X)))
Scatter(X, c, d) == FxDiv(FxSum([i \in DOMAIN X |-> FxMul(FxSub(X[i][c], Avg(X, c)), FxSub(X[i][d], Avg(X, d)))]), FxI(Len(X) - 1))
StartCov(X, opt, eps) == LET n == Len(X[1]) IN TLCEval([c \in 1..n |-> [d \in 1..n |-> IF opt = "diag" /\ c # d THEN FxZero ELSE FxAdd(Scatter(X, c, d), IF opt = "reg" /\ c = d THEN eps ELSE FxZero)]])
Prior(p) == LET t == FxSum(p) IN TLCEval([j \in DOMAIN p |-> FxDiv(p[j], t)])
=============================================================================
