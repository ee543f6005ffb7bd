-------------------------------- MODULE GmmMC --------------------------------
(***************************************************************************)
(* Expectation maximisation on every small data set from every start.      *)
(* Lag: covariances taken around the means before the update.  Shared: the *)
(* regularisation is divided by the component's share, as the crate did.   *)
(***************************************************************************)
\* ACTIONS Train Step Collapse Keep
EXTENDS Gmm, FiniteSets
CONSTANTS Opt, Dim, Sizes, Coords, K, Steps, Trainings, Lag, Shared
VARIABLES x, st, prev, phase, n, fit, rounds
vars == <<x, st, prev, phase, n, fit, rounds>>
E0 == FxQ(1, 4)
Xm == [i \in DOMAIN x |-> [c \in 1..Dim |-> FxI(x[i][c])]]
Points == [1..Dim -> Coords]
\* rows in order: data are bags
Leq(a, b) == \A c \in 1..Dim : a[c] <= b[c]
Data(m) == {d \in [1..m -> Points] : \A i \in 1..(m - 1) : Leq(d[i], d[i + 1]) \/ ~Leq(d[i + 1], d[i])}
Priors == {[j \in 1..K |-> FxQ(1, K)], [j \in 1..K |-> FxQ(2 * j, K * (K + 1))]}
Init == x = <<>> /\ st = <<>> /\ prev = <<>> /\ phase = "idle" /\ n = 0 /\ fit = <<>> /\ rounds = 0
Ok(s) == \A j \in DOMAIN s.cov : Inv(s.cov[j], Eps(6)) # <<>>
Train == /\ phase = "idle" /\ n < Trainings /\ n' = n + 1
         /\ \E m \in Sizes : \E d \in Data(m) : x' = d
         /\ \E s \in {f \in [1..K -> DOMAIN x'] : \A i, j \in 1..K : i < j => f[i] < f[j]}, p \in Priors :
              st' = [w |-> p, mu |-> [j \in 1..K |-> Xm'[s[j]]], cov |-> [j \in 1..K |-> StartCov(Xm', Opt, E0)]]
         /\ prev' = <<>> /\ phase' = "fit" /\ rounds' = 0 /\ UNCHANGED fit
R == Resp(st, Invs(st), Heights(st), Xm)
Around(r, j, mu) == [c \in 1..Dim |-> [d \in 1..Dim |-> IF Opt = "diag" /\ c # d THEN FxZero ELSE Weighted(r, Xm, j, LAMBDA v : FxMul(FxSub(v[c], mu[c]), FxSub(v[d], mu[d])))]]
Shares(r, u) == [u EXCEPT !.cov = [j \in 1..K |-> [c \in 1..Dim |-> [d \in 1..Dim |-> IF c = d THEN FxAdd(FxSub(u.cov[j][c][d], E0), FxDiv(E0, Share(r, j))) ELSE u.cov[j][c][d]]]]]
Step == /\ phase = "fit" /\ rounds < Steps /\ Ok(st)
        /\ LET r == R u == Update(st, r, Xm, Opt, E0) IN
             st' = TLCEval(IF Lag THEN [u EXCEPT !.cov = [j \in 1..K |-> Around(r, j, st.mu[j])]] ELSE IF Shared THEN Shares(r, u) ELSE u)
        /\ prev' = st /\ rounds' = rounds + 1 /\ UNCHANGED <<x, phase, n, fit>>
Collapse == phase = "fit" /\ rounds < Steps /\ ~Ok(st) /\ phase' = "idle" /\ st' = <<>> /\ prev' = <<>> /\ UNCHANGED <<x, n, fit, rounds>>
Keep == phase = "fit" /\ rounds = Steps /\ fit' = <<x, st>> /\ phase' = "idle" /\ prev' = <<>> /\ UNCHANGED <<x, st, n, rounds>>
Next == Train \/ Step \/ Collapse \/ Keep
Spec == Init /\ [][Next]_vars
Slack == Eps(15)
Fitting == phase = "fit"
SumsToOne == Fitting => FxAbsClose(FxSum(st.w), FxOne, Slack) /\ \A j \in 1..K : st.w[j][1] >= 0
\* every row is shared out whole
Whole == Fitting /\ Ok(st) => \A i \in DOMAIN x : FxAbsClose(FxSum(R[i]), FxOne, Slack) /\ \A j \in 1..K : R[i][j][1] >= 0
\* a round keeps the mean and (without regularisation) the second moments of the data
KeepsMean == Fitting /\ rounds > 0 => \A c \in 1..Dim : FxAbsClose(FxSum([j \in 1..K |-> FxMul(st.w[j], st.mu[j][c])]), Avg(Xm, c), Slack)
Second(c) == FxDiv(FxSum([i \in DOMAIN x |-> FxSq(Xm[i][c])]), FxI(Len(x)))
KeepsSecond == Fitting /\ rounds > 0 =>
  \A c \in 1..Dim : FxAbsClose(FxSum([j \in 1..K |-> FxMul(st.w[j], FxAdd(st.cov[j][c][c], FxSq(st.mu[j][c])))]), FxAdd(Second(c), IF Opt = "reg" THEN E0 ELSE FxZero), Slack)
Floors == Fitting => \A j \in 1..K, c \in 1..Dim : FxLe(IF Opt = "reg" THEN FxSub(E0, Slack) ELSE FxNeg(Slack), st.cov[j][c][c])
Symmetric == Fitting => \A j \in 1..K, c, d \in 1..Dim : st.cov[j][c][d] = st.cov[j][d][c]
\* no round makes the data less likely (exact estimates maximise what the round maximises)
Climbs == Fitting /\ prev # <<>> /\ Opt # "reg" /\ Ok(st) => FxLe(LogLik(prev, Invs(prev), Heights(prev), Xm), FxAdd(LogLik(st, Invs(st), Heights(st), Xm), Slack))
\* components swapped in the start are swapped throughout: the round does not depend on their order
Flip(s) == [w |-> <<s.w[2], s.w[1]>>, mu |-> <<s.mu[2], s.mu[1]>>, cov |-> <<s.cov[2], s.cov[1]>>]
Orderless == Fitting /\ prev # <<>> /\ K = 2 /\ ~Lag /\ ~Shared => Update(Flip(prev), Resp(Flip(prev), Invs(Flip(prev)), Heights(Flip(prev)), Xm), Xm, Opt, E0) = Flip(st)
FailedKeeps == [][phase = "fit" /\ phase' = "idle" => fit' = fit \/ (rounds = Steps /\ fit' = <<x, st>>)]_vars
=============================================================================
