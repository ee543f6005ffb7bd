------------------------------ MODULE GradDesc ------------------------------
(***************************************************************************)
(* learning::optim::grad_desc.  A run visits parameters; each call of the  *)
(* objective yields a cost and a gradient there, and the update rule makes *)
(* the next parameters of them and of the memory mem of the run:           *)
(*  gd       w - alpha g                                                   *)
(*  sgd      v' = alpha v + mu g, w' = w + alpha v - (1 + alpha) v', which *)
(*           is Nesterov's momentum seen from the point looked ahead at    *)
(*  adagrad  s' = s + g^2, w' = w - alpha g / (tau + sqrt s')              *)
(*  rms      s' = d s + (1 - d) g^2, w' = w - r g / sqrt(s' + eps)         *)
(***************************************************************************)
EXTENDS RandTools, Fx
\* is the configuration within the documented range?
InRange(kind, p) == CASE kind = "gd" -> p[1][1] = 1 [] kind = "sgd" -> p[1][1] = 1 /\ p[2][1] = 1
                      [] kind = "adagrad" -> p[1][1] = 1 /\ p[2][1] \in {0, 1}
                      [] OTHER -> p[1][1] = 1 /\ p[2][1] = 1 /\ FxLt(p[2], FxOne) /\ p[3][1] = 1
Finite(p) == \A i \in DOMAIN p : FxFin(p[i])
Defaults(kind) == CASE kind = "gd" -> <<<<FxQ(3, 10)>>, 100>> [] kind = "sgd" -> <<<<FxQ(1, 10), FxQ(1, 10)>>, 20>>
                    [] kind = "adagrad" -> <<<<FxOne, FxI(3)>>, 100>> [] OTHER -> <<<<FxQ(1, 100), FxQ(9, 10), Eps(5)>>, 50>>
MemStart(w) == [j \in DOMAIN w |-> FxZero]
MemNext(kind, p, m, g) == [j \in DOMAIN g |->
  CASE kind = "gd" -> FxZero
    [] kind = "sgd" -> FxAdd(FxMul(p[2], g[j]), FxMul(p[1], m[j]))
    [] kind = "adagrad" -> FxAdd(m[j], FxSq(g[j]))
    [] OTHER -> FxAdd(FxMul(p[2], m[j]), FxMul(FxSub(FxOne, p[2]), FxSq(g[j])))]
\* what is subtracted from the parameters, and the size of its terms
Step(kind, p, m, m1, g) == [j \in DOMAIN g |->
  CASE kind = "gd" -> LET d == FxMul(p[1], g[j]) IN <<d, FxAbs(d)>>
    [] kind = "sgd" -> LET a == FxMul(p[1], m[j]) b == FxMul(FxAdd(FxOne, p[1]), m1[j]) IN
                       <<FxSub(b, a), FxAdd(FxAbs(a), FxMul(FxAdd(FxOne, p[1]), FxAdd(FxMul(p[2], FxAbs(g[j])), FxAbs(a))))>>
    [] kind = "adagrad" -> LET z == FxAdd(p[2], FxSqrt(m1[j])) d == IF z[1] = 0 THEN FxZero ELSE FxDiv(FxMul(p[1], g[j]), z) IN <<d, FxAbs(d)>>
    [] OTHER -> LET d == FxDiv(FxMul(p[1], g[j]), FxSqrt(FxAdd(m1[j], p[3]))) IN <<d, FxAbs(d)>>]
Moved(w, step, to, tol) == Len(to) = Len(w) /\ \A j \in DOMAIN w :
  FxAbsClose(to[j], FxSub(w[j], step[j][1]), FxAdd(Eps(60), FxMul(tol, FxAdd(FxAbs(w[j]), step[j][2]))))
\* costs of an epoch's calls so close to the previous epoch's that stopping is allowed (10^-20, up to rounding of the sums)
Settled(prev, cost, n, tol) == FxLe(FxAbs(FxSub(FxDiv(FxSum(prev), FxI(n)), FxDiv(FxSum(cost), FxI(n)))),
  FxAdd(Eps(20), FxMul(tol, FxAdd(FxSum([i \in DOMAIN prev |-> FxAbs(prev[i])]), FxSum([i \in DOMAIN cost |-> FxAbs(cost[i])])))))
=============================================================================
