--------------------------------- MODULE Svm ---------------------------------
(***************************************************************************)
(* learning::svm: kernelised Pegasos (Shalev-Shwartz et al., Figure 3) on  *)
(* rows prefixed by a constant feature.                                    *)
(* For t = 1 .. T: draw i uniformly; if y_i / (lam t) Sum_j a_j y_j        *)
(* K(x_i, x_j) < 1 then a_i grows by one.                                  *)
(***************************************************************************)
EXTENDS Kernel, Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
Full(x) == <<FxOne>> \o x
Fulls(X) == [i \in DOMAIN X |-> Full(X[i])]
\* y_i y_j K(x_i, x_j)
Gram(k, X, y) == LET f == Fulls(X) IN [i \in DOMAIN X |-> [j \in DOMAIN X |-> FxMul(FxMul(y[i], y[j]), Ker(k, f[i], f[j]))]]
Weigh(a, g) == FxSum([j \in DOMAIN a |-> IF a[j] = 0 THEN FxZero ELSE FxMul(FxI(a[j]), g[j])])
Spread(a, g) == FxSum([j \in DOMAIN a |-> FxMul(FxI(a[j]), FxAbs(g[j]))])
Bump(a, i) == [a EXCEPT ![i] = @ + 1]
NoneYet(n) == [i \in 1..n |-> 0]
Violates(a, g, i, lam, t) == FxLt(Weigh(a, g[i]), FxMul(lam, FxI(t)))
\* the decision is one of rounding: a tie, unless every operation before it is exact; within tolerance of a tie
Exact(k, lam) == lam \in {FxQ(1, 4), FxQ(1, 2), FxOne, FxI(2)} /\ (k.k \in {"lin", "min"} \/ (k.k = "poly" /\ Whole(k.d) /\ WholeOf(k.d) \in 0..3))
Unclear(k, a, g, i, lam, t) ==
  LET s == Weigh(a, g[i]) m == FxMul(lam, FxI(t)) IN
  IF Exact(k, lam) THEN s = m /\ t \notin {1, 2, 4, 8, 16} ELSE FxAbsClose(s, m, FxMul(Eps(9), FxAdd(m, Spread(a, g[i]))))
\* one step of the law: d maps vectors of dual coefficients to the number of draw sequences that lead to them
Reach(d, g, lam, t) == {a \in DOMAIN d : \E i \in DOMAIN g : ~Violates(a, g, i, lam, t)} \cup UNION {{Bump(a, i) : i \in {j \in DOMAIN g : Violates(a, g, j, lam, t)}} : a \in DOMAIN d}
\* m: how many rows of the training data are alike in rows and target, each group of them being one entry of a
Many(m, S) == FoldSet(LAMBDA i, n : n + m[i], 0, S)
Ways(d, b, g, m, lam, t) ==
  LET down(i) == [b EXCEPT ![i] = @ - 1] IN
  FxAdd(IF b \in DOMAIN d THEN FxMul(FxI(Many(m, {i \in DOMAIN b : ~Violates(b, g, i, lam, t)})), d[b]) ELSE FxZero,
        FxSum([i \in DOMAIN b |-> IF b[i] > 0 /\ down(i) \in DOMAIN d /\ Violates(down(i), g, i, lam, t) THEN FxMul(FxI(m[i]), d[down(i)]) ELSE FxZero]))
\* the scale of a law is of no account, so a certain state weighs one
Step(d, g, m, lam, t) == TLCEval(LET r == Reach(d, g, lam, t) IN [b \in r |-> IF Cardinality(r) = 1 THEN FxOne ELSE Ways(d, b, g, m, lam, t)])
\* <<law after t steps, whether every decision on the way was clear>>
RECURSIVE LawFrom(_, _, _, _, _, _, _)
LawFrom(k, d, g, m, lam, t, T) ==
  IF t > T THEN <<d, TRUE>>
  ELSE IF \E a \in DOMAIN d, i \in DOMAIN g : Unclear(k, a, g, i, lam, t) THEN <<d, FALSE>>
  ELSE LawFrom(k, Step(d, g, m, lam, t), g, m, lam, t + 1, T)
\* which of several that are alike is drawn makes no difference: of each group the first row stands for all
Firsts(X, y) == TLCEval(SelectSeq([i \in DOMAIN X |-> i], LAMBDA i : ~ \E j \in 1..(i - 1) : y[j] = y[i] /\ X[j] = X[i]))
Pick(s, I) == [i \in DOMAIN I |-> s[I[i]]]
Law(k, X, y, lam, T) ==
  LET F == Firsts(X, y) m == TLCEval([i \in DOMAIN F |-> Cardinality({j \in DOMAIN X : y[j] = y[F[i]] /\ X[j] = X[F[i]]})]) IN
  LawFrom(k, TLCEval([a \in {NoneYet(Len(F))} |-> FxOne]), TLCEval(Gram(k, Pick(X, F), Pick(y, F))), m, lam, 1, T)
\* the expansion at queries
Columns(k, X, y, Q) == TLCEval(LET f == Fulls(X) h == Fulls(Q) IN [i \in DOMAIN Q |-> [j \in DOMAIN X |-> FxMul(y[j], Ker(k, h[i], f[j]))]])
\* 1 or -1; 0: too close to call
Side(a, c) == LET s == Weigh(a, c) IN IF FxLe(FxAbs(s), FxMul(Eps(9), Spread(a, c))) THEN 0 ELSE s[1]
Sides(a, cs) == [i \in DOMAIN cs |-> Side(a, cs[i])]
Fits(out, sides) == Len(out) = Len(sides) /\ \A i \in DOMAIN out : out[i] \in {1, -1} /\ (sides[i] = 0 \/ out[i] = sides[i])
RECURSIVE AddUp(_, _)
AddUp(d, S) == IF S = {} THEN FxZero ELSE LET e == CHOOSE e \in S : TRUE IN FxAdd(d[e], AddUp(d, S \ {e}))
=============================================================================
