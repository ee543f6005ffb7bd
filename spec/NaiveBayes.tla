----------------------------- MODULE NaiveBayes -----------------------------
(***************************************************************************)
(* learning::naive_bayes.  Training data: rows x, cls[i] the class of row  *)
(* i (0: the target row has no entry 1), of which there are classes.  The  *)
(* posterior of a class is its frequency times the product over features   *)
(* of the likelihood under the law fitted to the rows of the class.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Fx
RowsOf(cls, c) == SelectSeq([i \in DOMAIN cls |-> i], LAMBDA i : cls[i] = c)
ColIn(x, rs, j) == [k \in DOMAIN rs |-> x[rs[k]][j]]
MeanOf(s) == FxDiv(FxSum(s), FxI(Len(s)))
VarOf(s) == LET m == MeanOf(s) IN FxDiv(FxSum([i \in DOMAIN s |-> FxSq(FxSub(s[i], m))]), FxI(Len(s) - 1))
Constant(s) == \A i \in DOMAIN s : s[i] = s[1]
Impossible(kind, x, cls, classes, cols, nt) ==
  \/ nt # Len(x)
  \/ \E i \in DOMAIN cls : cls[i] = 0
  \/ kind = "gaussian" /\ \E c \in 1..classes : LET rs == RowsOf(cls, c) IN rs # <<>> /\ (Len(rs) = 1 \/ \E j \in 1..cols : Constant(ColIn(x, rs, j)))
\* fitted: a sequence over the classes, <<>> for those without rows
LawOf(kind, x, rs, cols) ==
  CASE kind = "gaussian" -> [j \in 1..cols |-> <<MeanOf(ColIn(x, rs, j)), VarOf(ColIn(x, rs, j))>>]
    [] kind = "bernoulli" -> [j \in 1..cols |-> FxDiv(FxAdd(FxSum(ColIn(x, rs, j)), FxOne), FxI(Len(rs) + 2))]
    [] OTHER -> LET t == [j \in 1..cols |-> FxAdd(FxSum(ColIn(x, rs, j)), FxOne)] IN [j \in 1..cols |-> FxDiv(t[j], FxSum(t))]
FitOf(kind, x, cls, classes, cols) ==
  [c \in 1..classes |-> LET rs == RowsOf(cls, c) IN
     IF rs = <<>> THEN [n |-> 0, law |-> <<>>, cst |-> <<>>, lprior |-> FxZero] ELSE
     LET law == LawOf(kind, x, rs, cols) IN
     [n |-> Len(rs), law |-> law, lprior |-> FxLn(FxQ(Len(rs), Len(cls))),
      \* logarithms of the law's constants, once per fit
      cst |-> [j \in 1..cols |-> CASE kind = "gaussian" -> <<FxDiv(FxLn(FxMul(FxI(2), FxMul(FxPi, law[j][2]))), FxI(-2))>>
                                   [] kind = "bernoulli" -> <<FxLn(law[j]), FxLn(FxSub(FxOne, law[j]))>>
                                   [] OTHER -> <<FxLn(law[j])>>]]]
\* <<log likelihood of one feature, size of its terms>>
Feature(kind, law, cst, v) ==
  CASE kind = "gaussian" -> LET d == FxSub(v, law[1]) q == FxDiv(FxDiv(FxSq(d), law[2]), FxI(-2)) IN <<FxAdd(cst[1], q), FxAdd(FxAbs(cst[1]), FxMul(FxAbs(q), FxI(2)))>>
    [] kind = "bernoulli" -> LET t == FxAdd(FxMul(v, cst[1]), FxMul(FxSub(FxOne, v), cst[2])) IN <<t, FxMul(FxAdd(FxAbs(cst[1]), FxAbs(cst[2])), FxAdd(FxOne, FxAbs(v)))>>
    [] OTHER -> LET t == FxMul(v, cst[1]) IN <<t, FxAbs(t)>>
LogPost(kind, f, q) == LET t == [j \in DOMAIN q |-> Feature(kind, f.law[j], f.cst[j], q[j])] IN
  <<FxAdd(f.lprior, FxSum([j \in DOMAIN q |-> t[j][1]])), FxAdd(FxOne, FxAdd(FxAbs(f.lprior), FxSum([j \in DOMAIN q |-> t[j][2]])))>>
=============================================================================
