--------------------------------- MODULE Pca ---------------------------------
(***************************************************************************)
(* learning::pca.  D: the directions kept, one per row.                    *)
(***************************************************************************)
EXTENDS Lin
Mean(X, cols) == TLCEval([c \in 1..cols |-> FxDiv(FxSum([i \in DOMAIN X |-> X[i][c]]), FxI(Len(X)))])
Zero(cols) == [c \in 1..cols |-> FxZero]
CentreOf(X, cols, center) == IF center THEN Mean(X, cols) ELSE Zero(cols)
Shift(X, m) == TLCEval([i \in DOMAIN X |-> [c \in DOMAIN m |-> FxSub(X[i][c], m[c])]])
\* sum of the squares and products of the centred data
Scatter(Y, cols) == TLCEval([c \in 1..cols |-> [d \in 1..cols |-> FxSum([i \in DOMAIN Y |-> FxMul(Y[i][c], Y[i][d])])]])
Flip(m, cols) == TLCEval([c \in 1..cols |-> [i \in DOMAIN m |-> m[i][c]]])
Quad(C, u, v) == FxDot(u, MatVec(C, v))
Project(D, m, q) == TLCEval([k \in DOMAIN D |-> FxDot([c \in DOMAIN m |-> FxSub(q[c], m[c])], D[k])])
Orthonormal(D, tol) == \A a, b \in DOMAIN D : FxAbsClose(FxDot(D[a], D[b]), IF a = b THEN FxOne ELSE FxZero, tol)
Uncorrelated(D, C, tol) == \A a, b \in DOMAIN D : a # b => FxLe(FxAbs(Quad(C, D[a], D[b])), tol)
Descending(D, C, tol) == \A a \in 1..(Len(D) - 1) : FxLe(Quad(C, D[a + 1], D[a + 1]), FxAdd(Quad(C, D[a], D[a]), tol))
\* no direction orthogonal to D has more variance than the last one kept: v I - (C without D) has no negative eigenvalue
Rest(D, C) == LET v == TLCEval([k \in DOMAIN D |-> Quad(C, D[k], D[k])]) IN
  TLCEval([i \in DOMAIN C |-> [j \in DOMAIN C |-> FxSub(C[i][j], FxSum([k \in DOMAIN D |-> FxMul(v[k], FxMul(D[k][i], D[k][j])) ]))]])
Greatest(D, C, tol) ==
  LET v == FxAdd(Quad(C, D[Len(D)], D[Len(D)]), tol) r == Rest(D, C) IN
  LET p == Pivots(TLCEval([i \in DOMAIN C |-> [j \in DOMAIN C |-> FxSub(IF i = j THEN v ELSE FxZero, r[i][j])]])) IN
  \A i \in DOMAIN p : p[i][1] = 1
=============================================================================
