-------------------------------- MODULE PcaMC --------------------------------
(***************************************************************************)
(* Principal components of every small data set by Jacobi rotations, kept  *)
(* as the program keeps them: one column per component, or one row if the  *)
(* data were wider than high, with a flag that says which.                 *)
(* Sticky: the flag survives training on higher data; Columns: of wide     *)
(* data columns are kept instead of rows; both as the crate once did.      *)
(***************************************************************************)
\* ACTIONS Train Rotate Keep Refuse
EXTENDS Pca, FiniteSets
CONSTANTS Dims, Rows, Coords, Ns, Trainings, Centers, Sticky, Columns       \* Ns: components asked for, 0: all
VARIABLES x, cols, center, want, A, V, phase, fit, n
vars == <<x, cols, center, want, A, V, phase, fit, n>>
Real(d, w) == [i \in DOMAIN d |-> [c \in 1..w |-> FxI(d[i][c])]]
Xm == Real(x, cols)
Scat(d, w) == Scatter(Shift(Real(d, w), CentreOf(Real(d, w), w, center)), w)
Y == Shift(Xm, CentreOf(Xm, cols, center))
C == Scat(x, cols)
Wide == cols > Len(x)
Most == IF Wide THEN Len(x) ELSE cols
None == [comp |-> <<>>, inv |-> FALSE, centre |-> <<>>, cols |-> 0, dirs |-> <<>>]
Init == /\ x = <<>> /\ cols = 0 /\ center \in Centers /\ want \in Ns /\ A = <<>> /\ V = <<>> /\ phase = "idle" /\ fit = None /\ n = 0
Data == UNION {{<<w, d>> : d \in [1..m -> [1..w -> Coords]]} : w \in Dims, m \in Rows}
Limit(w, d) == IF w > Len(d) THEN Len(d) ELSE w
Train == /\ phase = "idle" /\ n < Trainings /\ n' = n + 1
         /\ \E e \in Data : want <= Limit(e[1], e[2]) /\ cols' = e[1] /\ x' = e[2] /\ A' = Scat(e[2], e[1]) /\ V' = Unit(e[1])
         /\ phase' = "turn" /\ UNCHANGED <<center, want, fit>>
Refuse == /\ phase = "idle" /\ n < Trainings /\ n' = n + 1
          /\ \E e \in Data : want > Limit(e[1], e[2]) /\ cols' = e[1] /\ x' = e[2]
          /\ UNCHANGED <<center, want, A, V, phase, fit>>
Small == Eps(30)
Off == {o \in (DOMAIN A) \X (DOMAIN A) : o[1] < o[2] /\ FxLt(Small, FxAbs(A[o[1]][o[2]]))}
Biggest == CHOOSE o \in Off : \A r \in Off : FxLe(FxAbs(A[r[1]][r[2]]), FxAbs(A[o[1]][o[2]]))
\* the rotation that makes A[p][q] zero
Tan(p, q) == LET z == FxDiv(FxSub(A[q][q], A[p][p]), FxMul(FxI(2), A[p][q])) r == FxSqrt(FxAdd(FxOne, FxSq(z))) IN
  IF z[1] >= 0 THEN FxDiv(FxOne, FxAdd(z, r)) ELSE FxDiv(FxOne, FxSub(z, r))
Cos(t) == FxDiv(FxOne, FxSqrt(FxAdd(FxOne, FxSq(t))))
Turned(m, p, q, c, s) == [i \in DOMAIN m |-> [j \in DOMAIN m |-> IF j = p THEN FxSub(FxMul(c, m[i][p]), FxMul(s, m[i][q])) ELSE IF j = q THEN FxAdd(FxMul(s, m[i][p]), FxMul(c, m[i][q])) ELSE m[i][j]]]
Rotate == /\ phase = "turn" /\ Off # {}
          /\ LET p == Biggest[1] q == Biggest[2] t == Tan(p, q) c == Cos(t) s == FxMul(t, c) IN
               /\ A' = TLCEval(Flip(Turned(Flip(Turned(A, p, q, c, s), cols), p, q, c, s), cols))
               /\ V' = TLCEval(Turned(V, p, q, c, s))
          /\ UNCHANGED <<x, cols, center, want, phase, fit, n>>
\* positions by falling variance
Order == CHOOSE f \in {g \in [1..cols -> 1..cols] : {g[i] : i \in 1..cols} = 1..cols} : \A i \in 1..(cols - 1) : FxLe(A[f[i + 1]][f[i + 1]], A[f[i]][f[i]])
Dirs(k) == [i \in 1..k |-> Column(V, Order[i])]
Count == IF want = 0 THEN Most ELSE want
Keep == /\ phase = "turn" /\ Off = {}
        /\ fit' = [comp |-> TLCEval(IF Wide THEN (IF Columns THEN [i \in 1..Most |-> SubSeq(Dirs(Most)[i], 1, Count)] ELSE Dirs(Count)) ELSE Flip(Dirs(Count), cols)),
                   inv |-> IF Sticky THEN fit.inv \/ Wide ELSE Wide, centre |-> CentreOf(Xm, cols, center), cols |-> cols, dirs |-> TLCEval(Dirs(Count))]
        /\ phase' = "idle" /\ UNCHANGED <<x, cols, center, want, A, V, n>>
Next == Train \/ Refuse \/ Rotate \/ Keep
Spec == Init /\ [][Next]_vars
Slack == Eps(20)
Turning == phase = "turn"
\* the program's prediction: data times the stored matrix, or its transpose
Apply(q) == LET y == [c \in 1..fit.cols |-> FxSub(q[c], fit.centre[c])] IN
  IF fit.inv THEN [k \in DOMAIN fit.comp |-> FxDot(y, fit.comp[k])] ELSE [k \in DOMAIN fit.comp[1] |-> FxDot(y, Column(fit.comp, k))]
Orthogonal == Turning => Orthonormal(V, Slack)
SameMatrix == Turning => \A i, j \in DOMAIN A : FxAbsClose(A[i][j], Quad(C, Column(V, i), Column(V, j)), Slack)
OffSum == FxSum([i \in DOMAIN A |-> FxSum([j \in DOMAIN A |-> IF i = j THEN FxZero ELSE FxSq(A[i][j])])])
Approaches == [][phase = "turn" /\ phase' = "turn" => FxLe(OffSum', OffSum)]_vars

\* of the last training (a refusal changes x only)
Principal == phase = "turn" /\ Off = {} => LET D == Dirs(Count) IN Orthonormal(D, Slack) /\ Uncorrelated(D, C, Slack) /\ Descending(D, C, Slack) /\ Greatest(D, C, Slack)
\* directions of small whole numbers have no more variance than the first
Steps == {d \in [1..cols -> -2..2] : \E c \in 1..cols : d[c] # 0}
First == phase = "turn" /\ Off = {} => LET v == Quad(C, Dirs(1)[1], Dirs(1)[1]) IN
  \A d \in Steps : LET u == [c \in 1..cols |-> FxI(d[c])] IN FxLe(Quad(C, u, u), FxAdd(FxMul(v, FxDot(u, u)), Slack))
Points == {[c \in 1..fit.cols |-> IF c = 1 THEN FxI(2) ELSE FxI(-c)], [c \in 1..fit.cols |-> FxI(c)]}
Shaped == fit # None => LET k == Len(fit.dirs) IN Len(fit.comp) = (IF fit.inv THEN k ELSE fit.cols) /\ \A i \in DOMAIN fit.comp : Len(fit.comp[i]) = (IF fit.inv THEN fit.cols ELSE k)
AsProjected == fit # None /\ Shaped => \A q \in Points : Apply(q) = Project(fit.dirs, fit.centre, q)
\* with all directions of the data kept the data come back
Rebuilds == phase = "turn" /\ Off = {} /\ Count = Most => \A i \in DOMAIN x : LET p == [k \in 1..Count |-> FxDot(Y[i], Dirs(Count)[k])] IN
  \A c \in 1..cols : FxAbsClose(Y[i][c], FxSum([k \in 1..Count |-> FxMul(p[k], Dirs(Count)[k][c])]), Slack)
=============================================================================
