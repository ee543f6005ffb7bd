------------------------------- MODULE Extend -------------------------------
(***************************************************************************)
(* Parts supplied by the user: class distributions, neighbour searches,    *)
(* GLM families, network criteria and activations, optimisers, cluster     *)
(* initialisers.  What the library asks of them, and                       *)
(* what it makes of their answers.                                         *)
(***************************************************************************)
EXTENDS Knn, TLC
Occ(s, v) == Cardinality({i \in DOMAIN s : s[i] = v})
Bag(s, t) == Len(s) = Len(t) /\ \A v \in Ran(s) : Occ(s, v) = Occ(t, v)
Flat(m) == FoldLeft(LAMBDA a, r : a \o r, <<>>, m)
Sum(s) == FoldLeft(LAMBDA a, v : a + v, 0, s)

(********************** distributions of naive Bayes **********************)
Indices(cls, c) == SelectSeq([i \in DOMAIN cls |-> i], LAMBDA i : cls[i] = c)
RowsOf(x, cls, c) == LET ix == Indices(cls, c) IN [j \in DOMAIN ix |-> x[ix[j]]]
\* ups: the calls [class, rows]; every class that has rows is handed exactly these, once
OwnRows(x, cls, ups) == \A u \in DOMAIN ups : ups[u].class \in Ran(cls) /\ Bag(ups[u].rows, RowsOf(x, cls, ups[u].class))
OnceEach(ups) == \A u, v \in DOMAIN ups : u # v => ups[u].class # ups[v].class
AllClasses(cls, ups) == {ups[u].class : u \in DOMAIN ups} = Ran(cls)

(**************************** neighbour searches ***************************)
Ballots(y, idx, l) == Cardinality({j \in DOMAIN idx : y[idx[j]] = l})
Elected(y, idx, l) == Ballots(y, idx, l) > 0 /\ \A j \in DOMAIN idx : Ballots(y, idx, y[idx[j]]) <= Ballots(y, idx, l)

(*************************** networks on integers **************************)
\* one Linear layer (d inputs and a bias, o outputs) below an activation a u + b whose reported derivative is y + 4
Row1(r) == <<1>> \o r
Dot(s, t) == Sum([i \in DOMAIN s |-> s[i] * t[i]])
Col(w, o, j) == [i \in 1..(Len(w) \div o) |-> w[(i - 1) * o + j]]
Out(act, w, o, x) == [i \in DOMAIN x |-> [j \in 1..o |-> act[1] * Dot(Row1(x[i]), Col(w, o, j)) + act[2]]]
CostOf(kind, y, t) == IF kind = "type" THEN 2 * Sum(Flat(y)) - Sum(Flat(t)) + 10 ELSE Sum([i \in DOMAIN Flat(y) |-> Flat(y)[i] * Flat(t)[i]]) + 5
SlopeOf(kind, y, t) == IF kind = "type" THEN 2 * y + t ELSE y - 2 * t
Backed(kind, act, w, o, x, t) ==
  LET y == Out(act, w, o, x) IN TLCEval(
  [n \in 1..Len(w) |-> LET i == ((n - 1) \div o) + 1  j == ((n - 1) % o) + 1 IN
     Sum([r \in DOMAIN x |-> Row1(x[r])[i] * SlopeOf(kind, y[r][j], t[r][j]) * (y[r][j] + 4)])])
\* penalties of the user's own count exactly when the criterion says it is regularised
Pays(reg) == reg \in {"own", "on"}
RegCost(w) == Sum([i \in DOMAIN w |-> i * w[i]]) + 7
RegSlope(w) == [i \in DOMAIN w |-> 3 * w[i] + i]
NetCost(kind, reg, act, w, o, x, t) == CostOf(kind, Out(act, w, o, x), t) + (IF Pays(reg) THEN RegCost(w) ELSE 0)
NetSlope(kind, reg, act, w, o, x, t) == LET g == Backed(kind, act, w, o, x, t) IN IF Pays(reg) THEN [i \in DOMAIN g |-> g[i] + RegSlope(w)[i]] ELSE g

(******************************* GLM families ******************************)
\* coefficients b solve the weighted least squares problem of weights w and working response z on the rows x (with constant)
FRow(r) == <<FxOne>> \o r
Solves(x, w, z, b) == \A j \in DOMAIN b :
  LET t == [i \in DOMAIN x |-> FxMul(FxMul(FRow(x[i])[j], w[i]), FxSub(FxDot(FRow(x[i]), b), z[i]))]
      m == [i \in DOMAIN x |-> FxMul(FxAbs(FxMul(FRow(x[i])[j], w[i])), FxAdd(FxAbs(FxDot(FRow(x[i]), b)), FxAbs(z[i])))]
  IN FxLe(FxAbs(FxSum(t)), FxMul(Eps(6), FxSum(m)))
=============================================================================
