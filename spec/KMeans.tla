------------------------------- MODULE KMeans -------------------------------
(***************************************************************************)
(* learning::k_means.  Data rows are tuples of integers (coordinates times *)
(* a common scale), centroids tuples of Fx numbers in the same units.      *)
(* A classification is a sequence of classes 0..k-1, one per row.          *)
(***************************************************************************)
EXTENDS Knn, Functions
Fin(C) == \A c \in DOMAIN C : \A d \in DOMAIN C[c] : FxFin(C[c][d])
CD2(row, cen) == FxSum([d \in DOMAIN row |-> FxSq(FxSub(FxI(row[d]), cen[d]))])
\* class c (0-based) of row is a nearest centroid, up to rounding
NearestClass(C, row, c) == /\ c \in 0..(Len(C) - 1)
                           /\ \A j \in DOMAIN C : FxLe(CD2(row, C[c + 1]), FxAdd(FxMul(CD2(row, C[j]), FxAdd(FxOne, Eps(11))), Eps(11)))
Classified(x, C, cls) == Len(cls) = Len(x) /\ \A i \in DOMAIN x : NearestClass(C, x[i], cls[i])

Members(cls, c) == {i \in DOMAIN cls : cls[i] = c}
MeanOf(x, S) == [d \in DOMAIN x[1] |-> FxQ(FoldSet(LAMBDA i, a : a + x[i][d], 0, S), Cardinality(S))]
RowClose(a, b) == SeqClose(a, b, Eps(11))
InRange(x, cen) == \A d \in DOMAIN cen :
   /\ \E i \in DOMAIN x : FxLe(FxI(x[i][d]), FxAdd(cen[d], Eps(9)))
   /\ \E i \in DOMAIN x : FxLe(FxSub(cen[d], Eps(9)), FxI(x[i][d]))
\* C1 follows C0 by one iteration over x classified as cls
LloydStep(x, C0, cls, C1) ==
  /\ Len(C1) = Len(C0)
  /\ \A c \in DOMAIN C0 : LET S == Members(cls, c - 1) IN
       IF S = {} THEN RowClose(C1[c], C0[c]) \/ InRange(x, C1[c])
       ELSE RowClose(C1[c], MeanOf(x, S))
Cost(x, C) == FxSum([i \in DOMAIN x |-> LET ds == [c \in DOMAIN C |-> CD2(x[i], C[c])] IN FoldFunction(FxMin, ds[1], ds)])
CostFalls(x, C0, C1) == FxLe(Cost(x, C1), FxAdd(FxMul(Cost(x, C0), FxAdd(FxOne, Eps(10))), Eps(9)))

IsRow(x, cen, i) == \A d \in DOMAIN cen : cen[d] = FxI(x[i][d])
\* initial centroids taken from k different rows
FromRows(x, C) == \E f \in [DOMAIN C -> DOMAIN x] : (\A a, b \in DOMAIN C : a # b => f[a] # f[b]) /\ \A c \in DOMAIN C : IsRow(x, C[c], f[c])
\* the same, for larger data: every centroid at most as often as its row
RowsWith(x, cen) == {i \in DOMAIN x : IsRow(x, cen, i)}
DrawnFromRows(x, C) == \A c \in DOMAIN C : Cardinality(RowsWith(x, C[c])) >= Cardinality({b \in DOMAIN C : C[b] = C[c]})
Different(C) == \A a, b \in DOMAIN C : a # b => C[a] # C[b]
\* the means of the classes of some partition without empty classes
MeansOfPartition(x, C) == \E f \in [DOMAIN x -> DOMAIN C] :
   \A c \in DOMAIN C : LET S == {i \in DOMAIN x : f[i] = c} IN S # {} /\ RowClose(C[c], MeanOf(x, S))

(* laws of the initialisers: hist is a sequence of <<rows chosen, count>> of m runs *)
NearFx(cnt, e) == LET d == FxSub(FxAbs(FxSub(FxI(cnt), e)), FxOne) IN d[1] <= 0 \/ FxLe(FxSq(d), FxMul(FxI(49), FxAdd(e, FxOne)))
RowDist(x, i, S) == Min({D2(x[i], x[j]) : j \in S})
RECURSIVE PlusP(_, _, _)               \* probability of the sequence of rows under k-means++
PlusP(x, t, n) == IF n = 1 THEN FxQ(1, Len(x))
                  ELSE LET S == {t[j] : j \in 1..(n - 1)}
                           tot == FoldSet(LAMBDA i, a : a + RowDist(x, i, S), 0, DOMAIN x)
                       IN FxMul(PlusP(x, t, n - 1), FxQ(RowDist(x, t[n], S), tot))
CountOf(hist, t) == FoldLeft(LAMBDA a, h : IF h[1] = t THEN a + h[2] ELSE a, 0, hist)
Injections(n, k) == {t \in [1..k -> 1..n] : \A a, b \in 1..k : a # b => t[a] # t[b]}
PlusLaw(x, k, m, hist) == \A t \in Injections(Len(x), k) : NearFx(CountOf(hist, t), FxMul(FxI(m), PlusP(x, t, k)))
SetCount(hist, S) == FoldLeft(LAMBDA a, h : IF {h[1][i] : i \in DOMAIN h[1]} = S THEN a + h[2] ELSE a, 0, hist)
ForgyLaw(n, k, m, hist) == LET K == kSubset(k, 1..n) IN \A S \in K : NearFx(SetCount(hist, S), FxQ(m, Cardinality(K)))
\* the row chosen first and last by m initialisations of longer data (k = 2 for k-means++)
FirstUniform(n, m, c) == Len(c) = n /\ \A j \in DOMAIN c : NearFx(c[j], FxQ(m, n))
\* k of n rows, each subset alike: c[1] how often each is chosen, c[2] together with the first (the order is left open)
SubsetUniform(n, k, m, c) ==
  /\ Len(c[1]) = n /\ \A j \in 1..n : NearFx(c[1][j], FxQ(m * k, n))
  /\ Len(c[2]) = n /\ \A j \in 2..n : NearFx(c[2][j], FxQ(m * k * (k - 1), n * (n - 1)))
SecondPlus(x, m, c) == LET tot == [i \in DOMAIN x |-> FoldSet(LAMBDA r, a : a + D2(x[i], x[r]), 0, DOMAIN x)] IN
  Len(c) = Len(x) /\ \A j \in DOMAIN c : NearFx(c[j], FxMul(FxQ(m, Len(x)), FxSum([i \in DOMAIN x |-> FxQ(D2(x[i], x[j]), tot[i])])))
\* rows of a random partition that share a class with a given one: the law of the partition is left open, but each of
\* the rows behind the k-th (which may open a class) shares it with a chance of about 1/k
SharedClass(n, k, m, c) == \A j \in (k + 1)..n : LET e == FxQ(m, k) IN c[j] = m \/ NearFx(c[j], e) \/ (FxLe(e, FxI(2 * c[j])) /\ FxLe(FxI(c[j]), FxAdd(e, e)))
\* means of a partition of the unit vectors: every coordinate belongs to one class and is the inverse of its size
OfUnits(n, k, C) ==
  /\ Len(C) = k /\ \A c \in DOMAIN C : Len(C[c]) = n
  /\ LET on == [c \in DOMAIN C |-> {j \in 1..n : C[c][j] # FxZero}] IN
     /\ \A c \in DOMAIN C : on[c] # {} /\ \A j \in on[c] : FxClose(C[c][j], FxQ(1, Cardinality(on[c])), Eps(11))
     /\ \A j \in 1..n : Cardinality({c \in DOMAIN C : j \in on[c]}) = 1
\* k-means++ runs (sequences of rows), each centroid judged given those before it: chosen with probability d2 / sum d2,
\* so that the number of choices within a class A of rows is near the sum of the class's probabilities
PlusRun(x, k, t) == Len(t) = k /\ \A a \in DOMAIN t : t[a] \in DOMAIN x /\ \A b \in DOMAIN t : a # b => t[a] # t[b]
PlusClasses(x, d) == LET far == Max({d[i] : i \in DOMAIN d}) IN
   <<{i \in DOMAIN x : d[i] = far}, {i \in DOMAIN x : 2 * i > Len(x)}, {i \in DOMAIN x : i % 2 = 0}, {i \in DOMAIN x : 2 * d[i] > far}>>
\* for class number a: <<observed - expected, variance>> over centroids from..to of one run
PlusDev(x, t, a, from, to) ==
  LET term(n) == LET d == TLCEval([i \in DOMAIN x |-> RowDist(x, i, {t[j] : j \in 1..(n - 1)})])
                     tot == FoldFunction(+, 0, d)
                     A == PlusClasses(x, d)[a]
                     p == FxQ(FoldSet(LAMBDA i, s : s + d[i], 0, A), tot)
                 IN <<FxSub(IF t[n] \in A THEN FxOne ELSE FxZero, p), FxMul(p, FxSub(FxOne, p))>>
  IN FoldLeft(LAMBDA s, n : LET v == TLCEval(term(n)) IN TLCEval(<<FxAdd(s[1], v[1]), FxAdd(s[2], v[2])>>), <<FxZero, FxZero>>, [j \in 1..(to - from + 1) |-> from + j - 1])
PlusRuns(x, k, runs, from, to) == \A a \in 1..4 :
  LET s == FoldLeft(LAMBDA acc, t : LET v == TLCEval(PlusDev(x, t, a, from, to)) IN TLCEval(<<FxAdd(acc[1], v[1]), FxAdd(acc[2], v[2])>>), <<FxZero, FxZero>>, runs)
  IN FxLe(FxSq(s[1]), FxMul(FxI(36), FxAdd(s[2], FxI(4))))
AllValid(n, k, m, hist) == /\ FoldLeft(LAMBDA a, h : a + h[2], 0, hist) = m
                           /\ \A i \in DOMAIN hist : hist[i][1] \in Injections(n, k)
=============================================================================
