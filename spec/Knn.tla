-------------------------------- MODULE Knn --------------------------------
(***************************************************************************)
(* learning::knn: search structures and the classifier.                    *)
(* Rows and queries are tuples of integers (real coordinates times a       *)
(* common scale) or, for "real" data, of Fx numbers.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Fx

RECURSIVE SqFrom(_, _, _)
SqFrom(a, b, i) == IF i > Len(a) THEN 0 ELSE (a[i] - b[i]) * (a[i] - b[i]) + SqFrom(a, b, i + 1)
D2(a, b) == SqFrom(a, b, 1)
Rows(x) == DOMAIN x
NoDup(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
Ran(s) == {s[i] : i \in DOMAIN s}

\* idx: 1-based rows, d2 their squared distances to q: the k nearest rows of x?
IsNearest(x, q, k, idx, d2) ==
  /\ Len(idx) = k /\ Len(d2) = k
  /\ Ran(idx) \subseteq Rows(x) /\ NoDup(idx)
  /\ \A i \in 1..k : d2[i] = D2(x[idx[i]], q)
  /\ \A i \in 1..(k - 1) : d2[i] <= d2[i + 1]
  /\ \A r \in Rows(x) \ Ran(idx) : D2(x[r], q) >= d2[k]

\* the same for real data: distances and comparisons up to rounding
FD2(a, b) == FxSum([i \in DOMAIN a |-> FxSq(FxSub(a[i], b[i]))])
FxNearest(x, q, k, idx, d) ==
  /\ Len(idx) = k /\ Len(d) = k
  /\ Ran(idx) \subseteq Rows(x) /\ NoDup(idx)
  /\ \A i \in 1..k : FxFin(d[i])
  /\ \A i \in 1..k : FxRel(FxSq(d[i]), FD2(x[idx[i]], q), Eps(12), Eps(40))
  /\ \A i \in 1..(k - 1) : FxLe(d[i], d[i + 1])
  /\ \A r \in Rows(x) \ Ran(idx) : FxLe(FxMul(FxSq(d[k]), FxSub(FxOne, Eps(11))), FD2(x[r], q))

(* classification *)
Kth(x, q, k) == LET ds == SortSeq([r \in Rows(x) |-> D2(x[r], q)], LAMBDA a, b : a < b) IN ds[k]
\* every admissible set of k nearest rows
NearSets(x, q, k) ==
  LET m == Kth(x, q, k)
      inner == {r \in Rows(x) : D2(x[r], q) < m}
      rim == {r \in Rows(x) : D2(x[r], q) = m}
  IN {inner \union s : s \in kSubset(k - Cardinality(inner), rim)}
Votes(y, S, l) == Cardinality({r \in S : y[r] = l})
IsMajority(y, S, l) == l \in {y[r] : r \in S} /\ \A r \in S : Votes(y, S, y[r]) <= Votes(y, S, l)
IsClassDef(x, y, q, k, l) == \E S \in NearSets(x, q, k) : IsMajority(y, S, l)
\* the same without enumerating the ties: take as many rows of label l from the rim as
\* possible, the rest must fit without any other label overtaking l
IsClass(x, y, q, k, l) ==
  LET m == Kth(x, q, k)
      inner == {r \in Rows(x) : D2(x[r], q) < m}
      rim == {r \in Rows(x) : D2(x[r], q) = m}
      need == k - Cardinality(inner)
      t == Min({need, Votes(y, rim, l)})
      v == Votes(y, inner, l) + t
      others == {y[r] : r \in inner \union rim} \ {l}
  IN /\ v > 0
     /\ \A o \in others : Votes(y, inner, o) <= v
     /\ FoldSet(LAMBDA o, a : a + Min({Votes(y, rim, o), v - Votes(y, inner, o)}), 0, others) >= need - t
=============================================================================
