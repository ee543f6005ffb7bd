------------------------------- MODULE Dbscan -------------------------------
(***************************************************************************)
(* learning::dbscan.  Rows are tuples of integers (coordinates times a     *)
(* common scale), e2 the squared radius in the same units, m min_points.   *)
(* A label is -1 for noise.                                                *)
(***************************************************************************)
EXTENDS Knn

Near(x, e2, i) == {j \in Rows(x) : D2(x[i], x[j]) < e2}        \* includes i
Cores(x, e2, m) == {i \in Rows(x) : Cardinality(Near(x, e2, i)) >= m}
RECURSIVE Close(_, _, _, _)
Close(nb, S, new, all) == IF new = {} THEN S
                          ELSE LET n == (UNION {nb[i] : i \in new} \intersect all) \ S IN Close(nb, S \union n, n, all)
\* density-connected components of the core rows
RECURSIVE Components(_, _)
Components(nb, cs) == IF cs = {} THEN {}
                      ELSE LET i == CHOOSE i \in cs : TRUE
                               c == Close(nb, {i}, {i}, cs)
                           IN {c} \union Components(nb, cs \ c)
IsClustering(x, e2, m, lab) ==
  LET nb == [i \in Rows(x) |-> Near(x, e2, i)]
      cs == {i \in Rows(x) : Cardinality(nb[i]) >= m}
      comps == Components(nb, cs)
  IN /\ Len(lab) = Len(x)
     /\ \A c \in comps : \E l \in 0..(Cardinality(comps) - 1) : \A i \in c : lab[i] = l
     /\ Cardinality({lab[i] : i \in cs}) = Cardinality(comps)
     /\ \A i \in Rows(x) \ cs : LET r == nb[i] \intersect cs IN
          IF r = {} THEN lab[i] = -1 ELSE lab[i] \in {lab[j] : j \in r}

\* rows on a line in chains of runs[i] rows one unit apart, wide gaps between the chains, every row within
\* reach of its neighbours only and two rows a cluster: lab lists <<label, rows>> in order along the line
IsChains(runs, lab) ==
  LET long == {i \in DOMAIN runs : runs[i] > 1} IN
  /\ Len(lab) = Len(runs)
  /\ \A i \in DOMAIN runs : lab[i][2] = runs[i] /\ (runs[i] = 1 <=> lab[i][1] = -1)
  /\ {lab[i][1] : i \in long} = 0..(Cardinality(long) - 1)

\* predictive mode: the cluster of a nearest row when it is within eps
IsGuess(x, e2, lab, q, l) ==
  LET d == [r \in Rows(x) |-> D2(x[r], q)]
      near == {r \in Rows(x) : \A s \in Rows(x) : d[r] <= d[s]}
  IN \E r \in near : l = (IF d[r] < e2 THEN lab[r] ELSE -1)
=============================================================================
