------------------------------- MODULE KnnMC -------------------------------
(***************************************************************************)
(* The tree search as an algorithm: build by the midpoint rule, visit the  *)
(* query's leaf first, then the remaining nodes from a queue, pruning a    *)
(* branch when its lower bound is not below the k-th best distance so far. *)
(* Checked for every data set of up to N rows on a small grid.             *)
(*   Bound: "box" the kd-tree's bounding box, "tight" the distance to the  *)
(*   nearest row, "zero" no pruning (a ball lies between these)            *)
(*   Early: the candidate list reports its last distance before it is full *)
(*   (how the code once did it; TRUE makes TLC find the missing neighbours)*)
(***************************************************************************)
EXTENDS Knn, TLC
CONSTANTS N, G, Dims, Early
VARIABLES x, leaf, bound, q, k, queue, best, phase
vars == <<x, leaf, bound, q, k, queue, best, phase>>
\* ACTIONS Build Descend Start VisitLeaf VisitBranch Prune

U == 16                               \* grid unit, leaves room for midpoints
Points == [1..Dims -> {U * g : g \in 0..G}]
MinC(rs, d) == Min({x[r][d] : r \in rs})
MaxC(rs, d) == Max({x[r][d] : r \in rs})
Same(rs) == \A a, b \in rs : x[a] = x[b]
Widest(lo, hi) == CHOOSE d \in 1..Dims : \A c \in 1..Dims : hi[c] - lo[c] < hi[d] - lo[d] \/ (hi[c] - lo[c] = hi[d] - lo[d] /\ d <= c)

RECURSIVE Tree(_, _, _)
Tree(rs, lo, hi) ==
  IF Cardinality(rs) < leaf \/ Same(rs) THEN [leaf |-> TRUE, rows |-> rs]
  ELSE LET d == Widest(lo, hi)
           s == (lo[d] + hi[d]) \div 2
           l == {r \in rs : x[r][d] < s}
           g == rs \ l
       IN IF l = {} THEN Tree(rs, [lo EXCEPT ![d] = IF s > lo[d] THEN s ELSE hi[d]], hi)
          ELSE IF g = {} THEN Tree(rs, lo, [hi EXCEPT ![d] = s])
          ELSE [leaf |-> FALSE, rows |-> rs, dim |-> d, split |-> s, lo |-> lo, hi |-> hi,
                left |-> Tree(l, lo, [hi EXCEPT ![d] = s]), right |-> Tree(g, [lo EXCEPT ![d] = s], hi)]

Lower(t) == CASE bound = "box" -> FoldSet(LAMBDA d, a : a + (IF q[d] < t.lo[d] THEN (t.lo[d] - q[d]) * (t.lo[d] - q[d]) ELSE IF t.hi[d] < q[d] THEN (q[d] - t.hi[d]) * (q[d] - t.hi[d]) ELSE 0), 0, 1..Dims)
              [] bound = "tight" -> Min({D2(x[r], q) : r \in t.rows})
              [] OTHER -> 0
Huge == 1000000
Dist(b) == IF Len(b) < k THEN (IF Early /\ b # <<>> THEN b[Len(b)][2] ELSE Huge) ELSE b[k][2]
Insert(b, r) == LET e == <<r, D2(x[r], q)>>
                    p == Cardinality({i \in DOMAIN b : b[i][2] < e[2]})
                    c == SubSeq(b, 1, p) \o <<e>> \o SubSeq(b, p + 1, Len(b))
                IN IF Len(c) > k THEN SubSeq(c, 1, k) ELSE c
RECURSIVE AddAll(_, _)
AddAll(b, s) == IF s = <<>> THEN b
                ELSE AddAll(IF D2(x[Head(s)], q) < Dist(b) THEN Insert(b, Head(s)) ELSE b, Tail(s))
RECURSIVE Fill(_, _)                 \* the first leaf is taken whole
Fill(b, s) == IF s = <<>> THEN b ELSE Fill(Insert(b, Head(s)), Tail(s))
RowSeq(rs) == SetToSortSeq(rs, LAMBDA a, b : a < b)

Init == /\ x \in UNION {[1..n -> Points] : n \in 1..N}
        /\ leaf = 0 /\ bound = "" /\ q = <<>> /\ k = 0 /\ queue = <<>> /\ best = <<>> /\ phase = "raw"
Build == /\ phase = "raw"
         /\ leaf' \in 1..3 /\ bound' \in {"box", "tight", "zero"}
         /\ phase' = "built" /\ UNCHANGED <<x, q, k, queue, best>>
Start == /\ phase = "built"
         /\ k' \in 1..Len(x) /\ q' \in [1..Dims -> {U * g - U \div 2 : g \in 0..G} \union {0, U * G}]
         /\ LET rs == Rows(x) IN queue' = <<Tree(rs, [d \in 1..Dims |-> MinC(rs, d)], [d \in 1..Dims |-> MaxC(rs, d)])>>
         /\ phase' = "descend" /\ best' = <<>> /\ UNCHANGED <<x, leaf, bound>>
Descend == /\ phase = "descend"
           /\ LET t == Head(queue) IN
              IF t.leaf THEN best' = Fill(<<>>, RowSeq(t.rows)) /\ queue' = Tail(queue) /\ phase' = "visit"
              ELSE /\ queue' = (IF q[t.dim] < t.split THEN <<t.left>> \o Tail(queue) \o <<t.right>> ELSE <<t.right>> \o Tail(queue) \o <<t.left>>)
                   /\ UNCHANGED <<best, phase>>
           /\ UNCHANGED <<x, leaf, bound, q, k>>
Visiting == phase = "visit" /\ queue # <<>> /\ UNCHANGED <<x, leaf, bound, q, k, phase>>
VisitLeaf == Visiting /\ Head(queue).leaf /\ best' = AddAll(best, RowSeq(Head(queue).rows)) /\ queue' = Tail(queue)
VisitBranch == LET t == Head(queue) IN Visiting /\ ~t.leaf /\ Lower(t) < Dist(best) /\ queue' = Tail(queue) \o <<t.left, t.right>> /\ UNCHANGED best
Prune == LET t == Head(queue) IN Visiting /\ ~t.leaf /\ Lower(t) >= Dist(best) /\ queue' = Tail(queue) /\ UNCHANGED best
Next == Build \/ Start \/ Descend \/ VisitLeaf \/ VisitBranch \/ Prune
Spec == Init /\ [][Next]_vars

Exact == (phase = "visit" /\ queue = <<>>) => IsNearest(x, q, k, [i \in DOMAIN best |-> best[i][1]], [i \in DOMAIN best |-> best[i][2]])
\* both descriptions of the classification agree
VoteOk == phase = "visit" /\ queue = <<>> /\ bound = "zero" /\ leaf = 1 =>
            \A y \in [Rows(x) -> 0..2] : \A l \in 0..2 : IsClass(x, y, q, k, l) <=> IsClassDef(x, y, q, k, l)
Sound == phase = "visit" => \A i \in DOMAIN best : best[i][2] = D2(x[best[i][1]], q)
=============================================================================
