----------------------------- MODULE RandTools -----------------------------
(***************************************************************************)
(* learning::toolkit::rand_utils: sampling and shuffling.                  *)
(*                                                                         *)
(* The data are abstracted to positions 1..n.  An outcome of reservoir     *)
(* sampling is a sequence of k positions, one of a shuffle a sequence of n *)
(* positions.  A law is a sequence of pairs <<outcome, weight>>, the       *)
(* weights being exact probabilities over a common denominator `den` (all  *)
(* random choices of the code enumerated) or counts of `den` seeded runs.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Functions, SequencesExt, FiniteSetsExt, Fx

RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
RECURSIVE Choose(_, _)
Choose(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Choose(n - 1, k - 1) + Choose(n - 1, k)

Ran(s) == {s[i] : i \in DOMAIN s}
NoDup(s) == Cardinality(Ran(s)) = Len(s)
\* k different positions of 1..n
ValidSample(n, k, r) == Len(r) = k /\ NoDup(r) /\ Ran(r) \subseteq 1..n
\* a rearrangement of 1..n
ValidPerm(n, r) == Len(r) = n /\ Ran(r) = 1..n
\* sequences with repetitions: every value as often in s as in t / at most as often
Occ(s, v) == Cardinality({i \in DOMAIN s : s[i] = v})
SameBag(s, t) == Len(s) = Len(t) /\ \A v \in Ran(s) : Occ(s, v) = Occ(t, v)
WithinBag(s, t) == \A v \in Ran(s) : Occ(s, v) <= Occ(t, v)

Total(hist) == FoldLeft(LAMBDA a, h : a + h[2], 0, hist)
SubsetWeight(hist, S) == FoldLeft(LAMBDA a, h : IF Ran(h[1]) = S THEN a + h[2] ELSE a, 0, hist)

\* a count of m runs with expectation e = m*p (rounded down): within 7 standard deviations, taking
\* the variance as at most e + 1
Near(cnt, e) == LET d == IF cnt > e THEN cnt - e ELSE e - cnt IN d <= 1 \/ FxLe(FxMul(FxI(d - 1), FxI(d - 1)), FxMul(FxI(49), FxI(e + 1)))
\* the same for large numbers, mean and variance given as Fx numbers
Within(cnt, e, v) == FxLe(FxSq(FxSub(FxI(cnt), e)), FxMul(FxI(49), FxAdd(v, FxI(2))))
FairCount(cnt, total, cells) == Near(cnt, total \div cells)

UniformSubsets(n, k, exact, den, hist) ==
  /\ Total(hist) = den
  /\ \A S \in kSubset(k, 1..n) :
       IF exact THEN SubsetWeight(hist, S) * Choose(n, k) = den
                ELSE FairCount(SubsetWeight(hist, S), den, Choose(n, k))
UniformPerms(n, exact, den, hist) ==
  /\ Total(hist) = den
  /\ NoDup([i \in DOMAIN hist |-> hist[i][1]])
  /\ exact => Len(hist) = Fact(n)
  /\ \A i \in DOMAIN hist : IF exact THEN hist[i][2] * Fact(n) = den ELSE FairCount(hist[i][2], den, Fact(n))

(* Statistics of m runs on a pool or slice too long for its law to be compared cell by cell. *)
\* pairs of sampled positions: one of the k(k-1) ordered pairs hits a given ordered pair of n(n-1)
PairRate(n, k) == FxDiv(FxI(k * (k - 1)), FxI(n * (n - 1)))
\* gap[i] = <<d, c>>: c times were positions p and p+d both sampled
FairGaps(n, k, m, gap) ==
  \A i \in DOMAIN gap :
    LET e == FxMul(FxI(m), FxMul(FxI(n - gap[i][1]), PairRate(n, k)))
    IN Within(gap[i][2], e, FxMul(e, FxAdd(FxOne, FxDiv(FxI(4 * k), FxI(n)))))
\* the positions cut into Len(grid) blocks of equal length: grid[a][b] counts sampled pairs p < q in blocks a, b
FairBlocks(n, k, m, grid) ==
  LET nb == Len(grid)  l == n \div nb  mu == FxDiv(FxI(k), FxI(nb)) IN
  \A a \in 1..nb : \A b \in a..nb :
    LET cells == IF a = b THEN (l * (l - 1)) \div 2 ELSE l * l
        e == FxMul(FxI(m), FxMul(FxI(cells), PairRate(n, k)))
    IN Within(grid[a][b], e, FxMul(FxI(m), FxMul(FxAdd(FxMul(mu, mu), mu), FxAdd(FxAdd(mu, mu), FxOne))))
\* a shuffle: elements of block b that came into block a; even permutations; elements that stayed; neighbours that stayed so; ascents
FairShuffle(n, m, grid, even, fixed, next, asc) ==
  LET nb == Len(grid) IN
  /\ \A a \in 1..nb : \A b \in 1..nb : Near(grid[a][b], (m * (n \div nb)) \div nb)
  /\ Within(even, FxQ(m, 2), FxQ(m, 4))
  /\ Near(fixed, m)
  /\ Near(next, m - m \div n)
  /\ Within(asc, FxMul(FxI(m), FxQ(n - 1, 2)), FxMul(FxI(m), FxQ(n + 1, 12)))

(******************************* the algorithms ****************************)
\* one step of Algorithm R: element m (> k) is seen, r in 0..m-1 is drawn
ReservoirStep(k, res, m, r) == IF r < k THEN [res EXCEPT ![r + 1] = m] ELSE res
\* one step of inside-out Fisher-Yates: element i+1 is placed at j in 0..i
InsideOutStep(res, i, j) == IF j = i THEN Append(res, i + 1) ELSE [Append(res, res[j + 1]) EXCEPT ![j + 1] = i + 1]
\* one step of in-place Fisher-Yates: position i+1 is swapped with i+1+j
InPlaceStep(res, i, j) == [res EXCEPT ![i + 1] = res[i + j + 1], ![i + j + 1] = res[i + 1]]
=============================================================================
