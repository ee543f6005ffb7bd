---------------------------- MODULE RandToolsMC ----------------------------
(* Every run of the three algorithms, for all sizes up to N. *)
EXTENDS RandTools, TLC
CONSTANT N
\* ACTIONS See Place Swap
VARIABLES alg, n, k, i, res, tape
vars == <<alg, n, k, i, res, tape>>

Init == \/ /\ alg = "reservoir" /\ n \in 0..N /\ k \in 0..N /\ k <= n
           /\ i = k /\ res = [j \in 1..k |-> j] /\ tape = <<>>
        \/ /\ alg = "insideout" /\ n \in 0..N /\ k = 0 /\ i = 0 /\ res = <<>> /\ tape = <<>>
        \/ /\ alg = "inplace" /\ n \in 0..N /\ k = 0 /\ i = 0 /\ res = [j \in 1..n |-> j] /\ tape = <<>>
Draw(m) == i < n /\ \E r \in 0..(m - 1) : tape' = Append(tape, r)
SeeNext == alg = "reservoir" /\ Draw(i + 1) /\ res' = ReservoirStep(k, res, i + 1, tape'[Len(tape')])
PlaceNext == alg = "insideout" /\ Draw(i + 1) /\ res' = InsideOutStep(res, i, tape'[Len(tape')])
SwapNext == alg = "inplace" /\ Draw(n - i) /\ res' = InPlaceStep(res, i, tape'[Len(tape')])
Step == i' = i + 1 /\ UNCHANGED <<alg, n, k>>
See == SeeNext /\ Step
Place == PlaceNext /\ Step
Swap == SwapNext /\ Step
Next == See \/ Place \/ Swap
Spec == Init /\ [][Next]_vars

Membership == CASE alg = "reservoir" -> ValidSample(i, k, res)
                [] alg = "insideout" -> ValidPerm(i, res)
                [] alg = "inplace" -> ValidPerm(n, res)
\* positions already settled are never touched again
Settled == [][alg = "inplace" => \A j \in 1..i : res'[j] = res[j]]_vars

\* The law of each algorithm, computed by running it over the set of all tapes of length t.
RECURSIVE Runs(_, _, _, _)
Runs(a, m, kk, t) ==        \* sequence of outcomes after t steps
  IF t = 0 THEN <<CASE a = "reservoir" -> [j \in 1..kk |-> j] [] a = "insideout" -> <<>> [] OTHER -> [j \in 1..m |-> j]>>
  ELSE LET prev == Runs(a, m, kk, t - 1)
           ways == CASE a = "reservoir" -> kk + t [] a = "insideout" -> t [] OTHER -> m - t + 1
           step(x, r) == CASE a = "reservoir" -> ReservoirStep(kk, x, kk + t, r)
                           [] a = "insideout" -> InsideOutStep(x, t - 1, r)
                           [] OTHER -> InPlaceStep(x, t - 1, r)
       IN [q \in 1..(Len(prev) * ways) |-> step(prev[((q - 1) \div ways) + 1], (q - 1) % ways)]
Law(a, m, kk) == LET rs == Runs(a, m, kk, IF a = "reservoir" THEN m - kk ELSE m)
                     outs == SetToSeq(Ran(rs))
                 IN [q \in DOMAIN outs |-> <<outs[q], Occ(rs, outs[q])>>]
Uniform == (i = k /\ tape = <<>>) =>
   LET h == Law(alg, n, k) IN
   IF alg = "reservoir" THEN UniformSubsets(n, k, TRUE, Total(h), h) ELSE UniformPerms(n, TRUE, Total(h), h)
=============================================================================
