----------------------------- MODULE NormalizeMC -----------------------------
(***************************************************************************)
(* The normalizer on a matrix, row by row: divided by its norm (sum of     *)
(* absolute values here), kept when zero, the whole call refused at a row  *)
(* without a finite norm.  Images are kept as <<row, divisor>>.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
CONSTANTS V, N
VARIABLES x, i, out, phase
vars == <<x, i, out, phase>>
\* ACTIONS Divide Keep Refuse Done
NaN == 99
Rows == [1..2 -> {v - 1 : v \in V} \union {NaN}]
Norm(r) == LET a(v) == IF v < 0 THEN -v ELSE v IN a(r[1]) + a(r[2])
Bad(r) == \E j \in 1..2 : r[j] = NaN
Init == x \in UNION {[1..n -> Rows] : n \in 0..N} /\ i = 1 /\ out = <<>> /\ phase = "go"
Busy == phase = "go" /\ i <= Len(x)
Divide == Busy /\ ~Bad(x[i]) /\ Norm(x[i]) > 0 /\ out' = Append(out, <<x[i], Norm(x[i])>>) /\ i' = i + 1 /\ UNCHANGED <<x, phase>>
Keep == Busy /\ ~Bad(x[i]) /\ Norm(x[i]) = 0 /\ out' = Append(out, <<x[i], 1>>) /\ i' = i + 1 /\ UNCHANGED <<x, phase>>
Refuse == Busy /\ Bad(x[i]) /\ phase' = "refused" /\ UNCHANGED <<x, i, out>>
Done == phase = "go" /\ i > Len(x) /\ phase' = "done" /\ UNCHANGED <<x, i, out>>
Next == Divide \/ Keep \/ Refuse \/ Done
Spec == Init /\ [][Next]_vars
Unit == \A k \in DOMAIN out : out[k][2] > 0 /\ (Norm(out[k][1]) = out[k][2] \/ (Norm(out[k][1]) = 0 /\ out[k][2] = 1))
AllOrNothing == (phase = "done" => Len(out) = Len(x)) /\ (phase = "refused" <=> \E k \in DOMAIN x : Bad(x[k]) /\ phase # "go")
=============================================================================
