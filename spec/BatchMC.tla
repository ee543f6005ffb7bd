------------------------------ MODULE BatchMC ------------------------------
(***************************************************************************)
(* The row loop of a prediction: terms of a row are added up column by     *)
(* column into an accumulator, which is then scored and put behind the     *)
(* answers found so far.  Every sequence of batches of rows with entries   *)
(* 0..Top.                                                                 *)
(* Carry: the accumulator is not cleared between rows.  Width: the number  *)
(* of entries a row is taken to have when its place in the flat data is    *)
(* computed is that of the batch's rows instead of its columns.            *)
(***************************************************************************)
\* ACTIONS Ask Term Score Answered
EXTENDS Batch, FiniteSets, SequencesExt, TLC
CONSTANTS Cols, Top, Longest, Batches, Carry, Width
VARIABLES batch, col, acc, out, known, told
vars == <<batch, col, acc, out, known, told>>
Rows == [1..Cols -> 0..Top]
Weight(j) == 2 * j - 3
RECURSIVE Upto(_, _)
Upto(r, j) == IF j = 0 THEN 0 ELSE Weight(j) * r[j] + Upto(r, j - 1)
Alone(r) == Upto(r, Cols) + 5
Init == batch = <<>> /\ col = 0 /\ acc = 0 /\ out = <<>> /\ known = <<>> /\ told = 0
Flat(b) == FlattenSeq([i \in DOMAIN b |-> [j \in 1..Cols |-> b[i][j]]])
Entry(b, i, j) == LET w == IF Width THEN Len(b) ELSE Cols
                      k == (i - 1) * w + j IN IF k <= Len(Flat(b)) THEN Flat(b)[k] ELSE 0
Ask == /\ batch = <<>> /\ told < Batches
       /\ \E n \in 1..Longest : \E b \in [1..n -> Rows] : batch' = b
       /\ col' = 1 /\ acc' = 0 /\ out' = <<>> /\ UNCHANGED <<known, told>>
Term == /\ batch # <<>> /\ Len(out) < Len(batch) /\ col <= Cols
        /\ acc' = acc + Weight(col) * Entry(batch, Len(out) + 1, col) /\ col' = col + 1
        /\ UNCHANGED <<batch, out, known, told>>
Score == /\ batch # <<>> /\ col > Cols
         /\ out' = Append(out, acc + 5) /\ col' = 1 /\ acc' = (IF Carry THEN acc ELSE 0)
         /\ UNCHANGED <<batch, known, told>>
Same(a, b) == a = b
Answered == /\ batch # <<>> /\ Len(out) = Len(batch)
            /\ known' = Known(known, batch, out) /\ told' = told + 1 /\ batch' = <<>> /\ out' = <<>> /\ UNCHANGED <<col, acc>>
Next == Ask \/ Term \/ Score \/ Answered
Spec == Init /\ [][Next]_vars
\* a batch fully answered agrees with everything known
RowByRow == batch # <<>> /\ Len(out) = Len(batch) => AsKnown(Same, known, batch, out)
\* what is known is what each row gets on its own
ByDefinition == \A r \in DOMAIN known : known[r] = Alone(r)
=============================================================================
