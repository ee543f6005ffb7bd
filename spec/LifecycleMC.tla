---------------------------- MODULE LifecycleMC ----------------------------
(***************************************************************************)
(* A model with its fitted state in two fields which training replaces one *)
(* after the other, on data which may turn out to be unusable before or    *)
(* after the first of them is computed, or have targets of another length  *)
(* than inputs.  Answers combine both fields.                              *)
(* Halfway: fields are stored as they are computed, as the crate did in    *)
(* places.  Adds: fields grow from those of the last training.             *)
(* Blind: lengths are not compared.  Peeks: a query changes a field.       *)
(***************************************************************************)
\* ACTIONS Begin Refuse First Second Fail Predict
EXTENDS Lifecycle, FiniteSets, TLC
CONSTANTS Good, Early, Late, Uneven, Length, Continues, Halfway, Adds, Blind, Peeks, Queries
VARIABLES a, b, pa, doing, history, out, steps
vars == <<a, b, pa, doing, history, out, steps>>
Init == a = <<>> /\ b = <<>> /\ pa = <<>> /\ doing = "" /\ history = <<>> /\ out = <<>> /\ steps = 0
Data == Good \cup Early \cup Late \cup Uneven
Grown(f, d) == IF Adds \/ Continues THEN Append(f, d) ELSE <<d>>
Begin == /\ doing = "" /\ steps < Length /\ steps' = steps + 1 /\ out' = <<>>
         /\ \E d \in Data : (d \in Uneven => Blind) /\ doing' = d
         /\ pa' = <<>> /\ UNCHANGED <<a, b, history>>
Refuse == /\ doing = "" /\ steps < Length /\ steps' = steps + 1 /\ out' = <<"refused">>
          /\ Uneven # {} /\ ~Blind /\ UNCHANGED <<a, b, pa, doing, history>>
First == /\ doing # "" /\ pa = <<>> /\ doing \notin Early
         /\ pa' = Grown(a, doing) /\ a' = (IF Halfway THEN pa' ELSE a) /\ UNCHANGED <<b, doing, history, out, steps>>
Second == /\ doing # "" /\ pa # <<>> /\ doing \notin Late
          /\ a' = pa /\ b' = Grown(b, doing) /\ history' = Learnt(Continues, history, doing) /\ doing' = "" /\ pa' = <<>> /\ out' = <<"ok">> /\ UNCHANGED steps
Fail == /\ \/ doing \in Early /\ pa = <<>>
           \/ doing \in Late /\ pa # <<>>
        /\ doing' = "" /\ pa' = <<>> /\ out' = <<"failed">> /\ UNCHANGED <<a, b, history, steps>>
Predict == /\ doing = "" /\ steps < Length /\ steps' = steps + 1
           /\ \E q \in Queries :
                out' = IF Answers(Continues, b) THEN <<"answer", q, a, b>> ELSE <<"untrained">>
           /\ b' = (IF Peeks /\ b # <<>> THEN Append(b, "q") ELSE b) /\ UNCHANGED <<a, pa, doing, history>>
Next == Begin \/ Refuse \/ First \/ Second \/ Fail \/ Predict
Spec == Init /\ [][Next]_vars
\* answers are a function of the query and the trainings that count
Function == out # <<>> /\ out[1] = "answer" => out[3] = history /\ out[4] = history
Untrained == out = <<"untrained">> => history = <<>> /\ ~Continues
NoGuess == out # <<>> /\ out[1] = "answer" => Continues \/ history # <<>>
Latest == ~Continues => Len(history) <= 1
OnlyGood == \A i \in DOMAIN history : history[i] \in Good
FailureKeeps == [][out' = <<"failed">> \/ out' = <<"refused">> => a' = a /\ b' = b /\ history' = history]_vars
=============================================================================
