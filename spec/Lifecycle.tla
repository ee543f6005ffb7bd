----------------------------- MODULE Lifecycle -----------------------------
(***************************************************************************)
(* What every model of the library does over its life, whatever it learns: *)
(* history: the trainings that count.  A model that starts afresh counts   *)
(* the latest successful training only; one that continues (a network)     *)
(* counts all of them, and answers before the first.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences
Learnt(continues, history, d) == IF continues THEN Append(history, d) ELSE <<d>>
Answers(continues, history) == continues \/ history # <<>>
=============================================================================
