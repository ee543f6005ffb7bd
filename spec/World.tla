-------------------------------- MODULE World --------------------------------
(***************************************************************************)
(* Several objects of the library living in one program.  What an object   *)
(* answers is a function of its kind and of the trainings it went through  *)
(* itself, whatever other objects of the same or other kinds are trained   *)
(* or asked before, in between, or at the same time on other threads.      *)
(* told: what has been answered so far, a partial function from what it    *)
(* may depend on to the answer.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences
AsTold(told, key, answer) == key \in DOMAIN told => told[key] = answer
Tell(told, key, answer) == [k \in DOMAIN told \cup {key} |-> IF k = key THEN answer ELSE told[k]]
=============================================================================
