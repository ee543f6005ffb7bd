------------------------------- MODULE WorldMC -------------------------------
(***************************************************************************)
(* Objects trained in steps on threads of their own: rows are gathered in  *)
(* a buffer, a fit is computed from it and stored; answers combine fit and *)
(* query.  Every interleaving of the steps.                                *)
(* Shared: all objects gather in one buffer.  Cached: answers are looked   *)
(* up by query.  Once: a part of the fit is computed for the first object  *)
(* only (a lazily initialised constant).                                   *)
(***************************************************************************)
\* ACTIONS Gather Fit Ask
EXTENDS World, FiniteSets, TLC
CONSTANTS Objects, Data, Queries, Length, Shared, Cached, Once
VARIABLES fit, buffer, doing, own, cache, first, told, right, steps
vars == <<fit, buffer, doing, own, cache, first, told, right, steps>>
Init == /\ fit = [o \in Objects |-> <<>>] /\ buffer = [o \in Objects |-> <<>>] /\ doing = [o \in Objects |-> FALSE]
        /\ own = [o \in Objects |-> <<>>] /\ cache = <<>> /\ first = <<>> /\ told = <<>> /\ right = TRUE /\ steps = 0
Cell(o) == IF Shared THEN CHOOSE c \in Objects : TRUE ELSE o
Gather == /\ steps < Length /\ steps' = steps + 1
          /\ \E o \in Objects, d \in Data : ~doing[o] /\ doing' = [doing EXCEPT ![o] = TRUE]
               /\ buffer' = [buffer EXCEPT ![Cell(o)] = <<d>>] /\ own' = [own EXCEPT ![o] = <<d>>]
          /\ UNCHANGED <<fit, cache, first, told, right>>
Fit == /\ \E o \in Objects : doing[o] /\ doing' = [doing EXCEPT ![o] = FALSE]
            /\ first' = (IF first = <<>> THEN buffer[Cell(o)] ELSE first)
            /\ fit' = [fit EXCEPT ![o] = IF Once THEN first' ELSE buffer[Cell(o)]]
       /\ UNCHANGED <<buffer, own, cache, told, right, steps>>
Key(o, q) == <<own[o], q>>
Ask == /\ steps < Length /\ steps' = steps + 1
       /\ \E o \in Objects, q \in Queries : ~doing[o] /\
            LET a == IF Cached /\ q \in DOMAIN cache THEN cache[q] ELSE <<q, fit[o]>> IN
            /\ right' = (AsTold(told, Key(o, q), a) /\ a = <<q, own[o]>>)
            /\ told' = Tell(told, Key(o, q), a) /\ cache' = Tell(cache, q, a)
       /\ UNCHANGED <<fit, buffer, doing, own, first>>
Next == Gather \/ Fit \/ Ask
Spec == Init /\ [][Next]_vars
OwnHistoryOnly == right
=============================================================================
