----------------------------- MODULE TraceRun -----------------------------
(***************************************************************************)
(* Validates recorded histories against a specification.                   *)
(*                                                                         *)
(* The trace file has one case per line: a history [name, ev] of events    *)
(* observed on the real code.  A specification supplies                    *)
(*   Start(case)    the specification state a history begins in            *)
(*   Bad(st, ev)    the names of the clauses of the action of event ev     *)
(*                  that the observation violates in state st ({}: ev is a *)
(*                  step of the specification)                             *)
(*   After(st, ev)  the state the event leads to                           *)
(* A history that is not a behaviour of the specification is reported and  *)
(* skipped, so that one run judges all histories.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, TLCExt, Json, IOUtils

CONSTANTS Start(_), Bad(_, _), After(_, _)
VARIABLES tcase, tevent, tstate

Cases == ndJsonDeserialize(IOEnv.TRACE)
First == atoi(IOEnv.FIRST)
NCases == Len(Cases)

ClauseIf(holds, name) == IF holds THEN {} ELSE {name}

\* a driver that died under the library's hands is no behaviour of anything
Judge(st, ev) == IF ev.op = "crash" THEN {"crash"} ELSE Bad(st, ev)

Begin(k) == IF k <= NCases THEN Start(Cases[k]) ELSE <<>>

TraceInit == tcase = First /\ tevent = 1 /\ tstate = Begin(First)

TraceNext ==
  \/ /\ tcase <= NCases
     /\ tevent <= Len(Cases[tcase].ev)
     /\ LET b == Judge(tstate, Cases[tcase].ev[tevent]) IN
        IF b = {}
        THEN /\ tstate' = After(tstate, Cases[tcase].ev[tevent])
             /\ tevent' = tevent + 1
             /\ tcase' = tcase
        ELSE /\ PrintT("REJECT case=" \o ToString(tcase) \o " event=" \o ToString(tevent) \o " clauses=" \o ToString(b))
             /\ tcase' = tcase + 1 /\ tevent' = 1 /\ tstate' = Begin(tcase + 1)
  \/ /\ tcase <= NCases
     /\ tevent > Len(Cases[tcase].ev)
     /\ tcase' = tcase + 1 /\ tevent' = 1 /\ tstate' = Begin(tcase + 1)
  \/ /\ tcase = NCases + 1
     /\ PrintT("DONE cases=" \o ToString(NCases))
     /\ tcase' = tcase + 1 /\ tevent' = 1 /\ tstate' = <<>>

\* the state shown when TLC cannot evaluate an event
TraceAlias == [c |-> tcase, e |-> tevent]
=============================================================================
