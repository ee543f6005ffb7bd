------------------------------- MODULE FminCg -------------------------------
(***************************************************************************)
(* learning::optim::fmincg.  A run evaluates the objective at its start    *)
(* and then in line searches of at most 1 + max evaluations each, iters of *)
(* them at most, and returns an evaluated point that is not worse than     *)
(* the start.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, Fx
Budget(iters, max) == 1 + iters * (1 + max)
Finite(v) == \A i \in DOMAIN v : FxFin(v[i])
=============================================================================
