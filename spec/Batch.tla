------------------------------- MODULE Batch -------------------------------
(***************************************************************************)
(* A trained model answers a batch of rows one by one: the answer to a row *)
(* is the same in every batch.  known: the answers seen so far, a partial  *)
(* function from rows to answers.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
\* what is known once a batch is answered: the first answer to each row
Known(known, batch, answers) ==
  LET new == {batch[i] : i \in DOMAIN batch} \ DOMAIN known
  IN [r \in DOMAIN known \cup new |->
        IF r \in DOMAIN known THEN known[r] ELSE answers[CHOOSE i \in DOMAIN batch : batch[i] = r /\ \A j \in 1..(i - 1) : batch[j] # r]]
\* answers agree with what is known and with each other
AsKnown(Same(_, _), known, batch, answers) ==
  /\ Len(answers) = Len(batch)
  /\ LET k == TLCEval(Known(known, batch, answers)) IN \A i \in DOMAIN batch : Same(answers[i], k[batch[i]])
=============================================================================
