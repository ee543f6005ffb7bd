----------------------------- MODULE BatchTrace -----------------------------
(* Batches of rows answered by one trained model (or fitted transformer).   *)
(* Rows are named by their place in a pool of different rows.               *)
EXTENDS Batch, Fx, TraceRun
BStart(cs) == <<>>
\* labels are whole numbers: nothing near one of them is another
Near(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : a[k] = b[k] \/ FxClose(a[k], b[k], Eps(9))
BAfter(s, ev) == IF ev.op = "ask" THEN Known(s, ev.rows, ev.ans) ELSE s
BBad(s, ev) ==
  CASE ev.op = "ask" ->
         IF ev.end # "ok" THEN {"answers"}
         ELSE IF Len(ev.ans) # Len(ev.rows) THEN {"one-answer-per-row"}
         ELSE ClauseIf(AsKnown(Near, s, ev.rows, ev.ans), "row-by-row")
    [] OTHER -> {"unknown-event"}
=============================================================================
