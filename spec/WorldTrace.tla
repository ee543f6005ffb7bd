----------------------------- MODULE WorldTrace -----------------------------
(* Programs (worlds) with one object or several; the same objects live in   *)
(* every world of a history, with other neighbours.                         *)
EXTENDS World, TraceRun
\* lives: of each object of each world, its kind and the data of its trainings
WStart(cs) == [lives |-> <<>>, told |-> <<>>]
Me(ev) == <<ev.w, ev.o>>
Life(s, ev) == s.lives[Me(ev)]
Key(s, ev) == <<Life(s, ev), ev.op, ev.d>>
WAfter(s, ev) ==
  CASE ev.op = "new" -> [s EXCEPT !.lives = Tell(@, Me(ev), <<ev.kind>>)]
    [] ev.op = "train" -> [lives |-> Tell(s.lives, Me(ev), Append(Life(s, ev), ev.d)), told |-> Tell(s.told, Key(s, ev), ev.ans)]
    [] ev.op \in {"ask", "look"} -> [s EXCEPT !.told = Tell(@, Key(s, ev), ev.ans)]
    [] OTHER -> s
\* ans: how it ended and a fingerprint of the answer
WBad(s, ev) ==
  CASE ev.op = "new" -> ClauseIf(Me(ev) \notin DOMAIN s.lives, "told")
    [] ev.op \in {"train", "ask", "look"} -> IF Me(ev) \notin DOMAIN s.lives THEN {"told"} ELSE ClauseIf(AsTold(s.told, Key(s, ev), ev.ans), "own-history-only")
    [] OTHER -> {"unknown-event"}
=============================================================================
