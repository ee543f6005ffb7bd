--------------------------- MODULE GradDescTrace ---------------------------
(* Runs of one optimizer: the calls an objective gets from it, with what the *)
(* objective answered.  Stochastic ones are called with one sample at a     *)
(* time (s = its number), gd with all of them (s = 0).                      *)
EXTENDS GradDesc, TraceRun
GDStart(cs) == [kind |-> "", p |-> <<>>, iters |-> 0, n |-> 0, w |-> <<>>, mem |-> <<>>, step |-> <<>>, epoch |-> 0, used |-> <<>>, prev |-> <<>>, costs |-> <<>>]
Tol == Eps(11)
Batch(s) == IF s.kind = "gd" THEN 1 ELSE s.n
GDAfter(s, ev) ==
  CASE ev.op = "new" -> [s EXCEPT !.kind = ev.kind, !.p = IF ev.default THEN Defaults(ev.kind)[1] ELSE ev.p, !.iters = IF ev.default THEN Defaults(ev.kind)[2] ELSE ev.iters]
    [] ev.op = "start" -> [s EXCEPT !.n = ev.n, !.w = ev.w, !.mem = MemStart(ev.w), !.step = <<>>, !.epoch = 0, !.used = <<>>, !.prev = <<>>, !.costs = <<>>]
    [] ev.op = "call" -> LET m1 == MemNext(s.kind, s.p, s.mem, ev.g)
                             new == Len(s.used) = Batch(s) \/ s.epoch = 0 IN
         [s EXCEPT !.w = ev.w, !.mem = m1, !.step = Step(s.kind, s.p, s.mem, m1, ev.g),
                   !.epoch = IF new THEN s.epoch + 1 ELSE s.epoch, !.used = IF new THEN <<ev.s>> ELSE Append(s.used, ev.s),
                   !.prev = IF new THEN s.costs ELSE s.prev, !.costs = IF new THEN <<ev.c>> ELSE Append(s.costs, ev.c)]
    [] OTHER -> s
Next1(s, to) == IF s.step = <<>> THEN to = s.w ELSE Moved(s.w, s.step, to, Tol)
GDBad(s, ev) ==
  CASE ev.op = "new" -> IF ev.default THEN ClauseIf(ev.end = "ok", "constructs")
         ELSE IF Finite(ev.p) /\ InRange(ev.kind, ev.p) THEN ClauseIf(ev.end = "ok", "constructs") ELSE IF ~Finite(ev.p) THEN {} ELSE ClauseIf(ev.end = "panic", "out-of-range-refused")
    [] ev.op = "start" -> {}
    [] ev.op = "call" ->
         LET new == Len(s.used) = Batch(s) \/ s.epoch = 0 IN
         UNION {ClauseIf(Next1(s, ev.w), "update-rule"),
                ClauseIf(IF s.kind = "gd" THEN ev.s = 0 ELSE ev.s \in 1..s.n, IF s.kind = "gd" THEN "all-samples" ELSE "one-sample-with-its-target"),
                ClauseIf(new \/ \A i \in DOMAIN s.used : s.used[i] # ev.s, "every-sample-once"),
                ClauseIf(~new \/ s.epoch < s.iters, "no-more-epochs")}
    [] ev.op = "done" ->
         IF ev.end # "ok" THEN {"optimizes"}
         ELSE IF s.epoch = 0 THEN ClauseIf(ev.out = s.w, "update-rule") \union ClauseIf(s.iters = 0 \/ s.n = 0, "all-epochs")
         ELSE LET over == s.epoch = s.iters /\ Len(s.used) = Batch(s)
                  settled == Len(s.used) = Batch(s) /\ s.prev # <<>> /\ Settled(s.prev, s.costs, Batch(s), Eps(14)) IN
              UNION {ClauseIf(over \/ settled, "all-epochs"),
                     \* batch descent stops before the step of a settled cost, or after it
                     ClauseIf(Next1(s, ev.out) \/ (settled /\ s.kind = "gd" /\ ev.out = s.w), "update-rule")}
    [] ev.op = "same" -> ClauseIf(ev.same, "optimizer-unchanged")     \* the same run again, under the same randomness
    [] ev.op = "order-law" -> IF ev.end # "ok" THEN {"optimizes"}
         ELSE IF \E i \in DOMAIN ev.hist : ~ValidPerm(ev.n, ev.hist[i][1]) THEN {"every-sample-once"} ELSE ClauseIf(UniformPerms(ev.n, ev.exact, ev.den, ev.hist), "uniform-order")
    [] ev.op = "order-stats" -> IF ev.end # "ok" THEN {"optimizes"}
         ELSE UNION {ClauseIf(ev.bad = 0, "every-sample-once"), ClauseIf(FairShuffle(ev.n, ev.m, ev.grid, ev.even, ev.fixed, ev.next, ev.asc), "uniform-order")}
=============================================================================
