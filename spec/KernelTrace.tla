---------------------------- MODULE KernelTrace ----------------------------
(* Recorded evaluations of kernels.                                         *)
EXTENDS Kernel, TraceRun
RStart(cs) == 0
RAfter(s, ev) == s
RBad(s, ev) ==
  CASE ev.op = "kernel" ->     \* v: k(x, y), w: k(y, x), again: k(x, y) once more
         IF Len(ev.x) # Len(ev.y) THEN ClauseIf(ev.end = "panic", "other-length-refused")
         ELSE IF ~HasValue(ev.k, ev.x, ev.y) THEN ClauseIf(ev.end = "ok", "evaluates")
         ELSE IF ev.end # "ok" THEN {"evaluates"}
         ELSE UNION {ClauseIf(FxAbsClose(ev.v, Ker(ev.k, ev.x, ev.y), KerTol(ev.k, ev.x, ev.y)), "formula"),
                     ClauseIf(FxAbsClose(ev.w, Ker(ev.k, ev.x, ev.y), KerTol(ev.k, ev.x, ev.y)), "symmetric"),
                     ClauseIf(ev.again = ev.v, "function-of-arguments")}
    [] OTHER -> {"unknown-event"}
=============================================================================
