---------------------------- MODULE CostRegTrace ----------------------------
(* Single calls of the cost functions and regularisers.                     *)
EXTENDS CostReg, TraceRun
CRStart(cs) == 0
CRAfter(s, ev) == 0
Tol == Eps(11)
Size(m) == FxAdd(FxOne, AbsSum(m))
RelTo(a, b, size) == FxFin(a) /\ FxFin(b) /\ FxLe(FxAbs(FxSub(a, b)), FxMul(Tol, size))
\* cancellation: errors relative to the terms
CostSame(kind, got, o, t, n) == LET c == Cost(kind, o, t, n) IN
  IF ~FxFin(c) THEN got = c ELSE RelTo(got, c, FxAdd(FxAbs(c), FxDiv(FxSum([i \in DOMAIN Flat(o) |-> FxMul(FxAdd(FxAbs(Flat(o)[i]), FxAbs(Flat(t)[i])), Eps(3))]), FxI(n))))
CRBad(s, ev) ==
  CASE ev.op = "cost" -> IF ev.end # "ok" THEN {"evaluates"} ELSE ClauseIf(CostSame(ev.kind, ev.c, ev.o, ev.t, ev.n), IF ev.kind = "mse" THEN "mean-squared-error" ELSE "mean-cross-entropy")
    [] ev.op = "cost-grad" -> IF ev.end # "ok" THEN {"evaluates"}
         ELSE IF Len(ev.g) # Len(ev.o) \/ \E i \in DOMAIN ev.o : Len(ev.g[i]) # Len(ev.o[i]) THEN {"derivative-of-cost"}
         ELSE LET d == Flat(CostGrad(ev.kind, ev.o, ev.t)) g == Flat(ev.g) o == Flat(ev.o) t == Flat(ev.t) IN
         IF \E i \in DOMAIN d : ~FxFin(d[i]) THEN {}
         ELSE LET top == CHOOSE i \in DOMAIN d : \A j \in DOMAIN d : FxLe(FxAbs(d[j]), FxAbs(d[i]))
                  small(i) == FxMul(Eps(13), FxAdd(FxAbs(o[i]), FxAdd(FxAbs(t[i]), FxAbs(d[i])))) IN
         \* one positive factor for all entries
         IF d[top][1] = 0 THEN ClauseIf(\A i \in DOMAIN g : g[i] = FxZero, "derivative-of-cost")
         ELSE LET f == FxDiv(g[top], d[top]) IN
              ClauseIf((\A i \in DOMAIN g : FxFin(g[i])) /\ f[1] > 0 /\ \A i \in DOMAIN g : FxRel(g[i], FxMul(f, d[i]), Eps(10), FxMul(f, small(i))), "derivative-of-cost")
    [] ev.op = "shape" -> ClauseIf(ev.end = "panic", "other-shape-refused")
    [] ev.op = "reg" -> IF ev.end # "ok" THEN {"evaluates"}
         ELSE LET p == Penalty(ev.reg, ev.w) q == PlainPenalty(ev.reg, ev.w) z == FxMul(FxI(8), FxAdd(FxAbs(p), FxAbs(q))) IN
              UNION {ClauseIf(ev.pen = <<>> \/ RelTo(ev.pen[1], p, z) \/ RelTo(ev.pen[1], q, z), "penalty"),
                     ClauseIf(ev.pen = <<>> \/ RelTo(ev.pen[1], p, z) \/ ~RelTo(ev.pen[1], q, z), "penalty-of-unsquared-norm"),
                     ClauseIf(Len(ev.g) = Len(ev.w) /\ \A i \in DOMAIN ev.w : Len(ev.g[i]) = Len(ev.w[i]) /\ \A j \in DOMAIN ev.w[i] :
                                LET iv == Slope(ev.reg, ev.w[i][j], Len(ev.w)) IN Within(ev.g[i][j], iv, FxMul(Tol, FxAdd(FxAbs(iv[1]), FxAbs(iv[2])))), "penalty-derivative")}
    [] ev.op = "none" -> ClauseIf(ev.end = "ok" /\ ev.zero, "none-is-zero")
=============================================================================
