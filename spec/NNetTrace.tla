----------------------------- MODULE NNetTrace -----------------------------
(* Histories of one network: its layers, the weights it shows, predictions, *)
(* and the costs and gradients it hands to an optimizer.                    *)
EXTENDS NNet, TraceRun
NStart(cs) == [ls |-> <<>>, crit |-> "", reg |-> <<"none">>, w |-> <<>>]
NAfter(s, ev) ==
  CASE ev.op = "net" -> [ls |-> ev.ls, crit |-> ev.crit, reg |-> ev.reg, w |-> ev.w]
    [] ev.op = "train" -> IF ev.end = "ok" THEN [s EXCEPT !.w = ev.ret] ELSE s
    [] OTHER -> s
Column(w) == [i \in DOMAIN w |-> <<w[i]>>]
OutTol(s, vs) == Drift(s.ls, s.w, vs, 1, FxZero)
NBad(s, ev) ==
  CASE ev.op = "net" -> UNION {ClauseIf(Len(ev.w) = Total(ev.ls) /\ \A i \in DOMAIN ev.w : FxFin(ev.w[i]), "one-weight-per-parameter"),
           \* a user's layer starts from the weights it asks for: 1/2, 3/2, ..
           ClauseIf(Len(ev.w) = Total(ev.ls) => \A k \in DOMAIN ev.ls : ev.ls[k].t = "scale" => Slice(ev.ls, ev.w, k) = [i \in 1..ev.ls[k].i |-> FxQ(2 * i - 1, 2)], "default-weights")}
    [] ev.op = "init" -> IF ev.end # "ok" THEN {"default-weights"} ELSE ClauseIf(Drawn(ev.i, ev.o, ev.n, ev.m1, ev.m2, ev.lag, ev.in1, ev.in2), "default-weights")
    [] ev.op = "slices" -> IF ev.end # "ok" THEN {"slices"}
         ELSE ClauseIf(Len(ev.m) = Len(s.ls) /\ \A k \in DOMAIN s.ls : Flat(ev.m[k]) = Slice(s.ls, s.w, k) /\ Len(ev.m[k]) = (IF s.ls[k].t = "linear" THEN Params(s.ls[k]) \div s.ls[k].o ELSE IF s.ls[k].t = "scale" THEN 1 ELSE 0), "weights-in-layer-order")
    [] ev.op = "predict" ->
         IF ~Fits(s.ls, ev.cols) THEN ClauseIf(ev.end = "err", "other-width-refused")
         ELSE IF ev.end # "ok" THEN {"predicts"}
         ELSE IF Len(ev.out) # Len(ev.x) THEN {"composition-of-layers"}
         ELSE ClauseIf(\A i \in DOMAIN ev.x : LET vs == Pass(s.ls, s.w, 1, <<ev.x[i]>>) o == vs[Len(s.ls) + 1] t == OutTol(s, vs) IN
                         Len(ev.out[i]) = Len(o) /\ \A j \in DOMAIN o : FxAbsClose(ev.out[i][j], o[j], FxMul(t, FxAdd(FxOne, FxAbs(o[j])))), "composition-of-layers")
    [] ev.op = "train" ->
         IF ~Fits(s.ls, ev.cols) THEN ClauseIf(ev.end # "ok", "other-width-refused")
         ELSE IF ev.tcols # WidthAfter(s.ls, 1, ev.cols) THEN ClauseIf(ev.end # "ok", "other-targets-refused")
         ELSE IF ev.end # "ok" THEN {"trains"}
         ELSE UNION {ClauseIf(ev.start = s.w, "starts-from-current-weights"), ClauseIf(ev.data, "optimizes-on-the-given-data")}
    \* a network trained by a real optimizer, and that optimizer run on the network's cost by itself
    [] ev.op = "same" -> ClauseIf(ev.end = "ok" /\ ev.same, "configured-optimizer")
    [] ev.op = "grad" ->
         IF ev.end # "ok" THEN {"evaluates"} ELSE
         LET n == Len(ev.x)
             w == ev.w
             vs == [i \in 1..n |-> Pass(s.ls, w, 1, <<ev.x[i]>>)]
             o == [i \in 1..n |-> vs[i][Len(s.ls) + 1]]
             og == CostGrad(s.crit, o, ev.t)
             c == Cost(s.crit, o, ev.t, n)
             col == Column(w)
             pen == IF s.reg[1] = "none" THEN FxZero ELSE Penalty(s.reg, col)
             plain == IF s.reg[1] = "none" THEN FxZero ELSE PlainPenalty(s.reg, col)
             ctol == FxMul(Eps(9), FxAdd(FxOne, FxAdd(FxAbs(c), FxAdd(pen, plain))))
             whole == \A i \in 1..n : \A j \in DOMAIN og[i] : FxFin(og[i][j])
             GradAt(p) == FxSum([i \in 1..n |-> FxDot(og[i], Tangent(s.ls, w, vs[i], p))])
             \* many weights: the gradient along three directions
             Dir(m) == [p \in DOMAIN w |-> FxI(((p * (31 + 2 * m)) % 17) - 8 + (IF (p * (31 + 2 * m)) % 17 > 7 THEN 1 ELSE 0))]
             AlongRight(d) == LET want == FxSum([i \in 1..n |-> FxDot(og[i], Along(s.ls, w, vs[i], d))])
                                  ivs == [p \in DOMAIN w |-> IF s.reg[1] = "none" THEN <<FxZero, FxZero>> ELSE Slope(s.reg, w[p], Len(w))]
                                  lo == FxSum([p \in DOMAIN w |-> FxMul(d[p], IF FxLt(d[p], FxZero) THEN ivs[p][2] ELSE ivs[p][1])])
                                  hi == FxSum([p \in DOMAIN w |-> FxMul(d[p], IF FxLt(d[p], FxZero) THEN ivs[p][1] ELSE ivs[p][2])])
                              IN Within(FxDot(d, ev.g), <<FxAdd(want, lo), FxAdd(want, hi)>>, FxMul(FxI(Len(w)), FxAdd(Eps(12), FxMul(Eps(10), FxAdd(ev.gmax, FxAdd(FxAbs(lo), FxAbs(hi)))))))
             \* the program's gradient is that of n times the data term
             Right(p) == LET iv == IF s.reg[1] = "none" THEN <<FxZero, FxZero>> ELSE Slope(s.reg, w[p], Len(w))
                             g == GradAt(p) IN
                         Within(ev.g[p], <<FxAdd(g, iv[1]), FxAdd(g, iv[2])>>, FxAdd(Eps(12), FxMul(Eps(9), FxAdd(ev.gmax, FxAdd(FxAbs(iv[1]), FxAbs(iv[2]))))))
         IN IF ~FxFin(c) THEN {} ELSE UNION {ClauseIf(FxAbsClose(ev.c, FxAdd(c, pen), ctol) \/ FxAbsClose(ev.c, FxAdd(c, plain), ctol), "cost"),
                   ClauseIf(FxAbsClose(ev.c, FxAdd(c, pen), ctol) \/ ~FxAbsClose(ev.c, FxAdd(c, plain), ctol), "penalty-of-unsquared-norm"),
                   ClauseIf(Len(ev.g) = Len(w) /\ (\A p \in DOMAIN ev.g : FxFin(ev.g[p]) \/ ~whole) /\ (whole => IF Len(w) <= 80 THEN \A p \in DOMAIN w : Right(p) ELSE \A m \in 1..3 : AlongRight(TLCEval(Dir(m)))), "gradient-of-cost")}
=============================================================================
