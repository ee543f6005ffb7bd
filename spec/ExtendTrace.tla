---------------------------- MODULE ExtendTrace ----------------------------
(* Every call recorded by a user-supplied part during one training or query *)
(* of its host; each history has one host.                                  *)
EXTENDS Extend, TraceRun
XStart(cs) == [fit |-> <<>>, k |-> 0]
Fit(s) == s.fit[1]
Only(calls, c) == SelectSeq(calls, LAMBDA e : e.c = c)
Paired(ev) == Len(ev.x) = Len(ev.cls) /\ \A i \in DOMAIN ev.cls : ev.cls[i] \in 1..ev.classes
Refused(calls) == \E i \in DOMAIN calls : calls[i].refused
XAfter(s, ev) ==
  CASE ev.op = "b-train" /\ ev.end = "ok" -> [s EXCEPT !.fit = <<[id |-> Only(ev.calls, "make")[1].id, cls |-> ev.cls, classes |-> ev.classes, cols |-> ev.cols]>>]
    [] ev.op = "c-new" -> [s EXCEPT !.k = ev.k]
    [] ev.op = "c-train" /\ ev.end = "ok" -> [s EXCEPT !.fit = <<[y |-> ev.y]>>]
    [] OTHER -> s

BTrain(ev) ==
  LET makes == Only(ev.calls, "make") ups == Only(ev.calls, "update") IN
  IF ~Paired(ev) THEN ClauseIf(ev.end = "err", "mispaired-refused")
  ELSE IF Len(makes) # 1 \/ makes[1].classes # ev.classes \/ makes[1].cols # ev.cols \/ ev.calls[1].c # "make" THEN {"made-once"}
  ELSE UNION {ClauseIf(ev.end = (IF Refused(ups) THEN "err" ELSE "ok"), "refusal-ends-it"),
              ClauseIf(\A u \in DOMAIN ups : ups[u].id = makes[1].id, "made-once"),
              ClauseIf(OwnRows(ev.x, ev.cls, ups) /\ OnceEach(ups), "rows-of-class"),
              ClauseIf(~Refused(ups) => AllClasses(ev.cls, ups), "every-class")}
BPredict(s, ev) ==
  IF s.fit = <<>> \/ Fit(s).cols # ev.cols THEN ClauseIf(ev.end = "err" /\ ev.lpend = "err", "refused")
  ELSE LET f == Fit(s) n == Len(f.cls)
           Rowed(c) == Indices(f.cls, c) # <<>>
           Asked(calls) == UNION {ClauseIf(\A i \in DOMAIN calls : calls[i].id = f.id, "asks-the-fitted"),
                 ClauseIf(Flat([i \in DOMAIN calls |-> calls[i].rows]) = ev.q \/ Refused(calls), "asks-the-rows"),
                 ClauseIf(\A i \in DOMAIN calls : Len(calls[i].prior) = f.classes /\ \A c \in 1..f.classes : FxAbsClose(calls[i].prior[c], FxQ(Len(Indices(f.cls, c)), n), Eps(12)), "priors")}
           Ans(calls) == Flat([i \in DOMAIN calls |-> calls[i].ans]) IN
       UNION {Asked(ev.calls), Asked(ev.lpcalls),
              IF Refused(ev.calls) THEN ClauseIf(ev.end = "err", "refusal-ends-it")
              ELSE IF ev.end # "ok" \/ Len(ev.out) # Len(ev.q) \/ Len(Ans(ev.calls)) # Len(ev.q) THEN {"answers"}
              ELSE ClauseIf(\A i \in DOMAIN ev.out : ev.out[i] \in 1..f.classes /\ Rowed(ev.out[i]) /\ \A c \in 1..f.classes : Rowed(c) => Ans(ev.calls)[i][c] <= Ans(ev.calls)[i][ev.out[i]], "greatest-answer"),
              IF Refused(ev.lpcalls) THEN ClauseIf(ev.lpend = "err", "refusal-ends-it")
              ELSE IF ev.lpend # "ok" \/ Len(ev.lp) # Len(ev.q) \/ Len(Ans(ev.lpcalls)) # Len(ev.q) THEN {"answers"}
              ELSE ClauseIf(\A i \in DOMAIN ev.lp : \A c \in 1..f.classes : ev.lp[i][c] = (IF Rowed(c) THEN FxI(Ans(ev.lpcalls)[i][c]) ELSE FxNInf), "answers-as-given")}

CTrain(s, ev) ==
  IF Len(ev.x) # Len(ev.y) \/ Len(ev.x) < s.k THEN ClauseIf(ev.end = "err" /\ ev.calls = <<>>, "refused")
  ELSE IF ev.end # "ok" THEN {"trains"} ELSE ClauseIf(Len(ev.calls) = 1 /\ ev.calls[1].c = "build" /\ ev.calls[1].rows = ev.x, "built-on-the-rows")
CPredict(s, ev) ==
  IF s.fit = <<>> THEN ClauseIf(ev.end = "err", "refused")
  ELSE LET sure == \A i \in DOMAIN ev.calls : ev.calls[i].c = "search" /\ ev.calls[i].k = s.k /\ ev.calls[i].point \in Ran(ev.q) IN
  IF ~sure THEN {"searches-the-queries"}
  ELSE IF Refused(ev.calls) THEN ClauseIf(ev.end = "err", "refusal-ends-it")
  ELSE IF ev.end # "ok" \/ Len(ev.labels) # Len(ev.q) THEN {"answers"}
  ELSE ClauseIf(\A i \in DOMAIN ev.q : \E j \in DOMAIN ev.calls : ev.calls[j].point = ev.q[i] /\ Elected(Fit(s).y, ev.calls[j].idx, ev.labels[i]), "elected-by-the-answers")

\* calls of a family: [c, a (argument), r (answer)]; targets given next to the mean in ybar (y)
Means(calls) == {calls[i].r : i \in {j \in DOMAIN calls : calls[j].c \in {"init", "inv"}}}
EtasOf(calls, m) == {calls[i].r : i \in {j \in DOMAIN calls : calls[j].c = "link" /\ calls[j].a = m}} \union {calls[i].a : i \in {j \in DOMAIN calls : calls[j].c = "inv" /\ calls[j].r = m}}
BarsOf(calls, m) == {calls[i].r : i \in {j \in DOMAIN calls : calls[j].c = "ybar" /\ calls[j].a = m}}
GFit(ev) ==
  LET cs == ev.calls ws == Only(cs, "weight") IN
  IF ev.end # "ok" THEN {"fits"}
  ELSE UNION {ClauseIf(\A i \in DOMAIN cs : cs[i].c \in {"weight", "ybar", "link"} => cs[i].a \in Means(cs), "means-as-answered"),
              ClauseIf(\A i \in DOMAIN cs : cs[i].c = "ybar" => cs[i].y = ev.y, "targets-as-given"),
              ClauseIf(\A i \in DOMAIN cs : cs[i].c = "init" => cs[i].a = ev.y, "targets-as-given"),
              ClauseIf(Only(cs, "init") # <<>>, "mean-initialised"),
              IF ws = <<>> THEN {"weights-asked"}
              ELSE LET m == ws[Len(ws)].a IN
                   ClauseIf(\E e \in EtasOf(cs, m) : \E b \in BarsOf(cs, m) : Solves(ev.x, ws[Len(ws)].r, [i \in DOMAIN e |-> FxAdd(e[i], b[i])], ev.beta), "solved-with-the-answers")}
GPredict(ev) ==
  IF ev.end # "ok" \/ Len(ev.calls) # 1 \/ ev.calls[1].c # "inv" THEN {"one-inverse-link"}
  ELSE UNION {ClauseIf(Len(ev.calls[1].a) = Len(ev.q) /\ \A i \in DOMAIN ev.q : FxAbsClose(ev.calls[1].a[i], FxDot(FRow(ev.q[i]), ev.beta), FxMul(Eps(10), FxSum([j \in DOMAIN ev.beta |-> FxAbs(FxMul(FRow(ev.q[i])[j], ev.beta[j]))]))), "linear-predictor"),
              ClauseIf(ev.out = ev.calls[1].r, "answers-as-given")}
Near(a, b) == FxRel(a, b, Eps(12), Eps(60))
GDefault(ev) ==
  UNION {ClauseIf(ev.end = "ok" /\ Len(ev.w) = Len(ev.mu) /\ Len(ev.z) = Len(ev.mu), "defaults"),
         ClauseIf(ev.init = ev.y, "mean-is-target"),
         ClauseIf(\A i \in DOMAIN ev.mu : Near(ev.w[i], FxDiv(FxOne, FxMul(ev.var[i], FxSq(ev.grad[i])))), "working-weight"),
         ClauseIf(\A i \in DOMAIN ev.mu : LET d == FxSub(ev.y[i], ev.mu[i]) IN FxAbsClose(ev.z[i], FxMul(ev.grad[i], d), FxMul(Eps(12), FxMul(FxAbs(ev.grad[i]), FxAdd(FxAbs(ev.y[i]), FxAbs(ev.mu[i]))))), "adjustment")}

NTrain(ev) ==
  IF ev.end # "ok" THEN {"trains"}
  ELSE UNION {ClauseIf(ev.starts = <<ev.before>>, "starts-at-the-weights"), ClauseIf(ev.seen = <<<<ev.x, ev.t>>>>, "data-as-given"), ClauseIf(ev.after = ev.ret, "weights-as-answered"),
              ClauseIf(\A i \in DOMAIN ev.evals : LET e == ev.evals[i] IN e.cost = NetCost(ev.kind, ev.reg, ev.act, e.w, ev.o, ev.x, ev.t), "own-cost"),
              ClauseIf(\A i \in DOMAIN ev.evals : LET e == ev.evals[i] IN e.grad = NetSlope(ev.kind, ev.reg, ev.act, e.w, ev.o, ev.x, ev.t), "own-gradient"),
              ClauseIf(ev.reg = "off" => ev.regcalls = 0, "no-penalty-asked"),
              ClauseIf(ev.out = Out(ev.act, ev.ret, ev.o, ev.x), "own-activation")}
LTrain(ev) ==
  IF ev.end # "ok" THEN {"trains"}
  ELSE UNION {ClauseIf(Len(ev.calls) = 1 /\ ev.calls[1].start = Len(ev.x[1]) + 1, "one-run"),
              ClauseIf(\A i \in DOMAIN ev.calls : ev.calls[i].x = [r \in DOMAIN ev.x |-> Row1(ev.x[r])] /\ ev.calls[i].y = ev.y, "data-as-given"),
              ClauseIf(ev.params = ev.ret, "weights-as-answered")}
ITrain(ev) ==
  IF ev.k = 0 \/ ev.k > Len(ev.x) THEN ClauseIf(ev.end = "err", "refused")
  ELSE UNION {ClauseIf(ev.calls # <<>> /\ \A i \in DOMAIN ev.calls : ev.calls[i].k = ev.k /\ ev.calls[i].x = ev.x, "asked-for-k-of-the-rows"),
              IF ev.refuses \/ Len(ev.given) # ev.k \/ ev.gcols # Len(ev.x[1]) THEN ClauseIf(ev.end = "err", "refused")
              ELSE IF ev.end # "ok" THEN {"trains"} ELSE ClauseIf(ev.cents = ev.given, "starts-as-answered")}
XBad(s, ev) ==
  CASE ev.op = "b-train" -> BTrain(ev)
    [] ev.op = "b-predict" -> BPredict(s, ev)
    [] ev.op = "c-new" -> {}
    [] ev.op = "c-train" -> CTrain(s, ev)
    [] ev.op = "c-predict" -> CPredict(s, ev)
    [] ev.op = "g-fit" -> GFit(ev)
    [] ev.op = "g-predict" -> GPredict(ev)
    [] ev.op = "g-default" -> GDefault(ev)
    [] ev.op = "n-train" -> NTrain(ev)
    [] ev.op = "l-train" -> LTrain(ev)
    [] ev.op = "i-train" -> ITrain(ev)
    [] ev.op = "d-log" -> ClauseIf(ev.end = "ok" /\ (IF ev.p[1] = 0 THEN ev.l = FxNInf ELSE FxAbsClose(ev.l, FxLn(ev.p), FxMul(Eps(13), FxAdd(FxOne, FxAbs(FxLn(ev.p)))))), "log-of-density")
    [] OTHER -> {"unknown-event"}
=============================================================================
