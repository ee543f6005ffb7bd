---------------------------- MODULE KMeansTrace ----------------------------
EXTENDS KMeans, TraceRun
\* C = <<>>: not trained; it: iterations of the last training, -1 when its start cannot be compared
MStart(cs) == [alg |-> "", k |-> 0, shape |-> <<>>, x |-> <<>>, C |-> <<>>, cls |-> <<>>, it |-> -1]
MAfter(s, ev) ==
  CASE ev.op = "new" -> [s EXCEPT !.alg = ev.alg, !.k = ev.k, !.shape = ev.shape]
    [] ev.op \in {"train", "trained"} -> IF ev.end = "ok" THEN [s EXCEPT !.x = ev.x, !.C = ev.C, !.cls = ev.cls, !.it = ev.it] ELSE s
    [] OTHER -> s
Legal(s, x) == /\ s.k >= 1 /\ s.k <= Len(x)
               /\ s.alg = "plus" => Cardinality({x[i] : i \in DOMAIN x}) >= s.k
               /\ s.alg = "given" => s.shape = <<s.k, Len(x[1])>>
Initial(alg, x, C) == CASE alg = "forgy" -> DrawnFromRows(x, C)
                        [] alg = "plus" -> DrawnFromRows(x, C) /\ Different(C)
                        [] alg = "partition" -> Len(x) <= 6 => MeansOfPartition(x, C)
                        [] alg = "given" -> TRUE
Training(s, ev) ==
  IF ~Legal(s, ev.x) THEN ClauseIf(ev.end = "err", "impossible-k-is-an-error")
  ELSE IF ev.end # "ok" THEN {"training-succeeds"}
  ELSE IF ~Fin(ev.C) THEN {"centroids-finite"}
  ELSE UNION {ClauseIf(Len(ev.C) = s.k, "k-centroids"),
              ClauseIf(s.alg # "given" => \A c \in DOMAIN ev.C : InRange(ev.x, ev.C[c]), "centroids-in-range"),
              ClauseIf(ev.it = 0 /\ Len(ev.C) = s.k => Initial(s.alg, ev.x, ev.C), "initial-centroids"),
              ClauseIf(Classified(ev.x, ev.C, ev.cls), "nearest-centroid"),
              IF s.it >= 0 /\ ev.it = s.it + 1 /\ ev.x = s.x
              THEN ClauseIf(LloydStep(s.x, s.C, s.cls, ev.C), "iteration-means") \union ClauseIf(CostFalls(s.x, s.C, ev.C), "cost-falls")
              ELSE {}}
MBad(s, ev) ==
  CASE ev.op = "new" -> {}
    [] ev.op = "train" -> Training(s, ev)
    [] ev.op = "trained" -> {}                                     \* training itself is P11
    [] ev.op = "law" ->      \* rows chosen by `m` initialisations
         IF ev.end # "ok" THEN {"training-succeeds"}
         ELSE IF ~AllValid(Len(ev.x), ev.k, ev.m, ev.hist) THEN {"initial-centroids"}
         ELSE ClauseIf(IF ev.alg = "plus" THEN PlusLaw(ev.x, ev.k, ev.m, ev.hist) ELSE ForgyLaw(Len(ev.x), ev.k, ev.m, ev.hist), "initial-law")
    [] ev.op = "margins" ->
         IF ev.end # "ok" THEN {"training-succeeds"}
         ELSE ClauseIf(IF ev.alg = "partition" THEN SharedClass(Len(ev.x), ev.k, ev.m, ev.c[1]) /\ SharedClass(Len(ev.x), ev.k, ev.m, ev.c[2])
                       ELSE IF ev.alg = "plus" THEN FirstUniform(Len(ev.x), ev.m, ev.c[1]) /\ SecondPlus(ev.x, ev.m, ev.c[2])
                       ELSE SubsetUniform(Len(ev.x), ev.k, ev.m, ev.c), "initial-law")
    [] ev.op = "chosen" ->   \* runs of k-means++, one row after the other
         IF ev.end # "ok" THEN {"training-succeeds"}
         ELSE IF ~ \A i \in DOMAIN ev.runs : PlusRun(ev.x, ev.k, ev.runs[i]) THEN {"initial-centroids"}
         ELSE ClauseIf(/\ PlusRuns(ev.x, ev.k, ev.runs, 2, (ev.k \div 2) + 1)
                       /\ ev.k > 3 => PlusRuns(ev.x, ev.k, ev.runs, (ev.k \div 2) + 2, ev.k), "initial-law")
    [] ev.op = "wild" -> ClauseIf(ev.end = "ok" /\ ev.initialiser /\ ev.training /\ ev.untrained, "no-number-is-an-error")
    [] ev.op = "units" -> IF ev.end # "ok" THEN {"training-succeeds"} ELSE ClauseIf(Fin(ev.C) /\ OfUnits(ev.n, ev.k, ev.C), "initial-centroids")
    [] ev.op = "singles" ->  \* how often each class of `m` random partitions was a single row
         IF ev.end # "ok" THEN {"training-succeeds"}
         ELSE UNION {ClauseIf(\A c \in DOMAIN ev.n : ev.n[c] < ev.m, "partition-classes-grow"),
                     ClauseIf(\A c, d \in DOMAIN ev.n : NearFx(ev.n[c], FxI(ev.n[d])) \/ NearFx(ev.n[d], FxI(ev.n[c])), "partition-classes-alike")}
    [] ev.op = "predict" ->
         IF s.C = <<>> THEN ClauseIf(ev.end = "err", "predict-before-train-is-an-error")
         ELSE IF ~Fin(s.C) THEN {}
         ELSE IF ev.end # "ok" THEN {"predict-succeeds"}
         ELSE UNION {ClauseIf(Classified(ev.q, s.C, ev.cls), "nearest-centroid"), ClauseIf(ev.C = s.C, "model-unchanged")}
=============================================================================
