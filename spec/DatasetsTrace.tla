---------------------------- MODULE DatasetsTrace ----------------------------
(* Loads of the bundled data sets, with copies changed in between.          *)
EXTENDS Datasets, Fx, TraceRun
DStart(cs) == [loads |-> 0]
DAfter(s, ev) == IF ev.op = "load" THEN [s EXCEPT !.loads = @ + 1] ELSE s
Tenth(v, n) == FxAbsClose(v, FxQ(n, 10), FxMul(FxQ(1, 1000000), FxQ(1, 1000000)))
Same(m, t) == Len(m) = Len(t) /\ \A i \in DOMAIN t : Len(m[i]) = Len(t[i]) /\ \A c \in DOMAIN t[i] : Tenth(m[i][c], t[i][c])
DBad(s, ev) ==
  CASE ev.op = "load" -> IF ev.end # "ok" THEN {"loads"} ELSE
         IF ev.name = "iris" THEN ClauseIf(Same(ev.data, Iris), "iris-data") \cup ClauseIf(Len(ev.target) = 150 /\ \A i \in 1..150 : ev.target[i] = Species(i), "iris-species")
         ELSE ClauseIf(Same(ev.data, Trees), "trees-data") \cup ClauseIf(Len(ev.target) = 31 /\ \A i \in 1..31 : Tenth(ev.target[i], Volumes[i]), "trees-volumes")
    \* equal: a copy and what the accessors return twice are the same to the bit
    [] ev.op = "copy" -> ClauseIf(ev.equal, "accessors-return-stored")
    [] OTHER -> {"unknown-event"}
=============================================================================
