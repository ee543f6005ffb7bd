------------------------------- MODULE Scores -------------------------------
(***************************************************************************)
(* analysis::confusion_matrix and analysis::score, on labels numbered in   *)
(* their order.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Fx
Ran(s) == {s[i] : i \in DOMAIN s}
Count(S) == Cardinality(S)
Distinct(s) == Count(Ran(s)) = Len(s)
Ascending(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
LabelsOf(p, t, given) == IF given = <<>> THEN Ascending(Ran(p) \union Ran(t)) ELSE given[1]
Cell(p, t, a, b) == Count({i \in DOMAIN p : t[i] = a /\ p[i] = b})
Confusion(p, t, ls) == [i \in DOMAIN ls |-> [j \in DOMAIN ls |-> Cell(p, t, ls[i], ls[j])]]

Hits(p, t) == Count({i \in DOMAIN p : p[i] = t[i]})
TP(p, t) == Cell(p, t, 1, 1)
FP(p, t) == Cell(p, t, 0, 1)
FN(p, t) == Cell(p, t, 1, 0)
Num(f, p, t) == CASE f \in {"accuracy", "row_accuracy"} -> Hits(p, t) [] f = "f1" -> 2 * TP(p, t) [] OTHER -> TP(p, t)
Den(f, p, t) == CASE f \in {"accuracy", "row_accuracy"} -> Len(p)
                  [] f = "precision" -> TP(p, t) + FP(p, t)
                  [] f = "recall" -> TP(p, t) + FN(p, t)
                  [] f = "f1" -> 2 * TP(p, t) + FP(p, t) + FN(p, t)
TwoClass(f) == f \in {"precision", "recall", "f1"}
Legal(f, p, t) == Len(p) = Len(t) /\ (TwoClass(f) => Ran(p) \union Ran(t) \subseteq {0, 1})
\* v (a recorded real) is the score; a score without samples to speak of is left open
IsScore(f, p, t, v) == LET d == Den(f, p, t) IN d = 0 \/ FxClose(v, FxQ(Num(f, p, t), d), Eps(12))
NegMse(o, t) == FxNeg(FxDiv(FxSum([i \in DOMAIN o |-> FxSum([j \in DOMAIN o[i] |-> FxSq(FxSub(o[i][j], t[i][j]))])]), FxI(Len(o))))
=============================================================================
