------------------------------ MODULE ScoresMC ------------------------------
(***************************************************************************)
(* The counting loops over every pair of label sequences: one sample at a  *)
(* time into the table and the counters; they equal the definitions after  *)
(* every prefix.  Table indexes a label by its place in `ls`.              *)
(***************************************************************************)
EXTENDS Scores, TLC
CONSTANTS L, Len0, LabelLists
VARIABLES p, t, ls, i, table, hit, tp, fp, fn
vars == <<p, t, ls, i, table, hit, tp, fp, fn>>
\* ACTIONS CountIn Skip
Place(v) == CHOOSE j \in DOMAIN ls : ls[j] = v
Lists == UNION {{s \in [1..m -> L] : Distinct(s)} : m \in 0..LabelLists}
Init == /\ \E m \in 0..Len0 : p \in [1..m -> L] /\ t \in [1..m -> L]
        /\ ls \in Lists \union {Ascending(Ran(p) \union Ran(t))}
        /\ i = 1 /\ hit = 0 /\ tp = 0 /\ fp = 0 /\ fn = 0
        /\ table = [a \in DOMAIN ls |-> [b \in DOMAIN ls |-> 0]]
Counters == /\ hit' = hit + (IF p[i] = t[i] THEN 1 ELSE 0)
            /\ tp' = tp + (IF p[i] = 1 /\ t[i] = 1 THEN 1 ELSE 0)
            /\ fp' = fp + (IF p[i] = 1 /\ t[i] = 0 THEN 1 ELSE 0)
            /\ fn' = fn + (IF p[i] = 0 /\ t[i] = 1 THEN 1 ELSE 0)
            /\ i' = i + 1 /\ UNCHANGED <<p, t, ls>>
Known == i <= Len(p) /\ {p[i], t[i]} \subseteq Ran(ls)
CountIn == /\ i <= Len(p) /\ Known /\ table' = [table EXCEPT ![Place(t[i])][Place(p[i])] = @ + 1] /\ Counters
Skip == /\ i <= Len(p) /\ ~Known /\ UNCHANGED table /\ Counters
Next == CountIn \/ Skip
Spec == Init /\ [][Next]_vars
Pre(s) == SubSeq(s, 1, i - 1)
TableRight == table = Confusion(Pre(p), Pre(t), ls)
CountersRight == hit = Hits(Pre(p), Pre(t)) /\ tp = TP(Pre(p), Pre(t)) /\ fp = FP(Pre(p), Pre(t)) /\ fn = FN(Pre(p), Pre(t))
\* every sample counted once when all labels are listed
OnceEach == Ran(p) \union Ran(t) \subseteq Ran(ls) =>
  FoldLeft(LAMBDA a, r : a + FoldLeft(LAMBDA b, x : b + x, 0, r), 0, table) = i - 1
=============================================================================
