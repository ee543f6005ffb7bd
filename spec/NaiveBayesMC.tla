---------------------------- MODULE NaiveBayesMC ----------------------------
(***************************************************************************)
(* Trainings, successful or not, on data sets of binary features: target   *)
(* rows are read one by one, then classes estimated one by one, then the   *)
(* new model replaces the old; predictions scan the classes for the        *)
(* largest posterior, in exact rational arithmetic.  Estimating a class of *)
(* fewer than MinRows rows fails (2: a variance is needed).                *)
(* Atomic = FALSE: estimates go straight into the model in use.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
CONSTANTS N, D, C, MinRows, Trainings, Atomic
VARIABLES phase, data, i, cnt, ones, new, model, last, left, q, best
vars == <<phase, data, i, cnt, ones, new, model, last, left, q, best>>
\* ACTIONS Begin ReadRow NoClass Estimate TooFew Commit Ask Compare Answer
Row == [f : [1..D -> {0, 1}], c : 0..C]
Data == UNION {[1..n -> Row] : n \in 1..N}
None == <<>>
Zero == [c \in 1..C |-> [n |-> 0, s |-> [j \in 1..D |-> 0]]]
Init == /\ phase = "idle" /\ data = None /\ i = 0 /\ cnt = [c \in 1..C |-> 0] /\ ones = [c \in 1..C |-> [j \in 1..D |-> 0]]
        /\ new = Zero /\ model = [law |-> None, prior |-> None] /\ last = None /\ left = Trainings /\ q = None /\ best = 0
Begin == /\ phase = "idle" /\ left > 0 /\ left' = left - 1 /\ data' \in Data /\ phase' = "read" /\ i' = 1
         /\ cnt' = [c \in 1..C |-> 0] /\ ones' = [c \in 1..C |-> [j \in 1..D |-> 0]] /\ new' = Zero /\ UNCHANGED <<model, last, q, best>>
ReadRow == /\ phase = "read" /\ i <= Len(data) /\ data[i].c > 0 /\ cnt' = [cnt EXCEPT ![data[i].c] = @ + 1]
           /\ ones' = [ones EXCEPT ![data[i].c] = [j \in 1..D |-> @[j] + data[i].f[j]]] /\ i' = i + 1 /\ UNCHANGED <<phase, data, new, model, last, left, q, best>>
Fail == phase' = "idle" /\ i' = 0 /\ data' = None /\ new' = Zero /\ cnt' = [c \in 1..C |-> 0] /\ ones' = [c \in 1..C |-> [j \in 1..D |-> 0]] /\ UNCHANGED <<last, left, q, best>>
NoClass == phase = "read" /\ i <= Len(data) /\ data[i].c = 0 /\ Fail /\ UNCHANGED model
Cls == i - Len(data)
Estimate == /\ phase = "read" /\ Cls \in 1..C /\ (cnt[Cls] = 0 \/ cnt[Cls] >= MinRows)
            /\ new' = [new EXCEPT ![Cls] = [n |-> cnt[Cls], s |-> ones[Cls]]]
            /\ model' = (IF Atomic THEN model ELSE [model EXCEPT !.law = new'])
            /\ i' = i + 1 /\ UNCHANGED <<phase, data, cnt, ones, last, left, q, best>>
TooFew == phase = "read" /\ Cls \in 1..C /\ cnt[Cls] > 0 /\ cnt[Cls] < MinRows /\ Fail /\ UNCHANGED model
Commit == /\ phase = "read" /\ Cls = C + 1 /\ model' = [law |-> new, prior |-> cnt] /\ last' = data
          /\ phase' = "idle" /\ i' = 0 /\ data' = None /\ new' = Zero /\ cnt' = [c \in 1..C |-> 0] /\ ones' = [c \in 1..C |-> [j \in 1..D |-> 0]] /\ UNCHANGED <<left, q, best>>
\* posterior times a common positive factor, as a fraction <<num, den>>; add-one smoothing
Prod(s) == FoldLeft(LAMBDA a, v : a * v, 1, s)
Post(m, c, x) == IF m.prior[c] = 0 THEN <<0, 1>>
                 ELSE <<m.prior[c] * Prod([j \in 1..D |-> IF x[j] = 1 THEN m.law[c].s[j] + 1 ELSE m.law[c].n + 1 - m.law[c].s[j]]), Prod([j \in 1..D |-> m.law[c].n + 2])>>
Less(a, b) == a[1] * b[2] < b[1] * a[2]
Ask == /\ phase = "idle" /\ left = 0 /\ model.prior # None /\ q' \in [1..D -> {0, 1}] /\ best' = 1 /\ i' = 2 /\ phase' = "scan" /\ UNCHANGED <<data, cnt, ones, new, model, last, left>>
Compare == /\ phase = "scan" /\ i <= C /\ best' = (IF Less(Post(model, best, q), Post(model, i, q)) THEN i ELSE best) /\ i' = i + 1
           /\ UNCHANGED <<phase, data, cnt, ones, new, model, last, left, q>>
Answer == phase = "scan" /\ i > C /\ phase' = "answered" /\ UNCHANGED <<data, i, cnt, ones, new, model, last, left, q, best>>
Next == Begin \/ ReadRow \/ NoClass \/ Estimate \/ TooFew \/ Commit \/ Ask \/ Compare \/ Answer
Spec == Init /\ [][Next]_vars
\* the specification: class c's rows counted from the data of the last successful training
InClass(d, c) == {k \in DOMAIN d : d[k].c = c}
Truth(d, c, x) == LET R == InClass(d, c) IN
  IF R = {} THEN <<0, 1>> ELSE <<Cardinality(R) * Prod([j \in 1..D |-> 1 + Cardinality({k \in R : d[k].f[j] = x[j]})]), Prod([j \in 1..D |-> Cardinality(R) + 2])>>
Whole == phase = "idle" => IF last = None THEN model = [law |-> None, prior |-> None]
         ELSE \A c \in 1..C : model.prior[c] = Cardinality(InClass(last, c)) /\ model.law[c].n = model.prior[c] /\ \A j \in 1..D : model.law[c].s[j] = Cardinality({k \in InClass(last, c) : last[k].f[j] = 1})
Maximal == phase = "answered" => \A c \in 1..C : ~Less(Truth(last, best, q), Truth(last, c, q))
NotEmpty == phase = "answered" => InClass(last, best) # {}
\* the two likelihoods of a feature add up to one
Smoothed == phase = "idle" /\ last # None => \A c \in 1..C : model.law[c].n = 0 \/ \A j \in 1..D : (model.law[c].s[j] + 1) \in 1..(model.law[c].n + 1)
=============================================================================
