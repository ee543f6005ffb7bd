------------------------------ MODULE ExtendMC ------------------------------
(***************************************************************************)
(* Two hosts of user-supplied parts.  One hands a new class distribution   *)
(* the rows of each class, any of which it may refuse, and keeps it when   *)
(* all were taken; the model may have been trained before.  The other runs *)
(* rounds of asking a family for weights and a working response at the     *)
(* current mean, in either order, and solving with both.                   *)
(* Early: the model changes before all rows were taken.  Lone: classes     *)
(* with a single row are not handed over.  Lag: the working response of    *)
(* the round before is taken as good enough.                               *)
(***************************************************************************)
\* ACTIONS Hand Refuse Commit Weigh Respond Solve
EXTENDS Extend
CONSTANTS Labels, Most, Rounds, Early, Lone, Lag
VARIABLES cls, old, model, ups, phase, mu, w, z, solved
vars == <<cls, old, model, ups, phase, mu, w, z, solved>>
\* a data set is the sequence of its rows' classes; row i is <<i>>
X == [i \in DOMAIN cls |-> <<i>>]
Before == <<[class |-> 0, rows |-> <<>>]>>       \* an earlier training
Init == /\ cls \in UNION {[1..n -> Labels] : n \in 1..Most} /\ old \in {<<>>, <<Before>>} /\ model = old
        /\ ups = <<>> /\ phase = "handing" /\ mu = 0 /\ w = -1 /\ z = -1 /\ solved = <<>>
Due(c) == c \in Ran(cls) /\ ~(Lone /\ Len(Indices(cls, c)) = 1) /\ \A u \in DOMAIN ups : ups[u].class # c
Hand == /\ phase = "handing"
        /\ \E c \in Labels : Due(c) /\ ups' = Append(ups, [class |-> c, rows |-> RowsOf(X, cls, c)])
        /\ model' = (IF Early THEN <<ups'>> ELSE model)
        /\ UNCHANGED <<cls, old, phase, mu, w, z, solved>>
Refuse == /\ phase = "handing" /\ (\E c \in Labels : Due(c)) /\ phase' = "refused"
          /\ UNCHANGED <<cls, old, model, ups, mu, w, z, solved>>
Commit == /\ phase = "handing" /\ ~(\E c \in Labels : Due(c)) /\ phase' = "rounds" /\ model' = <<ups>>
          /\ UNCHANGED <<cls, old, ups, mu, w, z, solved>>
Weigh == phase = "rounds" /\ mu < Rounds /\ w # mu /\ w' = mu /\ UNCHANGED <<cls, old, model, ups, phase, mu, z, solved>>
Respond == phase = "rounds" /\ mu < Rounds /\ z # mu /\ z' = mu /\ UNCHANGED <<cls, old, model, ups, phase, mu, w, solved>>
Ready == w = mu /\ (z = mu \/ (Lag /\ z = mu - 1 /\ mu > 0))
Solve == /\ phase = "rounds" /\ mu < Rounds /\ Ready /\ solved' = Append(solved, <<mu, w, z>>) /\ mu' = mu + 1
         /\ UNCHANGED <<cls, old, model, ups, phase, w, z>>
Next == Hand \/ Refuse \/ Commit \/ Weigh \/ Respond \/ Solve
Spec == Init /\ [][Next]_vars
Taken == OwnRows(X, cls, ups) /\ OnceEach(ups)
Whole == phase = "rounds" => model = <<ups>> /\ AllClasses(cls, ups)
Kept == phase # "rounds" => model = old
Fresh == \A i \in DOMAIN solved : solved[i][2] = solved[i][1] /\ solved[i][3] = solved[i][1]
=============================================================================
