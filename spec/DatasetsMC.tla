----------------------------- MODULE DatasetsMC -----------------------------
(***************************************************************************)
(* Callers load the data sets, take copies of them and change the copies.  *)
(* Aliased: a copy shares its rows with what later calls return.           *)
(***************************************************************************)
\* ACTIONS Load Clone Edit
EXTENDS Datasets, FiniteSets
CONSTANTS Names, Handles, Cells, Aliased
VARIABLES mem, held, last
vars == <<mem, held, last>>
Table(n) == IF n = "iris" THEN Iris ELSE Trees
None == [name |-> "none", rows |-> <<>>, own |-> FALSE]
Init == mem = [n \in Names |-> Table(n)] /\ held = [h \in Handles |-> None] /\ last = "none"
Load == \E h \in Handles, n \in Names : held' = [held EXCEPT ![h] = [name |-> n, rows |-> mem[n], own |-> FALSE]] /\ last' = "load" /\ UNCHANGED mem
Clone == \E h, g \in Handles : h # g /\ held[h].name # "none" /\ held' = [held EXCEPT ![g] = [held[h] EXCEPT !.own = TRUE]] /\ last' = "clone" /\ UNCHANGED mem
Edit == \E h \in Handles, i \in Cells, c \in 1..2 :
                 /\ held[h].own /\ held' = [held EXCEPT ![h].rows[i][c] = 0] /\ last' = "edit"
                 /\ mem' = IF Aliased THEN [mem EXCEPT ![held[h].name][i][c] = 0] ELSE mem
Next == Load \/ Clone \/ Edit
Spec == Init /\ [][Next]_vars
\* what is published about the data
TreesPublished ==      \* R: mean girth 13.248, height 76, volume 30.171; standard deviations 3.138, 6.372, 16.438
  /\ Len(Trees) = 31 /\ Len(Volumes) = 31
  /\ ColumnSum(Trees, 1, 1, 31) = 4107 /\ ColumnSum(Trees, 2, 1, 31) = 31 * 760 /\ Total(Volumes) = 9353
  /\ LET v == 31 * Products(Trees, 1, 1) - 4107 * 4107 IN v \div (31 * 30) = 984 \* hundredths of an inch squared: 3.138^2
  /\ \A i \in 1..30 : Trees[i][1] <= Trees[i + 1][1]
IrisPublished ==       \* UCI: class means 5.006 3.418 1.464 0.244, 5.936 2.770 4.260 1.326, 6.588 2.974 5.552 2.026
  /\ Len(Iris) = 150
  /\ [c \in 1..4 |-> ColumnSum(Iris, c, 1, 50)] = <<2503, 1709, 732, 122>>
  /\ [c \in 1..4 |-> ColumnSum(Iris, c, 51, 100)] = <<2968, 1385, 2130, 663>>
  /\ [c \in 1..4 |-> ColumnSum(Iris, c, 101, 150)] = <<3294, 1487, 2776, 1013>>
Published == last = "none" => TreesPublished /\ IrisPublished
Positive == last = "none" => (\A i \in DOMAIN Iris : \A c \in 1..4 : Iris[i][c] > 0) /\ {Species(i) : i \in 1..150} = {0, 1, 2} /\ \A k \in 0..2 : Cardinality({i \in 1..150 : Species(i) = k}) = 50
Constant == \A h \in Handles : held[h].name # "none" /\ ~held[h].own => held[h].rows = Table(held[h].name)
Untouched == mem = [n \in Names |-> Table(n)]
=============================================================================
