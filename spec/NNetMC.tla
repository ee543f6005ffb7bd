------------------------------- MODULE NNetMC -------------------------------
(***************************************************************************)
(* compute_grad of learning::nnet on integers: weights lie in one flat     *)
(* vector; the forward walk moves `index` up over it layer by layer, the   *)
(* backward walk moves it down again and turns the gradient of a layer's   *)
(* output into those of its weights and of its input.  Activations are     *)
(* squares.  Checked against tangents: the derivative of each output by    *)
(* each weight, propagated forwards from its definition.                   *)
(***************************************************************************)
\* ACTIONS Forward Turn Backward Regularise
EXTENDS Integers, Sequences, SequencesExt
CONSTANTS Nets, Weights, Inputs, Rows, Targets, DropBias, IndexFirst
Linear(i, o) == [t |-> "linear", i |-> i, o |-> o, bias |-> TRUE]
Plain(i, o) == [t |-> "linear", i |-> i, o |-> o, bias |-> FALSE]
Act == [t |-> "act", i |-> 0]
Scale(i) == [t |-> "scale", i |-> i]
Small == {<<Linear(1, 1), Act, Plain(1, 1)>>, <<Plain(1, 1), Act, Linear(1, 1), Act>>, <<Scale(1), Linear(1, 1), Act>>, <<Act, Linear(2, 1)>>, <<Scale(2), Act, Plain(2, 1)>>}
Larger == {<<Linear(2, 1), Act, Linear(1, 2)>>, <<Linear(1, 2), Act, Plain(2, 1)>>, <<Plain(2, 2), Act, Scale(2)>>}
VARIABLES ls, w, x, t, phase, k, index, vals, og, g
vars == <<ls, w, x, t, phase, k, index, vals, og, g>>
Bias(l) == IF l.bias THEN 1 ELSE 0
Params(l) == CASE l.t = "linear" -> (l.i + Bias(l)) * l.o [] l.t = "scale" -> l.i [] OTHER -> 0
RECURSIVE Offset(_, _)
Offset(n, j) == IF j = 1 THEN 0 ELSE Offset(n, j - 1) + Params(n[j - 1])
Sum(s) == FoldLeft(+, 0, s)
InWidth(n) == LET RECURSIVE F(_) F(j) == IF n[j].t = "act" THEN F(j + 1) ELSE n[j].i IN F(1)
OutWidth(n) == LET RECURSIVE F(_) F(j) == IF n[j].t = "act" THEN F(j - 1) ELSE IF n[j].t = "scale" THEN n[j].i ELSE n[j].o IN F(Len(n))
\* a row through a layer whose weights begin behind place `at`
Apply(l, at, v) == CASE l.t = "linear" -> LET u == IF l.bias THEN <<1>> \o v ELSE v IN [c \in 1..l.o |-> Sum([r \in DOMAIN u |-> u[r] * w[at + (r - 1) * l.o + c]])]
                     [] l.t = "scale" -> [c \in DOMAIN v |-> v[c] * w[at + c]]
                     [] OTHER -> [c \in DOMAIN v |-> v[c] * v[c]]
\* rows of a batch
Each(m, Op(_)) == [r \in DOMAIN m |-> Op(m[r])]
Init ==
  /\ ls \in Nets
  /\ w \in [1..Offset(ls, Len(ls) + 1) -> Weights]
  /\ x \in [1..Rows -> [1..InWidth(ls) -> Inputs]]
  /\ t \in [1..Rows -> [1..OutWidth(ls) -> Targets]]
  /\ phase = "forward" /\ k = 1 /\ index = 0 /\ vals = <<x>> /\ og = <<>> /\ g = [p \in DOMAIN w |-> 99999]
Forward ==
  /\ phase = "forward" /\ k <= Len(ls)
  /\ vals' = Append(vals, Each(vals[k], LAMBDA v : Apply(ls[k], index, v)))
  /\ index' = index + Params(ls[k]) /\ k' = k + 1
  /\ UNCHANGED <<ls, w, x, t, phase, og, g>>
Turn ==
  /\ phase = "forward" /\ k > Len(ls)
  /\ phase' = "backward" /\ k' = k - 1
  /\ og' = [r \in 1..Rows |-> [c \in DOMAIN t[r] |-> vals[k][r][c] - t[r][c]]]
  /\ UNCHANGED <<ls, w, x, t, index, vals, g>>
BackParams(l, in) ==   \* as a flat row-major sequence
  CASE l.t = "linear" -> [p \in 1..Params(l) |-> LET r == (p - 1) \div l.o c == ((p - 1) % l.o) + 1 IN
           Sum([n \in 1..Rows |-> (IF l.bias THEN (IF r = 0 THEN 1 ELSE in[n][r]) ELSE in[n][r + 1]) * og[n][c]])]
    [] l.t = "scale" -> [p \in 1..l.i |-> Sum([n \in 1..Rows |-> in[n][p] * og[n][p]])]
    [] OTHER -> <<>>
BackInput(l, at, in) ==
  CASE l.t = "linear" -> Each(og, LAMBDA d : [i \in 1..l.i |-> LET r == IF l.bias /\ DropBias THEN i ELSE i - 1 IN Sum([c \in 1..l.o |-> d[c] * w[at + r * l.o + c]])])
    [] l.t = "scale" -> Each(og, LAMBDA d : [i \in 1..l.i |-> d[i] * w[at + i]])
    [] OTHER -> [n \in 1..Rows |-> [i \in DOMAIN og[n] |-> 2 * in[n][i] * og[n][i]]]
Backward ==
  /\ phase = "backward" /\ k >= 1
  /\ LET l == ls[k] at == index - Params(l) put == IF IndexFirst THEN at ELSE Offset(ls, Len(ls) + 1) - index IN
     /\ g' = [p \in DOMAIN g |-> IF p > put /\ p <= put + Params(l) THEN BackParams(l, vals[k])[p - put] ELSE g[p]]
     /\ og' = BackInput(l, at, vals[k])
     /\ index' = at
  /\ k' = k - 1
  /\ UNCHANGED <<ls, w, x, t, phase, vals>>
Regularise ==      \* half the squares of the weights
  /\ phase = "backward" /\ k = 0
  /\ phase' = "done" /\ g' = [p \in DOMAIN g |-> g[p] + w[p]]
  /\ UNCHANGED <<ls, w, x, t, k, index, vals, og>>
Next == Forward \/ Turn \/ Backward \/ Regularise
Spec == Init /\ [][Next]_vars
\* ---- definitions: outputs and their derivatives by one weight
RECURSIVE Out(_, _)
Out(j, v) == IF j = 0 THEN v ELSE Apply(ls[j], Offset(ls, j), Out(j - 1, v))
RECURSIVE Deriv(_, _, _)
Deriv(j, v, p) ==
  IF j = 0 THEN [i \in DOMAIN v |-> 0]
  ELSE LET l == ls[j] at == Offset(ls, j) in == Out(j - 1, v) d == Deriv(j - 1, v, p) one(q) == IF p = q THEN 1 ELSE 0 IN
       CASE l.t = "linear" -> [c \in 1..l.o |-> Sum([i \in 1..l.i |-> d[i] * w[at + (i - 1 + Bias(l)) * l.o + c] + in[i] * one(at + (i - 1 + Bias(l)) * l.o + c)]) + (IF l.bias THEN one(at + c) ELSE 0)]
         [] l.t = "scale" -> [c \in 1..l.i |-> d[c] * w[at + c] + in[c] * one(at + c)]
         [] OTHER -> [c \in DOMAIN in |-> 2 * in[c] * d[c]]
ForwardRight == \A j \in DOMAIN vals : vals[j] = Each(x, LAMBDA v : Out(j - 1, v))
IndexRight == index = Offset(ls, IF phase = "forward" THEN k ELSE k + 1)
GradRight == phase = "done" => \A p \in DOMAIN w :
  g[p] = w[p] + Sum([n \in 1..Rows |-> LET o == Out(Len(ls), x[n]) d == Deriv(Len(ls), x[n], p) IN Sum([c \in DOMAIN o |-> (o[c] - t[n][c]) * d[c]])])
=============================================================================
