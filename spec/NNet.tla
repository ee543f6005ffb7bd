-------------------------------- MODULE NNet --------------------------------
(***************************************************************************)
(* learning::nnet.  A network is a sequence of layers                      *)
(*   [t |-> "linear", i, o, bias]   weights: rows (bias first), o columns  *)
(*   [t |-> "act", f]               no weights                             *)
(*   [t |-> "scale", i]             a user's layer: one factor per entry   *)
(* whose weights lie one after the other in one flat vector.  Tangents are *)
(* propagated forwards here, the program propagates gradients backwards.   *)
(***************************************************************************)
EXTENDS CostReg, TLC
Params(l) == CASE l.t = "linear" -> (l.i + (IF l.bias THEN 1 ELSE 0)) * l.o [] l.t = "scale" -> l.i [] OTHER -> 0
RECURSIVE Offset(_, _)
Offset(ls, k) == IF k = 1 THEN 0 ELSE Offset(ls, k - 1) + Params(ls[k - 1])
Total(ls) == Offset(ls, Len(ls) + 1)
Slice(ls, w, k) == SubSeq(w, Offset(ls, k) + 1, Offset(ls, k) + Params(ls[k]))
\* do the layers fit together, for rows of the given width?
RECURSIVE WidthAfter(_, _, _)
WidthAfter(ls, k, c) == IF k > Len(ls) THEN c
  ELSE IF ls[k].t # "act" /\ ls[k].i # c THEN -1 ELSE WidthAfter(ls, k + 1, IF ls[k].t = "linear" THEN ls[k].o ELSE c)
Fits(ls, c) == WidthAfter(ls, 1, c) # -1
ActOf(f, x) == CASE f = "sigmoid" -> FxDiv(FxOne, FxAdd(FxOne, FxExp(FxNeg(x)))) [] f = "tanh" -> FxTanh(x) [] f = "exp" -> FxExp(x) [] OTHER -> x
\* derivative, of the value y = f(x)
ActSlope(f, y) == CASE f = "sigmoid" -> FxMul(y, FxSub(FxOne, y)) [] f = "tanh" -> FxSub(FxOne, FxSq(y)) [] f = "exp" -> y [] OTHER -> FxOne
\* one layer; off: where its weights begin
Lin(l, w, off, v) == LET b == IF l.bias THEN 1 ELSE 0 x == IF l.bias THEN <<FxOne>> \o v ELSE v IN
  [j \in 1..l.o |-> FxSum([i \in 1..(l.i + b) |-> FxMul(x[i], w[off + (i - 1) * l.o + j])])]
Layer(l, w, off, v) == CASE l.t = "linear" -> Lin(l, w, off, v) [] l.t = "scale" -> [j \in 1..l.i |-> FxMul(v[j], w[off + j])] [] OTHER -> [j \in DOMAIN v |-> ActOf(l.f, v[j])]
\* the outputs of all layers, <<v>> first
RECURSIVE Pass(_, _, _, _)
Pass(ls, w, k, vs) == IF k > Len(ls) THEN vs ELSE Pass(ls, w, k + 1, TLCEval(Append(vs, Layer(ls[k], w, Offset(ls, k), vs[k]))))
Output(ls, w, v) == Pass(ls, w, 1, <<v>>)[Len(ls) + 1]
\* how far rounding can carry an output of layers k..: e bounds the error of layer k's input vs[k]
Most(s) == FoldLeft(LAMBDA a, x : FxMax(a, x), FxZero, s)
Absol(v) == [i \in DOMAIN v |-> FxAbs(v[i])]
RECURSIVE Drift(_, _, _, _, _)
Drift(ls, w, vs, k, e) == IF k > Len(ls) THEN e
  ELSE LET l == ls[k] off == Offset(ls, k)
           \* errors in, and the terms the layer adds up, under the weights' absolute values
           spread == Layer(l, TLCEval(Absol(w)), off, TLCEval([i \in DOMAIN vs[k] |-> FxAdd(e, FxMul(Eps(14), FxAdd(e, FxAbs(vs[k][i]))))]))
           top == Most(Absol(vs[k + 1]))
           steep == CASE l.t # "act" -> FxOne [] l.f = "exp" -> FxMul(FxI(2), top) [] OTHER -> FxOne
           bias == IF l.t = "linear" /\ l.bias THEN FxOne ELSE FxZero
           next == IF l.t = "act" THEN FxMul(steep, e)
                   \* the bias row of ones is exact: what it adds is too much by its weights
                   ELSE IF bias = FxZero THEN Most(spread)
                   ELSE Most([j \in DOMAIN spread |-> FxSub(spread[j], FxMul(FxSub(FxOne, Eps(14)), FxAbs(w[off + j])))])
       IN Drift(ls, w, vs, k + 1, FxAdd(next, FxMul(Eps(14), FxAdd(FxOne, top))))
\* tangent of a layer's output (vin, vout its values), dv the tangent of its input, by the weight number p
LayerT(l, w, off, vin, vout, dv, p) ==
  CASE l.t = "linear" -> LET b == IF l.bias THEN 1 ELSE 0 mine == p > off /\ p <= off + Params(l) r == (p - off - 1) \div l.o c == ((p - off - 1) % l.o) + 1 IN
         [j \in 1..l.o |-> FxAdd(FxSum([i \in 1..l.i |-> FxMul(dv[i], w[off + (i + b - 1) * l.o + j])]),
                                 IF mine /\ c = j THEN (IF l.bias /\ r = 0 THEN FxOne ELSE vin[r + 1 - b]) ELSE FxZero)]
    [] l.t = "scale" -> [j \in 1..l.i |-> FxAdd(FxMul(dv[j], w[off + j]), IF p = off + j THEN vin[j] ELSE FxZero)]
    [] OTHER -> [j \in DOMAIN dv |-> FxMul(ActSlope(l.f, vout[j]), dv[j])]
RECURSIVE PassT(_, _, _, _, _, _)
PassT(ls, w, k, vs, dv, p) == IF k > Len(ls) THEN dv ELSE PassT(ls, w, k + 1, vs, LayerT(ls[k], w, Offset(ls, k), vs[k], vs[k + 1], dv, p), p)
\* the same along a direction d in weight space, all weights moving at once
LayerD(l, w, off, vin, vout, dv, d) ==
  CASE l.t = "linear" -> LET b == IF l.bias THEN 1 ELSE 0 x == IF l.bias THEN <<FxOne>> \o vin ELSE vin dx == IF l.bias THEN <<FxZero>> \o dv ELSE dv IN
         [j \in 1..l.o |-> FxSum([i \in 1..(l.i + b) |-> FxAdd(FxMul(dx[i], w[off + (i - 1) * l.o + j]), FxMul(x[i], d[off + (i - 1) * l.o + j]))])]
    [] l.t = "scale" -> [j \in 1..l.i |-> FxAdd(FxMul(dv[j], w[off + j]), FxMul(vin[j], d[off + j]))]
    [] OTHER -> [j \in DOMAIN dv |-> FxMul(ActSlope(l.f, vout[j]), dv[j])]
RECURSIVE PassD(_, _, _, _, _, _)
PassD(ls, w, k, vs, dv, d) == IF k > Len(ls) THEN dv ELSE PassD(ls, w, k + 1, vs, TLCEval(LayerD(ls[k], w, Offset(ls, k), vs[k], vs[k + 1], dv, d)), d)
Along(ls, w, vs, d) == PassD(ls, w, 1, vs, [j \in DOMAIN vs[1] |-> FxZero], d)
Tangent(ls, w, vs, p) == PassT(ls, w, 1, vs, [j \in DOMAIN vs[1] |-> FxZero], p)
\* default weights of an affine layer: normal with mean 0 and variance 2 / (inputs + outputs).
\* n weights with mean m1, mean square m2, mean product of neighbours lag; in1, in2 within 1 and 2 standard deviations
InitVar(i, o) == FxQ(2, i + o)
Drawn(i, o, n, m1, m2, lag, in1, in2) ==
  LET v == InitVar(i, o) nn == FxI(n)
      Fair(cnt, p) == LET dev == FxSub(FxI(cnt), FxMul(nn, p)) IN FxLe(FxSq(dev), FxAdd(FxI(2), FxMul(FxI(49), FxMul(nn, FxMul(p, FxSub(FxOne, p))))))
  IN /\ FxLe(FxMul(nn, FxSq(m1)), FxMul(FxI(50), v))
     /\ FxLe(FxMul(nn, FxSq(FxSub(FxDiv(m2, v), FxOne))), FxI(2 * 50))
     /\ FxLe(FxMul(nn, FxSq(lag)), FxMul(FxI(50), FxSq(v)))
     /\ Fair(in1, FxQ(682689, 1000000)) /\ Fair(in2, FxQ(954500, 1000000))
=============================================================================
