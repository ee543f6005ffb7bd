------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* Options of an object.  Numbers are in millionths.                       *)
(* Given: what the constructor was told; the rest is what the              *)
(* documentation promises.  Setting an option changes that option only.    *)
(* What a trained object says depends on the options it had when it was    *)
(* trained and, for the options that shape answers, on those it has now.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
U == 1000000
\* the documented defaults; algorithms and structures are numbered as below
Forgy == 1
Partition == 2
PlusPlus == 3
Full == 1
Diagonal == 2
Regularized == 3      \* with a constant of 1/4
Sigmoid == 1
Tanh == 2
Nothing == 0          \* no regularisation
Ridge == 1            \* L2 with 1/4
Off == 0
On == 1
All == 0              \* all components
Euclid == 2           \* the exponent of the norm
Documented == [
  GradientDesc |-> [alpha |-> 300000, iters |-> 100 * U],
  StochasticGD |-> [alpha |-> 100000, mu |-> 100000, iters |-> 20 * U],
  RMSProp |-> [rate |-> 10000, decay |-> 900000, epsilon |-> 10, iters |-> 50 * U],
  ConjugateGD |-> [rho |-> 10000, sig |-> 500000, int |-> 100000, ext |-> 3 * U, max |-> 20 * U, ratio |-> 100 * U, iters |-> 100 * U],
  AdaGrad |-> <<>>,
  LinearKernel |-> [c |-> 0],
  PolynomialKernel |-> [alpha |-> U, c |-> 0, d |-> U],
  SquaredExpKernel |-> [ls |-> U, ampl |-> U],
  ExponentialKernel |-> [ls |-> U, ampl |-> U],
  HyperTanKernel |-> [alpha |-> U, c |-> 0],
  MultiquadricKernel |-> [c |-> 0],
  RationalQuadraticKernel |-> [alpha |-> U, ls |-> U],
  ConstMean |-> [a |-> 0],
  GaussianProcess |-> [ls |-> U, ampl |-> U, mean |-> 0, noise |-> 0],
  SVM |-> [ls |-> U, ampl |-> U, lambda |-> 300000, iters |-> 100 * U],
  KNN |-> [k |-> 5 * U],
  DBSCAN |-> [eps |-> 500000, points |-> 5 * U, predictive |-> Off],
  KMeans |-> [iters |-> 100 * U, init |-> PlusPlus],
  GaussianMixture |-> [w1 |-> U, w2 |-> U, iters |-> 100 * U, cov |-> Full],
  PCA |-> [n |-> All, center |-> On],
  Logistic |-> [alpha |-> 300000, iters |-> 100 * U],
  NeuralNet |-> [alpha |-> 100000, mu |-> 100000, iters |-> 20 * U, activation |-> Sigmoid, criterion |-> Nothing],
  CrossEntropy |-> [criterion |-> Nothing],
  SquaredError |-> [criterion |-> Nothing],
  Standardizer |-> [mean |-> 0, stdev |-> U],
  MinMax |-> [min |-> 0, max |-> U],
  Normalizer |-> [norm |-> Euclid],
  GaussianLaw |-> [mean |-> 0, variance |-> U],
  ExponentialLaw |-> [lambda |-> U] ]
\* constructors refuse (with a panic) what is not positive here ...
Positive == [class \in DOMAIN Documented |->
  CASE class \in {"GradientDesc"} -> {"alpha"}
    [] class = "StochasticGD" -> {"alpha", "mu"}
    [] class = "AdaGrad" -> {"alpha"}
    [] class = "RMSProp" -> {"rate", "decay", "epsilon"}
    [] class = "DBSCAN" -> {"eps"}
    [] OTHER -> {}]
\* ... negative here ...
NotNegative == [class \in DOMAIN Documented |-> IF class = "AdaGrad" THEN {"tau"} ELSE {}]
\* ... or not below one
BelowOne == [class \in DOMAIN Documented |-> IF class = "RMSProp" THEN {"decay"} ELSE {}]
Acceptable(class, opts) ==
  /\ \A o \in Positive[class] : opts[o] > 0
  /\ \A o \in NotNegative[class] : opts[o] >= 0
  /\ \A o \in BelowOne[class] : opts[o] < U
\* the options that shape answers of a trained object
Shaping == {"predictive"}

Built(defaults, given) == [o \in DOMAIN defaults \cup DOMAIN given |-> IF o \in DOMAIN given THEN given[o] ELSE defaults[o]]
With(opts, name, value) == [opts EXCEPT ![name] = value]
\* two objects which nobody can tell apart
Twins(fit, data, now, f, d, n) ==
  /\ d = data
  /\ f = fit
  /\ \A o \in DOMAIN now \cap Shaping : n[o] = now[o]
=============================================================================
