#!/usr/bin/env python3
"""Source of /verif/properties.jsonl and /verif/MANIFEST.json (run: tools/props.py)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))

RU = "src/learning/toolkit/rand_utils.rs"
p("P01", "Reservoir sampling draws a uniform k-subset of the pool",
  "For every pool and every sample size k not exceeding its length, reservoir_sample returns exactly k elements taken from k different positions of the pool, each k-subset of positions being returned with the same probability when the generator is fair. "
  "A sample size greater than the pool length is refused with a panic, and the pool itself is never changed.",
  ["inputs", "histories"], "every pool, every k, every sequence of random draws",
  "The only test draws one sample of size 3 and looks at its length: neither membership, distinctness nor uniformity is observed.",
  [RU], [("replace entry r of the reservoir when r < k", RU + ": reservoir_sample")],
  [("res", "current reservoir", RU), ("ele_seen", "number of pool elements seen so far", RU)], ["return value of reservoir_sample"])
p("P02", "Both Fisher-Yates shuffles produce uniformly distributed permutations",
  "For every slice, fisher_yates returns a rearrangement of it and leaves the slice alone, and in_place_fisher_yates leaves in the slice a rearrangement of what was there; every element occurs exactly as often as before, for every length including 0 and 1. "
  "With a fair generator each of the n! permutations of positions is equally likely.",
  ["inputs", "histories"], "every slice and every sequence of random draws",
  "The tests check one random shuffle of 0..10 for membership; lost or duplicated elements at other lengths, repeated values and any bias escape them.",
  [RU], [("inside-out and in-place Fisher-Yates", RU)],
  [("shuffled_arr", "prefix already shuffled", RU)], ["return value of fisher_yates", "slice after in_place_fisher_yates"])
AF = "src/learning/toolkit/activ_fn.rs"
p("P03", "Activation functions, their gradients and their inverses belong together",
  "At every finite input where the results are representable, Sigmoid::func is 1/(1+e^-x), Linear::func is x, Exp::func is e^x and Tanh::func is tanh x; func_grad is the derivative of func at the input, func_grad_from_output(func(x)) equals func_grad(x), and func_inv(func(x)) equals x - each up to rounding. "
  "Sigmoid stays in [0,1] and Tanh in [-1,1], both are non-decreasing over the whole real line, and no finite input yields a NaN from func or func_grad.",
  ["inputs"], "every finite f64 input of the four provided activation functions",
  "No test evaluates an activation function: they are only used inside small network examples.",
  [AF], [("impl ActivationFunc for Sigmoid, Linear, Exp, Tanh", AF)], (), ["ActivationFunc methods"])
GA = "src/stats/dist/gaussian.rs"; EX = "src/stats/dist/exponential.rs"
p("P04", "Gaussian pdf, logpdf and cdf describe the normal law of the given parameters",
  "For every mean, every positive variance and every point, pdf and logpdf equal the normal density and its logarithm up to rounding, and cdf differs from the normal distribution function by less than 0.004, lies in [0,1], equals 1/2 at the mean, is non-decreasing and satisfies cdf(mean+d) + cdf(mean-d) = 1. "
  "A Gaussian made by new(mean, v), one made by from_std_dev(mean, sqrt v), and, for mean 0 and variance 1, the default one describe the same law.",
  ["inputs", "configurations"], "every mean, variance and point",
  "Only doc-tests at three points exist.", [GA, "src/stats/dist/mod.rs"],
  [("closed forms of pdf, logpdf and the cdf estimate", GA), ("consts SQRT_2_PI, LN_2_PI", "src/stats/dist/mod.rs")],
  [("mean, variance, _std_dev", "parameters kept consistent by the constructors", GA)], ["Distribution methods of Gaussian"])
p("P05", "Exponential pdf, logpdf and cdf describe the exponential law of the given rate",
  "For every rate lambda > 0 and every x >= 0, pdf is lambda*e^(-lambda x), logpdf is its logarithm and cdf is 1-e^(-lambda x), all up to rounding, with cdf non-decreasing from 0 to 1 and the default rate 1. "
  "The parameter accessor returns the rate given, and a negative x makes each of the three functions panic.",
  ["inputs", "configurations"], "every rate and point",
  "Only doc-tests at single points exist.", [EX], [("closed forms and the assertion on the sign of x", EX)],
  [("lambda", "rate", EX)], ["Distribution methods of Exponential"])
p("P06", "Distribution samplers draw from the law their parameters describe",
  "Given a fair source of randomness, values sampled from a Gaussian follow its normal law (location mean, standard deviation the square root of the variance however it was constructed) and values sampled from an Exponential follow its exponential law with mean 1/lambda and are never negative. "
  "sample and ind_sample draw from the same law, successive draws are independent, and sampling leaves the distribution's parameters unchanged.",
  ["inputs", "histories", "configurations"], "every parameter choice and every state of the generator",
  "No test samples from either distribution.", [GA, EX], [("affine / scaling transform of a standard variate", GA + ", " + EX)], (),
  ["rand::distributions::{Sample, IndependentSample} of Gaussian and Exponential"])

KN = ["src/learning/knn/mod.rs", "src/learning/knn/binary_tree.rs", "src/learning/knn/brute_force.rs"]
p("P07", "Every KNN search structure returns the exact k nearest neighbours",
  "After a structure (brute force, KD-tree or ball tree, with any leaf size) has been built from finite data, searching for k neighbours of any point, with k between 1 and the number of rows, returns k different rows with their true Euclidean distances, in non-decreasing order, and no row left out is closer than a returned one (up to rounding of the distances). "
  "Building terminates for every data set, including ones with repeated rows or constant columns, and all structures therefore agree up to ties.",
  ["inputs", "configurations"], "every data set, leaf size, k and query point",
  "The tests search three fixed small data sets with default leaf sizes; pruning mistakes show only for particular geometry.",
  KN, [("branch pruning by minimal distance to a box or ball", KN[1]), ("bounded sorted candidate list", KN[0] + ": KNearest")],
  [("KNearest", "best candidates so far", KN[0])], ["KNearestSearch::search", "KNNClassifier::predict"])
p("P08", "KNN classification is the majority vote of the nearest neighbours",
  "A trained KNN classifier gives each query row the label that occurs most often among the labels of its k nearest training rows (any most frequent label on a tie), whatever search structure is used. "
  "Training with targets of another length or with fewer rows than k fails with an error and leaves the model as it was; predicting before training or for rows of another width fails with an error; and one prediction is returned per query row, independent of the other rows.",
  ["inputs", "configurations", "histories"], "every training set, k, search structure and query batch",
  "Tests predict one to three points on two data sets.", KN, [("vote by label count", KN[0] + ": KNNClassifier::predict")], (), ["KNNClassifier::{train, predict}"])
DB = "src/learning/dbscan.rs"
p("P09", "DBSCAN clusters are the density-connected components of the data",
  "After training with radius eps and min_points m, two core points (rows with at least m rows, themselves included, at a distance below eps) share a cluster exactly when a chain of core points with consecutive distances below eps links them; a non-core row belongs to the cluster of some core row nearer than eps, and is noise (None) when there is none. "
  "Cluster labels are the integers from 0 up to the number of clusters minus one.",
  ["inputs", "configurations"], "every data set, eps and min_points",
  "Two tests with five or six points.", [DB], [("cluster expansion from unvisited core points", DB)],
  [("clusters", "cluster of each row", DB), ("_visited", "rows already processed", DB)], ["DBSCAN::{train, clusters}"])
p("P10", "Predictive DBSCAN answers from the data of its last training only",
  "In predictive mode a query row gets the cluster of its nearest training row when that row is nearer than eps and clustered, and None otherwise, according to the most recent training data and clusters; predictions are never made from an earlier training set. "
  "Predicting without predictive mode, before training, or when the last training was not predictive fails with an error and changes nothing.",
  ["inputs", "histories", "configurations"], "every history of train, set_predictive and predict calls",
  "One test predicts once after one training.", [DB], [("cluster data kept for prediction", DB)],
  [("_cluster_data", "training data kept for prediction", DB), ("predictive", "mode", DB)], ["DBSCAN::predict"])
KM = "src/learning/k_means.rs"
p("P11", "K-means training ends with k finite centroids that are a legal Lloyd result",
  "For every data set with at least k rows and each provided initialiser, training succeeds with a k-row matrix of finite centroids in the coordinate-wise range of the data; with zero iterations the centroids are what the initialiser yields (Forgy: k different data rows, every choice equally likely; KPlusPlus: k different data rows, the first uniformly and each further one with probability proportional to the squared distance to the centroids chosen so far; RandomPartition: the means of the classes of a random partition without empty classes; a user's own initialiser: its rows). "
  "Every further iteration, until the sum of squared distances settles, replaces each centroid by the mean of the rows nearest to it (one without such rows stays), so that sum never increases; k zero, fewer rows than k, initial centroids of the wrong shape, and, for KPlusPlus, fewer distinct rows than k or (with k above one) an entry that is NaN or infinite are refused with an error.",
  ["inputs", "configurations", "histories"], "every data set, k, iteration count, initialiser and sequence of random draws",
  "Tests train on tiny data with random initialisation and assert little more than success.", [KM],
  [("Initializer::init_centroids", KM), ("update of centroids by assignment", KM)], [("centroids", "current centroids", KM)], ["KMeansClassifier::{train, centroids}"])
p("P12", "K-means predicts the nearest centroid",
  "A trained k-means model assigns every query row the index of a centroid at minimal Euclidean distance (among centroids returned by the accessor), row by row. "
  "Predicting before any training fails with an error, and predicting leaves the model unchanged.",
  ["inputs", "histories"], "every model state and query batch", "The tests assign a handful of obvious points.", [KM],
  [("find_closest_centroids", KM)], [("centroids", "current centroids", KM)], ["KMeansClassifier::predict"])
CV = "src/analysis/cross_validation.rs"
p("P13", "Cross validation tests each sample once and never on data it trained on",
  "k_fold_validate returns k scores, one per fold: the model is trained on the rows outside the fold and scored on its predictions for the rows inside it against their own targets; the k test folds partition the rows, their sizes differ by at most one, and inputs stay paired with their targets. "
  "Every split into folds of these sizes is equally likely with a fair generator. An error from training or predicting is returned instead of scores, and fewer than two folds, more folds than rows, or inputs and targets of different lengths are refused.",
  ["inputs", "histories", "configurations"], "every sample count, fold count and shuffle",
  "The tests cover the partition arithmetic for a few sizes with a dummy model.", [CV],
  [("Folds iterator over shuffled indices", CV)], [("shuffled_indices, fold boundaries", "position of the iteration", CV)], ["k_fold_validate"])
CM = "src/analysis/confusion_matrix.rs"
p("P14", "The confusion matrix counts every sample once under (actual, predicted)",
  "confusion_matrix gives a square matrix over the distinct labels of predictions and targets in ascending order, or over exactly the given list in its given order, whose entry (i, j) is the number of samples whose target is the i-th label and whose prediction is the j-th. "
  "With a given list, samples with a label outside it are not counted; lists with duplicates and inputs of different lengths are refused with a panic.",
  ["inputs", "configurations"], "every pair of label vectors and label list", "Four fixed examples.", [CM], [("label index map", CM)], (), ["confusion_matrix"])
SC = "src/analysis/score.rs"
p("P15", "Scores equal their textbook definitions",
  "accuracy and row_accuracy are the fraction of equal entries or rows; precision, recall and f1 on two-class 0/1 data are TP/(TP+FP), TP/(TP+FN) and their harmonic mean 2TP/(2TP+FP+FN); neg_mean_squared_error is minus the mean over rows of the squared differences. "
  "Inputs of different lengths, or labels other than 0 and 1 for precision, recall and f1, are refused with a panic.",
  ["inputs"], "every pair of prediction and target vectors", "A few fixed vectors.", [SC], [("score functions", SC)], (), ["analysis::score functions"])
TR = "src/data/transforms/"
p("P16", "MinMaxScaler maps each column onto the requested range",
  "After fitting, transforming the fitted data sends each column with distinct values affinely and increasingly onto [min, max] of the configuration (minimum to the lower bound, maximum to the upper bound), and other data by the same affine map; inv_transform undoes transform. "
  "Data with another number of columns is refused with an error, as is fitting data without rows, with a constant column or with a non-finite value; a non-finite value transformed later stays non-finite.",
  ["inputs", "histories", "configurations"], "every data set, range and call history", "A few fixed matrices.", [TR + "minmax.rs"],
  [("per column scale and offset", TR + "minmax.rs")], [("scale_factors, const_factors", "fitted map", TR + "minmax.rs")], ["Transformer, Invertible of MinMaxScaler"])
p("P17", "Standardizer gives each column the requested mean and deviation",
  "After fitting, transforming the fitted data gives each non-constant column the configured mean and (sample) standard deviation, other data are mapped by the same increasing affine map, and inv_transform undoes transform. "
  "Fitting fewer than two rows, a constant column or a non-finite value, and data with another number of columns are refused with an error; a non-finite value transformed later stays non-finite.",
  ["inputs", "histories", "configurations"], "every data set, configuration and call history", "A few fixed matrices.", [TR + "standardize.rs"],
  [("stored column means and variances", TR + "standardize.rs")], [("means, variances", "fitted statistics", TR + "standardize.rs")], ["Transformer, Invertible of Standardizer"])
p("P18", "Normalizer scales every row to unit norm in its own direction",
  "Transform divides each row of a matrix by its norm under the configured norm (Euclidean by default), so every such row comes out with norm one and the direction it had; a row of zeros stays as it is. "
  "Data with a row whose norm is not finite are refused with an error; the result does not depend on earlier calls.",
  ["inputs", "configurations"], "every matrix and norm", "A few fixed matrices.", [TR + "normalize.rs"], [("row-wise division", TR + "normalize.rs")], (), ["Transformer of Normalizer"])
p("P19", "Shuffler permutes whole rows uniformly",
  "Shuffler::transform returns the same rows in some order, each row kept intact and as often as before, for every matrix including ones with no or one row. "
  "With a fair generator every order of the rows is equally likely.",
  ["inputs", "histories"], "every matrix and every sequence of random draws", "Four tests compare a random shuffle's row multiset on small matrices.", [TR + "shuffle.rs"],
  [("Fisher-Yates over rows", TR + "shuffle.rs")], (), ["Transformer of Shuffler"])
NB = "src/learning/naive_bayes.rs"
p("P20", "Naive Bayes predicts the class of maximal posterior probability",
  "After training, NaiveBayes predicts for each row a class (one-hot) maximising prior times likelihood, where priors are the class frequencies of the training targets and the likelihood is the product over features of the fitted per-class Gaussian, Bernoulli or Multinomial law (with the add-one smoothing of the latter two). "
  "Target rows without an entry 1, row-count mismatches and, for the Gaussian law, a class with a single row or with a feature that does not vary within it are refused with an error that leaves the model as it was, as is predicting before training or on another number of features; a class without training rows is never predicted.",
  ["inputs", "configurations", "histories"], "every training set and query", "One small example per distribution.", [NB],
  [("class counts and per-class parameters", NB)], [("class_prior, class_counts, cluster_count", "fitted model", NB)], ["NaiveBayes::{train, predict, class_prior}"])
GD = "src/learning/optim/grad_desc.rs"
p("P21", "Gradient-descent optimizers follow their published update rule",
  "Started at any point, GradientDesc, StochasticGD, AdaGrad and RMSProp return the point reached by their documented update rule with their configured rates, using for the stochastic ones the gradient of one sample at a time with every sample used once per epoch in a uniformly random order drawn anew for each, and stopping after the configured number of epochs, or earlier only when an epoch's mean cost no longer differs from that of the epoch before. "
  "Parameters outside their documented range are refused with a panic at construction, and optimizing leaves the optimizer unchanged.",
  ["inputs", "configurations", "histories"], "every objective, start point, configuration and sample order", "Tests minimise x^2 and check that the end is near the minimum.", [GD],
  [("update rules", GD)], [("momentum / accumulated squared gradients", "per-run state", GD)], ["OptimAlgorithm::optimize"])
FM = "src/learning/optim/fmincg.rs"
p("P22", "ConjugateGD never ends above its starting cost and stops within its budget",
  "For every objective and every start point of finite cost, ConjugateGD returns a point whose cost is finite and not greater than the cost at the start, and evaluates the objective no more often than its configured numbers of line searches and of evaluations per line search allow, even where the objective yields NaN. "
  "On well-conditioned strictly convex quadratics the default configuration reaches the minimum up to a millionth of the starting excess.",
  ["inputs", "configurations"], "every objective and start point", "One test on x^2.", [FM], [("line search with Wolfe-Powell conditions", FM)], (), ["OptimAlgorithm::optimize of ConjugateGD"])
NN = ["src/learning/nnet/mod.rs", "src/learning/nnet/net_layer.rs"]
p("P23", "A neural network computes the composition of its layers",
  "For every architecture and every weight vector, predicting a batch applies, row by row, each layer in order (linear layers as affine maps with the bias weights, activation layers element-wise), and the weight vector is split between the layers in order with the sizes each layer declares. "
  "Rows of another width are refused, and untrained networks give finite predictions of the declared output width. "
  "Before any training every layer has the default weights it asks for; those of a dense layer are independent draws from a normal law with mean 0 and variance 2 / (inputs + outputs).",
  ["inputs", "configurations"], "every architecture, weight vector and batch", "Tests only check that training runs.", NN, [("forward_prop over layer weight slices", NN[0])],
  [("weights", "flat weight vector", NN[0])], ["NeuralNet::predict", "NetLayer::forward_pass"])
p("P24", "Back-propagation returns the gradient of the network's cost",
  "For every architecture, criterion and regularisation, and every batch, the gradient the network hands to its optimizer is the derivative of the cost it reports with respect to each weight, up to one fixed positive factor of the data term. "
  "Training therefore performs the configured optimizer's steps on that cost, from the current weights.",
  ["inputs", "configurations"], "every architecture, weights, batch and regularisation", "No test compares gradients with the cost.", NN + ["src/learning/toolkit/cost_fn.rs", "src/learning/toolkit/regularization.rs"],
  [("compute_grad", NN[0]), ("back_input, back_params", NN[1])], [("weights", "flat weight vector", NN[0])], ["Optimizable::compute_grad of the network (through NeuralNet::train with a recording optimizer)"])
p("P25", "Cost functions and regularisers equal their definitions",
  "For outputs and targets of one shape, MeanSqError::cost is half the squared differences summed and divided by the number of rows and CrossEntropyError::cost the cross entropies of targets and outputs summed and divided by it (0 ln 0 counting as 0), with grad_cost proportional to their derivative by a positive factor that does not depend on the entry; other shapes are refused. "
  "Regularization::L1(x) costs x times the absolute weights summed over twice the rows, L2(x) x times the squared weights summed over twice the rows, ElasticNet(x, y) the sum of both, None zero, and reg_grad is the derivative of that by each weight.",
  ["inputs", "configurations"], "every output/target matrix and regularisation", "Tests check one matrix per regulariser.", ["src/learning/toolkit/cost_fn.rs", "src/learning/toolkit/regularization.rs"],
  [("CostFunc", "src/learning/toolkit/cost_fn.rs"), ("Regularization::reg_cost, reg_grad", "src/learning/toolkit/regularization.rs")], (), ["CostFunc, Regularization"])
p("P26", "Linear regression solves the least squares problem",
  "After training on inputs whose columns with the intercept are linearly independent, the parameters minimise the sum of squared residuals, and predictions are intercept plus the inner product of the row with the coefficients. Dependent columns may make training fail with an error, never with a panic, and what a training that succeeded reports still satisfies the normal equations. "
  "The cost and gradient the model offers to optimizers are half the mean squared error of the affine score and its derivative, and train_with_optimization is plain gradient descent with default settings on them from zero. "
  "Refitting, on fewer columns or with the other method, depends on the latest data only; mispaired rows and targets, rows of another width, and predicting before training fail.",
  ["inputs", "histories"], "every full-rank data set and training history", "Three small fits.", ["src/learning/lin_reg.rs"],
  [("normal equations", "src/learning/lin_reg.rs: train")], [("parameters", "coefficients", "src/learning/lin_reg.rs")], ["LinRegressor::{train, predict, parameters}"])
p("P27", "Logistic regression trains by descending its own cross-entropy cost",
  "LogisticRegressor training hands the chosen optimizer the mean cross entropy of the sigmoid of the affine score and its exact gradient, starting from a fixed point, and keeps the result; predictions are the sigmoid of intercept plus inner product. "
  "Predicting before training fails with an error.",
  ["inputs", "histories", "configurations"], "every data set, optimizer and training history", "Tests only construct it.", ["src/learning/logistic_reg.rs"],
  [("BaseLogisticRegressor::compute_grad", "src/learning/logistic_reg.rs")], [("parameters", "coefficients", "src/learning/logistic_reg.rs")], ["LogisticRegressor::{train, predict, parameters}"])
p("P28", "GLM training follows iteratively reweighted least squares of its family",
  "For each family (Bernoulli, Poisson, Normal, and families of the user's own given by link and variance), training reaches, on data whose likelihood has a moderate maximum (scores within 3 for logit, -1.5 to 5 for log), coefficients at which the score equations of that family hold, and predictions are the inverse link of the affine score. "
  "Data without a unique solution make training fail with an error (never a panic) or give some fit; targets of another number than rows are refused with an error; predicting before training fails with an error. Link functions, their derivatives and inverses are the documented ones.",
  ["inputs", "configurations"], "every well-conditioned data set and family", "One example.", ["src/learning/glm.rs"], [("IRLS loop", "src/learning/glm.rs")], [("parameters", "coefficients", "src/learning/glm.rs")], ["GenLinearModel::{train, predict}"])
p("P29", "A Gaussian process predicts its posterior mean and covariance",
  "For every kernel, mean function and noise level, after training on n rows predict returns m(x*) + K(x*,X)(K(X,X)+noise I)^-1 (y - m(X)) and get_posterior the same mean with covariance K(x*,x*) - K(x*,X)(K(X,X)+noise I)^-1 K(X,x*). "
  "The noise is that of the training, not of the query. Where K(X,X)+noise I is not positive definite training fails with an error and the earlier fit stays; querying before training or with rows of another width fails with an error, and retraining forgets the earlier data.",
  ["inputs", "configurations", "histories"], "every kernel, training set and query", "One test that nothing fails.", ["src/learning/gp.rs"], [("Cholesky solve", "src/learning/gp.rs")],
  [("alpha, train_mat, train_data", "fitted posterior", "src/learning/gp.rs")], ["GaussianProcess::{train, predict, get_posterior}"])
p("P30", "SVM prediction is the sign of its kernel expansion and training is Pegasos",
  "A trained SVM predicts +1 or -1 as the sign of the kernel expansion over the training rows (with the constant feature) weighted by its dual coefficients and targets, and training is kernelised Pegasos: for t = 1..optim_iters (at least one) a row i is drawn uniformly and its coefficient grows by one if y_i/(lambda t) sum_j alpha_j y_j K(x_i,x_j) < 1, so predictions follow the law this gives, whatever was trained before. "
  "Predicting before training or with rows of another width fails with an error, and targets of another length than the inputs are refused with an error.",
  ["inputs", "configurations", "histories"], "every kernel, training set and draw sequence", "Tests only construct it.", ["src/learning/svm.rs"], [("train loop", "src/learning/svm.rs")],
  [("alpha", "dual coefficients", "src/learning/svm.rs")], ["SVM::{train, predict}"])
p("P31", "Kernels equal their formulas and compose by sum and product",
  "Each provided kernel returns the documented function of its two vectors and parameters, is symmetric in its arguments, depends on nothing else, and refuses vectors of different lengths with a panic. "
  "A sum or product of kernels evaluates to the sum or product of their values.",
  ["inputs", "configurations"], "every vector pair and parameter choice", "One point per kernel.", ["src/learning/toolkit/kernel.rs"], [("Kernel impls, KernelArith", "src/learning/toolkit/kernel.rs")], (), ["Kernel::kernel"])
p("P32", "Gaussian mixture training performs expectation maximisation",
  "Training starts from the configured prior weights (equal by default, otherwise the given ones normalised; an untrained model reports them), distinct rows drawn uniformly as means and one covariance for all components by the configured option (sample covariance, with the constant on its diagonal, or a multiple of the variances), whatever was trained before; each round replaces weights, means and covariances by the responsibility-weighted estimates (plus the regularization constant on the diagonal) until the likelihood stops changing or max_iters rounds were made; a component responsible for nothing keeps its mean and covariance. Weights stay non-negative with sum one and covariances symmetric. "
  "predict returns for each row the normalised responsibilities, also for rows far from every component. Prior weights of another number, negative or without a positive one, fewer than two rows or fewer rows than components, singular covariances, and predicting before training fail with an error; a failed training leaves the model as it was.",
  ["inputs", "configurations", "histories"], "every data set, component count and covariance option", "Tests only check sums of weights.", ["src/learning/gmm.rs"], [("membership_weights, update_params", "src/learning/gmm.rs")],
  [("mixture_weights, model_means, model_covars", "mixture", "src/learning/gmm.rs")], ["GaussianMixtureModel::{train, predict, means, covariances, mixture_weights}"])
p("P33", "PCA projects onto orthonormal directions of greatest variance",
  "After training, the directions kept are orthonormal, diagonalise the covariance of the (optionally centred) data in order of non-increasing variance and leave no direction with more variance out; predict is the row less the training means (if centring) times the directions. "
  "All min(rows, columns) directions are kept by default and exactly n if n are asked for, as columns of components() or, for data with more columns than rows, as its rows; asking for more than there are fails with an error and leaves the model as it was. Retraining forgets earlier data, and predicting or asking for components before training, or predicting with another number of columns, fails with an error.",
  ["inputs", "configurations", "histories"], "every data set, component count and centring", "Five fixed matrices.", ["src/learning/pca.rs"], [("SVD of the centred data", "src/learning/pca.rs")],
  [("components, centers, inv", "fitted projection", "src/learning/pca.rs")], ["PCA::{train, predict, components}"])
p("P34", "The bundled data sets are consistent",
  "iris::load gives the UCI iris data: 150 rows of four positive measurements with labels 0, 1, 2 for 50 rows each, and trees::load the 31 cherry trees with diameter and height as inputs and volume as target, equal on every call and from every thread, whatever callers do to their copies; dataset accessors return what was stored. ",
  ["inputs"], "every call", "Tests look at the shape only.", ["src/datasets/iris.rs", "src/datasets/trees.rs", "src/datasets/mod.rs"], [("static data", "src/datasets")], (), ["datasets::{iris, trees}::load"])
p("P35", "Models fail before training, learn from the last successful training only",
  "For every model of the library but neural networks, predicting before the first successful training returns an error of the kind UntrainedModel and not a panic or a value, and the accessors of fitted state (parameters, centroids, clusters, means, covariances, weights, components, distribution) show nothing or return that error; after training, predictions and accessors are a function of the configuration, the random draws and the data of the latest successful training; a network answers from its initial weights and continues from those it has, so that its predictions are a function of all its trainings. A training that fails with an error leaves predictions and accessors as they were, and predicting never changes the model. "
  "Inputs and targets of different lengths never train silently on mispaired data.",
  ["histories", "configurations"], "every interleaving of train and predict calls on any model", "Tests train each model once.", ["src/learning", "src/lib.rs"],
  [("Option-valued fitted state", "src/learning")], [("fitted state", "None until trained", "src/learning")], ["SupModel, UnSupModel of all models"])
p("P36", "Every model answers row by row",
  "For every trained model and fitted transformer that works on rows (not row shuffling), the answer to a batch of rows has one entry (or row) per input row, in the order of the inputs, and what it says of a row is a function of the model and that row alone: the same at every position of every batch of any size, for repeated rows and whatever rows come before or after, up to rounding of the floating point sums.",
  ["inputs", "histories"], "every model, every batch of rows, every order of batches", "Tests predict one batch once.", ["src/learning", "src/data/transforms"],
  [("predict methods", "src/learning")], [("answers", "one per row", "src/learning")], ["SupModel::predict, UnSupModel::predict of all models, NaiveBayes::get_log_probs, GaussianProcess::get_posterior, Transformer::transform, Invertible::inv_transform"])
p("P37", "Defaults are the documented ones and an option changes nothing but itself",
  "Every object built by default() or by a constructor that takes only some options behaves, bit for bit on the same draws, like one built with every option given explicitly, the others at their documented values: the optimisers, kernels, criteria, mean function, transformers, distributions, and KNN, DBSCAN, k-means, Gaussian mixtures, SVM, Gaussian processes, PCA, logistic regression and neural networks. "
  "Setting an option (set_iters, set_max_iters, set_predictive, public fields) after construction or training changes that option only: it neither touches another one nor what was learned, the last value set before a training is the one it uses, and accessors return it. Optimiser constructors and DBSCAN refuse non-positive or NaN rates, momenta and radii (AdaGrad a negative constant, RMSProp a decay of one or more) with a panic and accept everything else.",
  ["configurations", "histories"], "every class, every order of setting, training and asking", "Nothing compares defaults with the documentation.",
  ["src/learning", "src/data/transforms", "src/stats/dist"], [("impl Default", "src/learning, src/data/transforms, src/stats/dist"), ("setters", "src/learning/k_means.rs, gmm.rs, dbscan.rs")],
  [("option fields", "configuration", "src/learning")], ["Default::default of all types", "KMeansClassifier::{new, set_iters, iters}", "GaussianMixtureModel::{new, with_weights, set_max_iters}", "DBSCAN::{new, set_predictive}"])

p("P38", "Objects of the library do not influence one another",
  "What a model or fitted transformer answers, shows and returns from training is a function of its own configuration, trainings (with the draws made for them) and queries alone: bit for bit the same in a program where nothing else happens, next to other objects of the same or other kinds that are made, trained (also on data alike in shape, rows or targets, or unsuccessfully) and asked before or in between, and next to objects used at the same time on other threads.",
  ["histories", "schedules"], "every set of objects, every interleaving of their calls, every schedule of their threads", "Every test uses one object in one thread.", ["src/learning", "src/data/transforms"],
  [("fields of the models; no state outside them", "src/learning")], [("fitted state", "owned by one object", "src/learning")], ["SupModel, UnSupModel, Transformer of all types"])
p("P39", "User-supplied parts are asked as documented, their answers used as given",
  "Whatever type the user supplies for one of the library's traits, the library asks it about exactly the data of the training or query, and its answers alone decide the outcome. A naive_bayes::Distribution is made once per training for the number of classes and columns and handed the rows of each class that has any, once; a refusal fails the training and leaves the model as it was; predictions are the greatest joint likelihoods it reports for the query rows and class proportions. A KNearestSearch is built on the training rows and searched for k at each query row; the label is the most frequent among the rows it names. A glm::Criterion's initial mean, working weights, adjustments and link functions (overridden or by the documented defaults) are the ones fitted and predicted with. An nnet::Criterion's cost, gradient, and (exactly when it says it is regularised) penalties, and an ActivationFunc's values and derivatives, make up the objective; an OptimAlgorithm starts at the model's weights and what it returns are the new ones. An Initializer's centroids are the first ones, or the training fails. A stats Distribution's logpdf is by default the logarithm of its pdf.",
  ["inputs", "histories"], "every implementation of the public traits, every data set and query", "The tests use the library's own implementations.", ["src/learning", "src/stats"],
  [("the traits and their callers", "src/learning")], [("user-supplied parts", "as given", "src/learning")], ["naive_bayes::Distribution", "KNearestSearch", "glm::Criterion", "glm::LinkFunc", "nnet::Criterion", "ActivationFunc", "CostFunc", "OptimAlgorithm", "Initializer", "stats::dist::Distribution"])
# ---- claimed checks -----------------------------------------------------
sys.path.insert(0, os.path.join(ROOT, "tools"))
from claims import CLAIMS, WHY_NOT

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
    checks = []
    for x in P:
        i = x["id"]
        if i in CLAIMS:
            lv, note = CLAIMS[i]
            checks.append(dict(property=i, quick_cmd="python3 check " + i, thorough_cmd="python3 check " + i,
                               technique="TLA+ specification checked with TLC; traces of the real code validated against it by TLC",
                               level=lv, level_note=note))
    na = [dict(property=x["id"], reason=WHY_NOT.get(x["id"], "check not built yet")) for x in P if x["id"] not in CLAIMS]
    m = dict(version=1, setup_cmd="python3 check --setup", checks=checks, not_applicable=na,
             notes="Specifications in spec/ (TLA+), drivers in harness/, runner is ./check. No hooks in /repo were needed.")
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    try:
        import jsonschema
        s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for x in P: jsonschema.validate(x, s)
        jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
        assert len({x["id"] for x in P}) == len(P)
        print("valid:", len(P), "properties,", len(checks), "claimed")
    except ImportError:
        print("no jsonschema here; use python3-vt")
if __name__ == "__main__": main()
