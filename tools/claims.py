# property -> (level, level_note)
S = ("TLC explores the specification exhaustively within the stated constants; %s Trusted: TLC, the Rust driver that records outcomes, the vendored stand-ins for rand/rulinalg. "
     "Inputs beyond those enumerated or sampled are not covered.")
CLAIMS = {
 "P01": ("model_checking", S % "every random tape of the real function is enumerated for pools up to 6 (thorough 8) and its exact law judged by the specification; larger pools by seeded counts."),
 "P02": ("model_checking", S % "every random tape of both real shuffles is enumerated up to length 6 (thorough 7) and their exact laws judged by the specification; longer slices by seeded counts."),
 "P03": ("model_checking", S % "recorded values of the real functions at thousands of points are validated against arbitrary precision definitions in TLA+."),
 "P04": ("model_checking", S % "recorded histories of real Gaussian objects are validated against arbitrary precision definitions in TLA+."),
 "P05": ("model_checking", S % "recorded histories of real Exponential objects are validated against arbitrary precision definitions in TLA+."),
 "P06": ("model_checking", S % "samples under scripted standard variates are validated exactly, and seeded draws by counts against the law's distribution function."),
 "P07": ("model_checking", S % "the tree search is modelled as an algorithm and checked for every small data set; recorded builds and searches of the real structures (every data set of up to 4 points of a line, random grids, real data) are validated."),
 "P08": ("model_checking", S % "recorded train/predict histories of the real classifier over all search structures are validated, ties included."),
 "P09": ("model_checking", S % "the cluster expansion is modelled and checked on every small data set; recorded trainings of the real code (every line data set of up to 4 points, random grids with borderline distances) are validated."),
 "P10": ("model_checking", S % "every short history of mode switches and trainings over two data sets, and random ones, are replayed on the real code and validated."),
 "P11": ("model_checking", S % "Lloyd's iteration is modelled with exact rationals and all tie choices; the real code's centroids after 0, 1, 2, ... iterations under one random tape are validated step by step, and the initialisers' laws by counts."),
 "P12": ("model_checking", S % "recorded train/predict histories of the real code are validated."),
 "P13": ("model_checking", S % "the fold loop is modelled for every order of up to 5 (thorough 6) rows; the calls a recording model and score function get from the real code are validated for every small row and fold count, and the law of the folds over all random tapes."),
 "P14": ("model_checking", S % "the counting loop is modelled for every pair of short label sequences and label list; recorded matrices of the real code over six label types are validated."),
 "P15": ("model_checking", S % "the counting loops are modelled for every pair of short label sequences; recorded scores of the real code (all 0/1 sequences of length up to 4, all pairs of 4 labels, random ones) are validated."),
 "P16": ("model_checking", S % "fitting, mapping and undoing one column is modelled with exact integers for every small column; recorded fit/transform/inverse histories of the real scaler are validated against exact arithmetic."),
 "P17": ("model_checking", S % "fitting, mapping and undoing one column is modelled with exact integers for every small column; recorded fit/transform/inverse histories of the real scaler are validated against exact arithmetic."),
 "P18": ("model_checking", S % "the row loop is modelled for every small matrix; recorded calls of the real normalizer under six norms (one user-defined) are validated against exact arithmetic."),
 "P19": ("model_checking", S % "every random tape of the real shuffler is enumerated for up to 5 (thorough 7) rows and its exact law judged; larger matrices by seeded counts."),
 "P20": ("model_checking", S % "training and prediction on binary features are modelled with exact fractions for every small data set, failing trainings included; recorded histories of the three real classifiers are validated against arbitrary precision posteriors."),
 "P21": ("model_checking", S % "epochs, orders and the momentum form are modelled with exact fractions; every call a recording objective gets from the four real optimizers is validated against the update rule, and the law of sample orders over all random tapes."),
 "P22": ("model_checking", S % "the control structure of the line searches is modelled against every objective (costs and slopes are arbitrary, NaN included); recorded runs of the real optimizer on a dozen kinds of objectives are validated."),
 "P23": ("model_checking", S % "forward and backward walks over the flat weight vector are modelled on integers for eight architectures; predictions, weight slices and trainings of the real networks (built in every way, user-defined layers included) are validated against arbitrary precision."),
 "P24": ("model_checking", S % "back-propagation is modelled on integers against forward-propagated derivatives; costs and gradients the real networks hand to a recording optimizer are validated against arbitrary precision tangents."),
 "P25": ("model_checking", S % "along every move between small tables the specified gradients support the specified costs and penalties (convexity); recorded calls of the real functions are validated against them."),
 "P26": ("model_checking", S % "training, failed training and refitting are modelled with exact fractions for every small data set; recorded histories of the real model (dependent and nearly dependent columns, other widths, both training methods) are validated against exact normal equations."),
 "P27": ("model_checking", S % "along every move between small coefficient vectors the specified gradient supports the specified cost (convexity); what the real model hands to a recording optimizer is validated against arbitrary precision, and its own optimizers by equality with a run beside it."),
 "P28": ("model_checking", S % "eight rounds of reweighted least squares are modelled in exact arithmetic for every small data set of three families; fits of the real code under seven families (four user-defined) are validated against coefficients the specification verifies to solve the score equations."),
 "P29": ("model_checking", S % "factorisation, triangular solves, failed and repeated training are modelled for every small data set against the posterior formula and against conditioning one observation at a time; recorded histories of the real process under ten kernels and three mean functions are validated against the posterior computed in arbitrary precision."),
 "P30": ("model_checking", S % "every sequence of draws on every small data set is modelled next to the primal weights it stands for; the exact law of the real model's predictions over all random tapes, laws of longer runs and histories of single models are validated against the law the specification computes."),
 "P31": ("model_checking", S % "kernel values are modelled over all small vectors with their algebra (symmetry, diagonal, sums and products, positive definiteness); recorded evaluations of the real kernels, nested sums and products included, are validated against arbitrary precision."),
 "P32": ("model_checking", S % "EM is modelled on all small data sets from every start (weights sum to one, rounds keep the mean and second moments, the likelihood never falls, components may be swapped); recorded trainings of the real mixtures after 0, 1, 2... rounds are validated round by round, their starts against the exact law of the row draws, and retraining, failures and predictions as histories."),
 "P33": ("model_checking", S % "principal components are computed by Jacobi rotations on all small data sets, kept with the layout flag of the program, and shown to be orthonormal, uncorrelated and of greatest variance; components and predictions recorded from the real code over retraining histories are validated against the same predicates in exact arithmetic."),
 "P34": ("model_checking", S % "the published tables are constants of the specification, shown to have the published statistics; callers which load, copy and change data are modelled, and real loads, also from several threads, are compared cell by cell."),
 "P35": ("model_checking", S % "the life of a model with a fitted state in two fields is modelled with every order of good, failing and mispaired trainings and queries; recorded lives of 30 configurations covering every model of the library are validated against it, next to twins trained on what counts only."),
 "P36": ("model_checking", S % "answering batches of rows is modelled with every batch over small pools of rows and every order of batches; recorded answers of 40 trained models, fitted transformers and their inverses to random batches with repetitions are validated against it: one answer per row, everywhere the same."),
 "P37": ("model_checking", S % "building, setting, training and asking are modelled in every order for an object with options of every kind; the table of documented defaults is a constant of the specification, which says for every recorded history of 33 real classes which explicitly configured object must say the same, bit for bit."),
 "P38": ("model_checking", S % "objects trained in steps on threads of their own are modelled in every interleaving of the steps, with private and with shared buffers, caches and lazily initialised parts; recorded programs with several objects of 40 real kinds, interleaved at random and on concurrent threads, are validated against what each object answers alone in a process of its own."),
 "P39": ("model_checking", S % "handing the rows of each class to a new distribution that may refuse, and rounds of asking a family for weights and responses, are modelled for all small data sets and orders; every call user-supplied distributions, searches, families, criteria, activations, optimisers and initialisers get from the real code, and what becomes of their answers, is validated."),
}
WHY_NOT = {}
