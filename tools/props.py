#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json (the texts live here, once)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NOTE = {}
def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
        why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))
    NOTE[id] = (technique, note)

I, S, H, K = "inputs", "schedules", "histories", "configurations"
TR = "Assumes the reference implementations in the harness and gonum; sampled workloads, no exhaustiveness."

prop("C01", "Parallel loops run every index exactly once",
 "Running a parallel loop over n items with any number of workers (negative for one per CPU) calls the body on disjoint contiguous ranges that together cover 0..n-1 exactly once, and returns only when every call has finished. Worker identities are within the number of workers and never shared by two calls running at the same time. This holds for nested loops, for loops started concurrently, and under every scheduling of the workers.",
 [S, I, K], "all item counts including 0, worker counts, GOMAXPROCS settings, nesting and schedules",
 "The tests run a few sizes on one machine and look only at the final result of one schedule; coverage gaps or overlaps appear for particular size/worker combinations and interleavings.",
 ["base/parallel.go"], [("Parallelize", "base/parallel.go")], ["ranges passed to the callback, overlap of executions, return time"],
 "event-log checker of parallel ranges under race detector", "Every call of the loop body is recorded with a logical clock and the log is checked online and offline, in a -race build. " + TR)

prop("C02", "Concurrent use is free of data races",
 "Independent estimators, and clones of one estimator, may be fitted concurrently, fitted models may be queried concurrently, and the library's own parallelism (worker counts, cross-validation, grid search, sample generation) never makes two goroutines access the same memory without synchronisation. A locked random source may be shared by any number of goroutines: its draws are then exactly the draws of a single sequential stream, each handed out exactly once.",
 [S, H, K], "all interleavings of concurrent fits, predictions, searches and draws",
 "The tests run one estimator at a time and without the race detector; races need particular interleavings and corrupt results silently.",
 ["base/source.go", "base/parallel.go", "model_selection/validation.go", "model_selection/search.go", "neighbors", "cluster", "linear_model", "svm", "neural_network", "preprocessing"],
 [("LockedSource mutex", "base/source.go"), ("PredicterClone per job", "model_selection"), ("Parallelize ranges", "base/parallel.go")],
 ["race detector reports", "recorded draws of a shared source"],
 "race detector plus stream-history checker under stress", "ThreadSanitizer (go -race) on real concurrent workloads plus a linearizability checker for the shared random stream. " + TR)

prop("C03", "Caller's matrices are never modified nor aliased",
 "Fitting, predicting, transforming, scoring and validating never modify the matrices, weights or label data passed by the caller (other than the destination given to receive predictions), nor memory around a view of a larger matrix. A fitted model keeps working identically after the caller overwrites the matrices it was fitted with.",
 [I, H, K], "all estimators, transformers, metrics and model-selection tools, all matrix representations",
 "The tests never look at their inputs again after a call, and do not overwrite them.",
 ["base", "cluster", "linear_model", "metrics", "model_selection", "naive_bayes", "neighbors", "neural_network", "pipeline", "preprocessing", "svm", "gaussian_process"],
 [("ToDense / DenseCopyOf", "base/base.go")], ["inputs and guard cells before and after the call", "predictions before and after overwriting the training data"],
 "guard-cell and snapshot monitors around every call", "Snapshots and guard cells around real calls. " + TR)

prop("C04", "Results depend only on matrix values, not on their representation",
 "Every estimator, transformer, metric and model-selection tool gives the same results for the same values whether a matrix is given as a contiguous dense matrix, a window of a larger one, a transposed view, or any other implementation of the matrix interface. Results written to a destination given by the caller, including a window of a larger matrix, equal the results returned, and nothing outside the destination is written.",
 [I, K], "all entry points and combinations of matrix representations of inputs and destinations",
 "The tests pass contiguous dense matrices almost exclusively; stride and transposition mistakes are invisible on them.",
 ["base/base.go", "base/matrix.go", "metrics", "preprocessing", "neural_network"],
 [("ToDense/FromDense", "base"), ("RawMatrix stride handling", "all packages")], ["results for each representation, guard cells"],
 "differential monitor over matrix representations", "Same workload replayed over representations; results compared. " + TR)

prop("C05", "Refitting forgets the past and clones are independent",
 "Fitting an estimator or transformer again on other data gives exactly what a new one with the same settings gives, unless a warm start was asked for. A clone has the settings of the original and from then on neither affects the other: fitting or using one leaves the predictions of the other unchanged.",
 [H, K], "all sequences of fit, clone, refit and predict, all estimators",
 "The tests fit each object once.",
 ["base/base.go", "cluster", "linear_model", "naive_bayes", "neighbors", "neural_network", "preprocessing", "svm", "gaussian_process", "pipeline"],
 [("PredicterClone/TransformerClone", "all packages"), ("initialisation in Fit", "all packages")], ["predictions along histories"],
 "history monitor: refit and clone vs fresh objects", "Random histories of fit/clone/refit compared with fresh objects. " + TR)

prop("C06", "Seeded results are reproducible for any number of workers",
 "With a random state of a given seed, generation, splitting, fitting and searching give the same results in every run, whatever the number of jobs, the number of CPUs and the scheduling; results of algorithms without randomness depend on none of these either.",
 [S, K, I], "all seeds, job counts, CPU counts and schedules",
 "The tests run one seed with one setting of the number of jobs, on the machine at hand.",
 ["base/source.go", "base/parallel.go", "cluster/kmeans.go", "datasets", "model_selection", "neural_network", "svm", "preprocessing"],
 [("random state handling", "base"), ("index-addressed results of parallel loops", "all packages")], ["results across job counts and GOMAXPROCS"],
 "differential monitor across job counts and schedules", "Same seeded workload repeated with different numbers of jobs, CPUs and injected delays. " + TR)

prop("C07", "Neighbour searches return the true nearest neighbours",
 "A k-nearest-neighbour query returns, for every query point, the k training points at smallest distance in increasing order with their true distances, and a radius query returns exactly the points within the radius, boundary included; this holds for brute force and tree search, every metric, and duplicates. Missing neighbours are reported with infinite distance and index n. Distance functions are symmetric in their arguments and match their definition, and neighbourhood graphs list the same neighbours.",
 [I, K], "all point sets (duplicates, constant columns, integers), query points, k, radii, leaf sizes, metrics and algorithms",
 "A handful of fixed points cannot exercise tree pruning, ties and leaf boundaries.",
 ["neighbors/kdtree.go", "neighbors/unsupervised.go", "neighbors/distance.go", "neighbors/base.go", "neighbors/kdtree.go"],
 [("tree pruning bound", "neighbors/kdtree.go"), ("NearestNeighbors.KNeighbors/Tree", "neighbors")], ["returned distances and indices"],
 "brute-force oracle on monitored queries", "Every returned list compared with an exhaustive scan. " + TR)

prop("C08", "Neighbour-based estimators vote and average correctly",
 "The neighbours classifier predicts the class with the largest total weight among the k nearest training points (ties go to the smallest class) and reports class probabilities that are these weights normalised; the neighbours regressor predicts the weighted mean of their targets. With distance weighting, weights are inverse distances and exact matches take all the weight. The nearest-centroid classifier predicts the class whose centroid (mean, or median for the Manhattan metric) is closest in its metric; scores are accuracy or R2.",
 [I, K], "all training sets, labels, outputs, k, weightings, metrics and queries",
 "Fixed examples do not reach ties, exact matches, several outputs, unusual labels.",
 ["neighbors/classification.go", "neighbors/regression.go", "neighbors/nearest_centroid.go"],
 [("KNeighborsClassifier.Predict/PredictProba", "neighbors/classification.go"), ("KNeighborsRegressor.Predict", "neighbors/regression.go")], ["predictions, probabilities, scores"],
 "independent vote/average oracle", "Predictions recomputed from an exhaustive neighbour list. " + TR)

prop("C09", "Clusterings satisfy their defining conditions",
 "K-means labels every sample with its nearest centroid, every non-empty cluster's centroid is the mean of its samples when it stops before the iteration limit (which ends every fit), the number of clusters is the one asked for, and prediction assigns the nearest centroid. DBSCAN's core samples are exactly those with at least the minimum number of samples (itself included) within eps, clusters are exactly the connected components of core samples, border samples belong to the cluster of one of their core neighbours, and all others are noise (-1).",
 [I, K, S], "all sample sets, settings, seeds, job counts",
 "Labels of two or three fixed data sets are compared; density-reachability and fixed points need arbitrary data.",
 ["cluster/kmeans.go", "cluster/dbscan.go"], [("KMeans.Fit", "cluster/kmeans.go"), ("DBSCAN.Fit", "cluster/dbscan.go")], ["labels, centroids, core indices"],
 "definition checker over observed clusterings", "Labels checked against the definition by exhaustive computation. " + TR)

prop("C10", "Scalers apply exactly their statistics and invert them",
 "Min-max, standard, max-abs and robust scaling transform every column with the statistic of the fitted data (range to the requested interval; mean and standard deviation; largest magnitude; median and empirical quantile range), leave constant columns finite, and the inverse transform recovers the data. Fitting in several batches gives the statistics of all data together for the incremental scalers. Row normalisation gives rows unit norm of the chosen kind and leaves zero rows alone.",
 [I, K, H], "all data (constant, huge, tiny, duplicated, single-row), settings, batch splits",
 "Fixed matrices in the tests do not include degenerate columns, batches, or round trips over scales.",
 ["preprocessing/data.go"], [("Fit/PartialFit/Transform/InverseTransform", "preprocessing/data.go")], ["fitted attributes, transformed and recovered data"],
 "independent statistics oracle and round trips", "Statistics recomputed independently. " + TR)

prop("C11", "Encoders, binarizers, discretizer and imputer are faithful",
 "Label encoders and binarizers map sorted distinct labels one-to-one to codes or indicators and back (unknown labels give code -1, unknown codes NaN, unknown categories an all-zero one-hot group); thresholds are strict; the discretizer puts every value in the bin whose edges contain it, with uniform or quantile edges, and its inverse gives bin centres; the imputer replaces exactly the missing cells by the column's mean, lower median or smallest most frequent value and leaves the others.",
 [I, K], "all label sets, values, missing patterns, strategies, several outputs",
 "Fixed labels and matrices in the tests; unseen values, ties and missing patterns are not.",
 ["preprocessing/label.go", "preprocessing/data.go", "preprocessing/discretization.go", "preprocessing/imputation.go", "preprocessing/itertools.go"],
 [("LabelEncoder/LabelBinarizer/MultiLabelBinarizer/OneHotEncoder/Binarizer/KBinsDiscretizer/Imputer", "preprocessing")], ["codes, indicators, recovered labels, filled cells"],
 "independent encoding oracle and round trips", "Codes recomputed independently. " + TR)

prop("C12", "Feature transforms compute their mathematical definition",
 "Polynomial features are exactly the requested monomials with their exponents; principal components are orthonormal, ordered by explained variance, explain the data's variance, and the inverse of a full transform recovers the data; kernel centring equals centring in feature space; the quantile transform is monotone, maps the fitted range onto [0,1] and interpolates linearly between the quantiles of the fitted columns; the power transform applies the Box-Cox or Yeo-Johnson formula with a likelihood-maximising exponent and inverts; shuffling permutes rows of X and Y together and is undone by its inverse.",
 [I, K], "all data and settings in the documented domain",
 "One or two fixed matrices per transform.",
 ["preprocessing/data.go", "preprocessing/pca.go", "preprocessing/functiontransformer.go"],
 [("Transform/InverseTransform", "preprocessing")], ["transformed and recovered data, components, exponents"],
 "definition oracle and round trips", "Definitions evaluated independently; exponents checked against a numerical likelihood scan. " + TR)

prop("C13", "Splits are partitions and parameter grids are complete",
 "Every k-fold split separates the samples into disjoint train and test sets that together contain each sample exactly once, with k splits whose test sizes differ by at most one (the first ones larger); a train/test split puts every row, with its target, exactly once in one side, of the sizes asked for, in the order of the seeded permutation. A parameter grid enumerates every combination of every grid exactly once.",
 [I, K], "all sample counts, numbers of splits, test sizes, seeds, shuffling, grids",
 "The tests print one split of a small array.",
 ["model_selection/split.go", "model_selection/search.go"], [("KFold.Split, TrainTestSplit", "model_selection/split.go"), ("ParameterGrid", "model_selection/search.go")], ["index lists and row contents"],
 "partition / exactly-once checker", "Each split checked for partition and pairing with tagged rows. " + TR)

prop("C14", "Validation and search score each candidate on held-out data",
 "Cross-validation fits a clone on exactly the training rows of each split and reports the score and estimator of the corresponding split at the corresponding position, for any number of jobs, leaving the given estimator untouched. Grid search evaluates every parameter combination on the same splits, reports its parameters with the mean of its scores, and the best score, index, parameters and estimator consistently (lowest or highest score as asked), for any number of jobs.",
 [I, S, K], "all estimators, splits, grids, job counts, schedules",
 "The tests run one data set; crossed results between parallel jobs need particular schedules.",
 ["model_selection/validation.go", "model_selection/search.go"], [("CrossValidate", "model_selection/validation.go"), ("GridSearchCV", "model_selection/search.go")], ["calls received by an instrumented estimator, results"],
 "recorded-call log checker with instrumented estimator", "An instrumented estimator logs rows seen by each fit and score; the log is checked offline. " + TR)

prop("C15", "Classification metrics match their definitions",
 "Accuracy, confusion matrix, precision, recall, F-score and per-class support equal their definitions for every combination of true and predicted labels and sample weights, for a single class and averaged over classes (macro, micro, support-weighted): the confusion matrix counts (weighted) pairs over the sorted union of the true and predicted labels, and undefined ratios count as 0. Accuracy compares all outputs of a sample, as a fraction or a (weighted) count.",
 [I, K], "all label vectors, weights, averages, beta",
 "A few fixed vectors in the tests, mostly without weights.",
 ["metrics/classification.go"], [("ConfusionMatrix, PrecisionRecallFScoreSupport, AccuracyScore", "metrics/classification.go")], ["returned values"],
 "independent definition oracle", "Counting oracle. " + TR)

prop("C16", "Ranking metrics match their definitions for all score ties",
 "ROC curves, precision-recall curves, area under the curve and average precision equal their definitions for every ranking, including tied scores and sample weights: each threshold's rates count exactly the samples scored at or above it, the area equals the (weighted) probability that a positive outranks a negative with ties counting one half, and averages over several outputs follow the averaging asked for.",
 [I, K], "all score vectors with ties, weights, averages, positive labels",
 "The tests have 4-sample examples.",
 ["metrics/ranking.go"], [("ROCCurve, AUC, ROCAUCScore, PrecisionRecallCurve, AveragePrecisionScore", "metrics/ranking.go")], ["returned curves and areas"],
 "pair-counting oracle", "Pair counting and direct threshold scans. " + TR)

prop("C17", "Regression metrics match their definitions",
 "Mean squared error, mean absolute error and the R2 coefficient equal their definitions for all targets, predictions, sample weights, numbers of outputs and ways of averaging outputs (raw values, uniform, weighted, variance-weighted).",
 [I, K], "all targets, weights, outputs and averaging",
 "The tests use single fixed vectors.",
 ["metrics/regression.go"], [("MeanSquaredError, R2Score and others", "metrics/regression.go")], ["returned values"],
 "independent definition oracle", "Direct evaluation. " + TR)

prop("C18", "Linear models reach the optimum of their objective",
 "Least squares, ridge, lasso / elastic net (single and multi output, coefficient paths, positive constraint) and Bayesian ridge return coefficients satisfying the optimality conditions of their documented objective on the centred and optionally normalised data, within the tolerance asked for, and the intercept that goes with them; predictions are the affine function given by coefficients and intercept, and the score is R2. Fitting with a stochastic solver visits every sample with its target once per epoch, applies the solver's update to the gradient of each mini-batch and returns the best coefficients met. Reported duality gaps bound the distance to the optimum, and predictive standard deviations follow from the posterior covariance.",
 [I, K], "all data (correlated, scaled, constant features), penalties, intercept and normalisation settings, outputs",
 "Fixed data compared with stored numbers, for one setting each.",
 ["linear_model/Base.go", "linear_model/coordinatedescent.go", "linear_model/cdfast.go", "linear_model/bayes.go", "linear_model/ridge.go"],
 [("LinearRegression.Fit", "linear_model"), ("coordinate descent", "linear_model/cdfast.go"), ("BayesianRidge.Fit", "linear_model/bayes.go")], ["coefficients, intercepts, gaps, predictions"],
 "optimality-condition (KKT) monitor", "KKT conditions recomputed on independently prepared data. " + TR)

prop("C19", "Loss gradients are true derivatives; logistic regression converges",
 "For every loss and activation the gradient returned is the derivative of the cost returned, and the cost is the documented regularised loss, whatever the data layout and regularisation mix. Logistic regression returns coefficients at which the gradient of its objective vanishes to the solver's tolerance, predicts the label of largest probability among the labels seen, and its probabilities are in [0,1] and sum to one per sample.",
 [I, K], "all data, parameters, penalties, label sets (binary, multiclass, arbitrary values)",
 "The tests compare one data set's result.",
 ["linear_model/loss.go", "linear_model/logistic.go", "base/activation.go"], [("SquareLoss, LogLoss, CrossEntropyLoss", "linear_model/loss.go"), ("LogisticRegression.Fit", "linear_model/logistic.go")], ["cost and gradient pairs, coefficients, probabilities"],
 "finite-difference and optimality monitors", "Finite differences and independent objective. " + TR)

prop("C20", "Support vector machines are feasible, near-optimal and predict by them",
 "A trained classifier's multipliers lie in (0,C], balance between classes, and reach the dual optimum within the tolerance asked for; a trained regressor's multipliers lie within [-C,C] and sum to zero; support vectors are the training samples with non-zero multipliers. Predictions are the sign (as 0 or 1) or the value of the kernel expansion over support vectors plus the threshold, with the kernel documented (linear, polynomial, rbf, sigmoid, custom), for every output; the cache size never changes the result, and scores are accuracy or R2.",
 [I, K], "all data sets, kernels, C, tolerance, cache sizes, seeds, several outputs, labels in {0,1} or {-1,1}",
 "The tests train on two fixed data sets and check the score.",
 ["svm/svm.go", "svm/svr.go", "svm/kernels.go", "svm/cache.go"], [("svmTrain", "svm/svm.go"), ("svrTrain", "svm/svr.go"), ("cachedKernel", "svm/cache.go")], ["multipliers, support, threshold, predictions"],
 "dual feasibility/optimality monitor with reference solver", "An independent maximal-violating-pair solver gives the optimum. " + TR)

prop("C21", "Covariance kernels are consistent with their definition and gradients",
 "Every covariance kernel and composition (constant, white, RBF, dot product, sums, products, powers) evaluates to its formula: symmetric, its diagonal equal to the diagonal of the full matrix, the cross-matrix consistent with the full one, and its gradient equal to the derivative with respect to the logarithms of its free hyperparameters, in the order in which these are listed. Setting hyperparameters on a clone gives the kernel with exactly these values and leaves the original alone; bounds list in the same order.",
 [I, K], "all kernel compositions, hyperparameters (isotropic and per-feature), fixed or free, inputs incl. duplicates",
 "The tests evaluate one composed kernel on one matrix.",
 ["gaussian_process/kernels/kernels.go"], [("Eval/Diag/Theta/Bounds/CloneWithTheta", "gaussian_process/kernels/kernels.go")], ["kernel matrices, gradients, hyperparameter vectors"],
 "formula and finite-difference oracle over random compositions", "Random kernel trees evaluated by an independent interpreter. " + TR)

prop("C22", "Gaussian process regression is exact conditioning",
 "A fitted Gaussian process predicts the exact posterior mean, standard deviation and covariance for its kernel, noise level and data (and the prior before any fit), also with normalised targets. The log marginal likelihood of the fit, and at any other hyperparameters, and its gradient match their definition; scoring, evaluating a likelihood or changing a clone never changes the model.",
 [I, K], "all data sets, kernels, noise levels, query points",
 "The tests check one data set's score.",
 ["gaussian_process/gpr.go"], [("Regressor.Fit/PredictEx/LogMarginalLikelihood", "gaussian_process/gpr.go")], ["means, deviations, covariances, likelihoods"],
 "dense linear-algebra oracle", "Posterior recomputed by direct elimination. " + TR)

prop("C23", "Neural networks back-propagate the true gradient and train coherently",
 "For every architecture, activation, loss, penalty and batch (batch normalisation aside), the gradient used to train a multilayer perceptron is the derivative of its reported loss, in single and double precision; predictions are the forward pass of its weights (for a classifier the most likely class), saturated outputs and 0/1 regression targets included. Each epoch visits every training sample once, shuffled or not, and moves the weights by the rule of the chosen solver, schedule, momentum and weight decay; early stopping keeps the last fraction of the samples out of training and restores the weights with the best validation score; training stops when the loss or score fails to improve by tol for n_iter_no_change epochs; lbfgs keeps the best weights it evaluated. A fit continues from the current weights only with a warm start, and weights loaded from a saved model are exactly those saved.",
 [I, K, H], "all architectures, settings, batch sizes (including partial last batches), data and fit sequences",
 "The tests check final accuracies on a few data sets.",
 ["neural_network/basemlp64.go", "neural_network/basemlp32.go", "neural_network/multilayer_perceptron.go"],
 [("forwardPass/backprop/fitStochastic/fitLbfgs", "neural_network/basemlp64.go and basemlp32.go")], ["losses, weight updates, predictions"],
 "finite-difference and reference-network monitors", "Reference forward pass and finite differences; plain gradient step observed through weight updates. " + TR)

prop("C24", "Optimizers and activations follow their published update rules",
 "Each stochastic optimizer (SGD with momentum, Adagrad, RMSProp, Adadelta, Adam) moves the parameters by exactly its update rule for the settings given (step size, momentum, decay, gradient clipping by the norm of each column), for any sequence of gradients and parameter shapes, each coordinate depending on its own gradients only: SGD with a step decaying as 100/(100+t)/sqrt(t), Adam with bias-corrected moments, Adagrad dividing by the root of the accumulated squared gradients, RMSProp by the root of their decayed mean once it exceeds one, Adadelta by the ratio of decayed update to gradient magnitudes, the first step of these three being unscaled. Optimisation methods chosen by name minimise what they are given; each activation function computes its formula and its derivative at every point, saturated inputs included.",
 [H, I, K], "all gradient sequences, settings, shapes",
 "The tests only check convergence on a simple function.",
 ["base/optimizers.go", "base/activation.go"], [("SGDOptimizer, AdadeltaOptimizer, AdamOptimizer, ...", "base/optimizers.go"), ("Activation implementations", "base/activation.go")], ["updates for recorded gradient histories"],
 "reference update-rule monitor over gradient histories", "Histories replayed in a reference implementation. " + TR)

prop("C25", "Interpolators pass through knots and follow their definition between",
 "One-dimensional linear interpolation is the piecewise linear function through the knots, given in any order; cubic interpolation is the natural cubic spline through them (continuous with two derivatives); grid interpolation in two dimensions is bilinear within each cell. Linear interpolation continues the end segments outside the range and bridges knots inside whose value is missing (NaN); the knots given are not modified and may be reused by the caller.",
 [I, K], "all knot sets (unsorted, unevenly spaced), evaluation points incl. knots and range ends",
 "The tests evaluate one knot set.",
 ["interpolate/interpolate.go", "interpolate/cubic.go"], [("Interp1d, CubicSpline, Interp2d", "interpolate")], ["values at and between knots"],
 "independent interpolation oracle", "Independent tridiagonal solve and bilinear formula. " + TR)

prop("C26", "Gaussian naive Bayes is exact, also when fitted incrementally",
 "Fitted class means, variances, counts and priors are the (weighted) statistics of each class plus the smoothing term, whether the data came in one fit or in any sequence of partial fits; predicted probabilities are the normalised posterior, sum to one, and the predicted class is the most probable one among the classes declared.",
 [I, H, K], "all data, weights, priors, batch sequences, class labels",
 "The tests fit six points once.",
 ["naive_bayes/naivebayes.go"], [("GaussianNB.Fit/PartialFit", "naive_bayes/naivebayes.go")], ["statistics and posteriors"],
 "independent posterior oracle over batch histories", "Two-pass statistics. " + TR)

prop("C27", "Pipelines equal the manual composition of their steps",
 "Fitting a pipeline fits each transformer on the output of the previous ones and the last step on the result; predicting or transforming applies the same fitted transformations to new data in order (and maps predictions back through transformations of the target), and fit-then-transform in one call is the same as the two calls; scoring equals scoring the last step by hand. Cloning and refitting a pipeline behave like doing so to each step.",
 [I, K, H], "all step lists, data and query sets",
 "The tests run two fixed pipelines.",
 ["pipeline/pipeline.go"], [("Pipeline.Fit/Predict/Score", "pipeline/pipeline.go")], ["calls received by instrumented steps, predictions"],
 "recorded-call log and manual-composition oracle", "Instrumented steps log what they receive. " + TR)

prop("C28", "Data sets are generated and loaded faithfully",
 "Loading a bundled data set or a matrix file (plain or compressed, of any size) yields exactly the values, shapes and names in the file. Generated regression problems have targets equal to the affine function given by the returned coefficients and the bias asked for, generated blobs have the shapes, labels and spread asked for with every sample near the centre of its label, and the same seed gives the same data.",
 [I, K], "all files and sizes, all generator settings and seeds",
 "The tests look at the first rows of the bundled files and one seed.",
 ["datasets/base.go", "datasets/octave.go", "datasets/samples_generator.go"], [("LoadIris and others", "datasets/base.go"), ("LoadOctaveBin", "datasets/octave.go"), ("MakeRegression, MakeBlobs", "datasets/samples_generator.go")], ["loaded and generated values"],
 "independent parser and generator invariants", "Files parsed independently; generator relations recomputed. " + TR)

prop("C29", "Matrix helpers and views address exactly the cells they name",
 "Column and row slices, stacked and offset views and wrapping matrices read and write exactly the cells they denote in the matrix beneath, whatever its stride, and report the right dimensions; conversions to dense share or copy values without changing them, and results copied back reach the caller's matrix; reductions over rows, columns and cells equal their definition.",
 [I, K], "all shapes, offsets, strides and underlying representations",
 "The tests use contiguous matrices of one size.",
 ["base/matrix.go", "base/base.go"], [("MatColSlice, MatRowSlice, MatDenseSlice, ToDense, FromDense...", "base")], ["cells read and written, guard cells"],
 "cell-address oracle with guard cells", "Every cell compared with an index oracle. " + TR)

DONE = open(os.path.join(ROOT, "tools", "done.txt")).read().split()
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        if p["id"] in DONE:
            f.write(json.dumps(p) + "\n")
m = dict(version=1, setup_cmd="bash check.sh build", checks=[], not_applicable=[])
for p in P:
    if p["id"] in DONE:
        t, n = NOTE[p["id"]]
        m["checks"].append(dict(property=p["id"], quick_cmd="bash check.sh %s quick" % p["id"], thorough_cmd="bash check.sh %s thorough" % p["id"],
            technique="runtime monitoring: " + t, level="exploration", level_note=n))
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
