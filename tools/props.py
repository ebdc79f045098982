B = "src/booster/"
def P(id, title, statement, over, quant, why, files, mech, technique="", note="", na=None):
    return dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                mech=mech, technique=technique, note=note, na=na)
TODO = "check under construction in this revision"
NOTEST = "The repository's tests run whole boosters on one or two CSV files that are not shipped (one toy Naive Bayes test runs at all); "
SCRIPT = "exhaustive enumeration of weak-learner answer sequences on the real booster, compared step by step with an executable reference model"
CLASS = "exhaustive enumeration of small hypothesis classes and configurations on the real booster, compared with an exact LP game value"
INPUTS = "exhaustive enumeration of small inputs on the real code against a reference model"
TRUST = "Bounded: holds for every execution inside the stated bounds; trusts the reference model (written independently of the code) and that numeric agreement within the stated tolerance is agreement."

PROPS = [
P("C01", "Every distribution shown to a weak learner is valid and capped",
  "Whatever the sample and whatever hypotheses the weak learner has answered so far (none of them perfectly right or wrong for the weights it was shown), each weight vector a classification booster hands to the weak learner has exactly one finite, non-negative entry per training example and sums to one. "
  "The first one is uniform over the examples. "
  "A booster with a capping parameter nu never gives one example more than 1/nu, and SmoothBoost never more than 1/(kappa m).",
  ["inputs", "histories", "configurations"],
  "all samples, all booster configurations and all sequences of weak-learner answers, including answers that are useless or repeated",
  NOTEST + "none looks at the weights, and only a full sweep over answer sequences reaches the degenerate rounds (edge 0, repeated answers, caps that bind exactly).",
  [B + "adaboost/adaboost_algorithm.rs", B + "lpboost/lp_model.rs", B + "erlpboost/qp_model.rs", B + "softboost/qp_model.rs", "src/common/utils.rs", B + "smoothboost/smoothboost_algorithm.rs"],
  [("capped exponential distribution", "src/common/utils.rs project_log_distribution_to_capped_simplex"), ("LP/QP dual distributions", B + "lpboost/lp_model.rs, erlpboost/qp_model.rs, softboost/qp_model.rs")],
  SCRIPT.replace(", compared step by step with an executable reference model", ", every weight vector checked"), "All answer scripts over complete table classes on 2-5 examples, up to 5 rounds, every booster. AdaBoost, AdaBoostV and MadaBoost are judged up to the first answer that is perfect (right or wrong) for the weights shown. " + TRUST),
P("C02", "AdaBoost follows the exponential update and outputs its votes",
  "After any sequence of answers, AdaBoost's next weights are proportional to exp(-y F(x)), F being the combination of all answers so far with coefficients half the log of (1+edge)/(1-edge). "
  "A first answer that is always right (or always wrong) ends the run with that hypothesis alone (or its negation). "
  "Otherwise the result, and the hypothesis visible after each round, are exactly those answers with those coefficients divided by the sum of their absolute values, negative ones included.",
  ["inputs", "histories"], "all labelings, all sequences of weak-learner answers with confidences in [-1,1]",
  NOTEST + "a test can check final accuracy on a few data sets, not that each round of each history makes the right step.",
  [B + "adaboost/adaboost_algorithm.rs", "src/hypothesis/weighted_majority.rs", "src/common/utils.rs"],
  [("weight update", B + "adaboost/adaboost_algorithm.rs update_params"), ("output", "src/hypothesis/weighted_majority.rs from_slices")],
  SCRIPT, "Every script of answers over complete table classes (2-6 examples, up to 6 rounds); repeated patterns of answers over longer samples; histories of thousands of rounds that drive weights below the smallest number and back. " + TRUST),
P("C03", "AdaBoostV follows its margin-corrected update",
  "After any sequence of answers, AdaBoostV's next weights are proportional to exp(-y F(x)), each answer's coefficient in F being half the log of (1+edge)/(1-edge) minus half the log of (1+rho)/(1-rho), where rho is the smallest edge seen so far minus the tolerance. "
  "The result, and the hypothesis visible after each round, are those answers with those coefficients normalised by their absolute sum; a first answer that is always right (wrong) ends the run alone.",
  ["inputs", "histories", "configurations"], "all labelings, tolerances, and sequences of weak-learner answers with confidences in [-1,1]",
  NOTEST + "a test can check final accuracy on a few data sets, not that each round of each history makes the right step.",
  [B + "adaboostv/adaboostv_algorithm.rs", "src/hypothesis/weighted_majority.rs"],
  [("weight update", B + "adaboostv/adaboostv_algorithm.rs update_params")],
  SCRIPT, "Every script of answers over complete table classes (2-6 examples, up to 6 rounds); repeated patterns of answers over longer samples; histories of thousands of rounds that drive weights below the smallest number and back. " + TRUST),
P("C04", "MadaBoost follows its capped update",
  "After any sequence of answers, MadaBoost's next weights are proportional to min(1, product over rounds of beta^(y h(x))), where beta is the square root of e/(1-e), e the square root of half the weighted error. "
  "So no example ever weighs more than its initial share relative to the others at the cap, and correctly classified ones lose weight. "
  "The result, and the hypothesis visible after each round, are the answers with votes log(1/beta), normalised.",
  ["inputs", "histories"], "all labelings and all sequences of weak-learner answers with confidences in [-1,1]",
  NOTEST + "the update rule at a cap is reached only by particular histories.",
  [B + "madaboost/madaboost_algorithm.rs"],
  [("capped weights", B + "madaboost/madaboost_algorithm.rs update_params")],
  SCRIPT, "Every script of answers over complete table classes (2-6 examples, up to 6 rounds); repeated patterns of answers over longer samples; histories of thousands of rounds that drive weights below the smallest number and back. " + TRUST),
P("C05", "SmoothBoost stays smooth and delivers its margin guarantee",
  "SmoothBoost's weights after any history are the normalised measure 1 or (1-gamma)^(N/2) given by the accumulated margin excess over theta = gamma/(2+gamma), and boosting ends exactly when the total measure falls below kappa m. "
  "The result is the plain average of all answers, and if every answer kept the promised edge it ends within the advertised number of rounds with fewer than kappa m examples at margin theta or less.",
  ["inputs", "histories", "configurations"], "all (kappa, gamma), all labelings, all sequences of weak-learner answers; for the guarantee, all weak learners that keep the promised edge",
  NOTEST + "the guarantee quantifies over every adaptive weak learner.",
  [B + "smoothboost/smoothboost_algorithm.rs"],
  [("measure update and stopping", B + "smoothboost/smoothboost_algorithm.rs boost"), ("output weights", B + "smoothboost/smoothboost_algorithm.rs postprocess")],
  "explicit-state search of the margin-sum state space with every terminal path replayed on the real booster, plus exhaustive answer scripts",
  "All margin-sum states reachable under promise-keeping weak learners for the listed (kappa, gamma, m), each terminal path replayed; all scripts to the stated depth. The accumulated excess starts at 1 as in the code (the paper: 0); the guarantee is checked as stated. " + TRUST),
P("C06", "GraphSepBoost separates all pairs and NaiveAggregation reads them back",
  "GraphSepBoost weighs each example by its degree in the graph of differently labelled pairs not yet separated by any answer, and stops exactly when no such pair is left. "
  "The aggregated classifier predicts +1 precisely on inputs whose pattern of answers equals that of some positive training example, so after a complete run every training example is classified correctly.",
  ["inputs", "histories"], "all labelings, all sequences of answers, all aggregated inputs",
  NOTEST + "which pairs remain depends on the whole answer history.",
  [B + "graph_separation_boosting/graph_separation_algorithm.rs", "src/hypothesis/naive_aggregation.rs"],
  [("edge removal and weights", B + "graph_separation_boosting/graph_separation_algorithm.rs boost"), ("pattern lookup", "src/hypothesis/naive_aggregation.rs confidence")],
  "explicit-state breadth-first search over separation graphs, every state's path replayed on the real booster",
  "All reachable separation graphs of up to 5-6 examples; every canonical path replayed. Also samples of up to 200 rows and as many answers, in six families and both orders. " + TRUST),
P("C07", "LPBoost reaches the optimal soft margin",
  "Given a weak learner that always answers with a hypothesis of largest edge from a finite class, LPBoost stops after finitely many rounds with a convex combination of produced hypotheses whose soft margin (cap 1/nu) is within the tolerance of the best over all convex combinations of the class. "
  "After each round, with any weak learner, the weights it shows next minimise the largest edge over the hypotheses answered so far among the weight vectors capped at 1/nu, and the visible hypothesis is optimal for those hypotheses.",
  ["inputs", "histories", "configurations"], "all labelings, hypothesis classes, nu in [1, m], tolerances and tie-breaks of the weak learner",
  NOTEST + "optimality over all combinations is not something accuracy tests observe.",
  [B + "lpboost/lpboost_algorithm.rs", B + "lpboost/lp_model.rs"],
  [("restricted LP", B + "lpboost/lp_model.rs update"), ("stopping rule", B + "lpboost/lpboost_algorithm.rs boost")],
  CLASS + "; plus every answer script to a depth with each round judged by an independent oracle", "All classes of up to 8 hypotheses on up to 5 examples in the stated alphabets; all answer scripts up to 5 rounds. Also finely graded and infinite classes (ellipsoids) on which runs take up to hundreds of rounds, every round judged, with tolerances down to 1e-6 where the method allows. " + TRUST),
P("C08", "ERLPBoost reaches the optimal soft margin",
  "Given a weak learner that always answers with a hypothesis of largest edge from a finite class, ERLPBoost stops after finitely many rounds with a convex combination of produced hypotheses whose soft margin (cap 1/nu) is within the tolerance of the best over all convex combinations of the class. "
  "After each round, with any weak learner whose first answer is not perfectly wrong, the visible hypothesis's soft margin is within the tolerance of the best over the hypotheses answered so far, the weights shown next give none of them an edge larger than that best by more than the tolerance, "
  "and it stops exactly when the regularised upper and lower bounds meet within half the tolerance.",
  ["inputs", "histories", "configurations"], "all labelings, hypothesis classes, nu in [1, m], tolerances and tie-breaks of the weak learner",
  NOTEST + "optimality over all combinations is not something accuracy tests observe.",
  [B + "erlpboost/erlpboost_algorithm.rs", B + "erlpboost/qp_model.rs"],
  [("entropy-regularised QP", B + "erlpboost/qp_model.rs update"), ("stopping rule", B + "erlpboost/erlpboost_algorithm.rs boost")],
  CLASS + "; plus every answer script to a depth with each round judged by an independent oracle", "All classes of up to 8 hypotheses on up to 5 examples in the stated alphabets; all answer scripts up to 5 rounds. Also finely graded and infinite classes (ellipsoids) on which runs take up to hundreds of rounds, every round judged, with tolerances down to 1e-6 where the method allows. " + TRUST),
P("C09", "CERLPBoost reaches the optimal soft margin with every Frank-Wolfe rule",
  "With each of the four step rules, given a weak learner that always answers with a hypothesis of largest edge from a finite class whose first answer is better than the tolerance, CERLPBoost stops within its advertised number of rounds with a convex combination of produced hypotheses whose soft margin is within the tolerance of the best over the class. "
  "With any weak learner, the weights shown are always the capped exponential weights of the current combination, each step is the one its rule prescribes (short-step, line-search and blended-pairwise never lower the smoothed margin), and it stops exactly when the answer gains at most half the tolerance over the current combination.",
  ["inputs", "histories", "configurations"], "all labelings, hypothesis classes, nu in [1, m], tolerances, step rules and tie-breaks",
  NOTEST + "each step rule has its own edge cases that only particular margins reach.",
  [B + "cerlpboost/cerlpboost_algorithm.rs", "src/common/frank_wolfe.rs", "src/common/utils.rs"],
  [("step rules", "src/common/frank_wolfe.rs"), ("capped exponential weights", "src/common/utils.rs exp_distribution")],
  CLASS + "; plus every answer script to a depth with each round judged by an independent oracle", "All classes of up to 8 hypotheses on up to 5 examples in the stated alphabets; all answer scripts up to 5 rounds. Also finely graded and infinite classes (ellipsoids) on which runs take up to hundreds of rounds, every round judged, with tolerances down to 1e-6 where the method allows. " + TRUST),
P("C10", "MLPBoost reaches the optimal soft margin with every Frank-Wolfe rule",
  "With each of the four step rules, given a weak learner that always answers with a hypothesis of largest edge from a finite class, MLPBoost stops within its advertised number of rounds with a convex combination of produced hypotheses whose soft margin is within the tolerance of the best over the class. "
  "With any weak learner, the weights shown are always the capped exponential weights of the current combination, the new combination's smoothed margin is at least what the Frank-Wolfe step would reach, and it stops exactly when that margin is within half the tolerance of the smallest edge.",
  ["inputs", "histories", "configurations"], "all labelings, hypothesis classes, nu in [1, m], tolerances, step rules and tie-breaks",
  NOTEST + "each step rule has its own edge cases that only particular margins reach.",
  [B + "mlpboost/mlpboost_algorithm.rs", B + "mlpboost/perturbed_lp_model.rs", "src/common/frank_wolfe.rs"],
  [("primary and secondary updates", B + "mlpboost/mlpboost_algorithm.rs boost"), ("perturbed LP", B + "mlpboost/perturbed_lp_model.rs")],
  CLASS + "; plus every answer script to a depth with each round judged by an independent oracle", "All classes of up to 8 hypotheses on up to 5 examples in the stated alphabets; all answer scripts up to 5 rounds. Also finely graded and infinite classes (ellipsoids) on which runs take up to hundreds of rounds, every round judged, with tolerances down to 1e-6 where the method allows; and every sequence of draws from three levels for the random perturbation of its linear program (rand is replaced by a controlled source). " + TRUST),
P("C11", "SoftBoost and TotalBoost reach the optimal margin",
  "Given a weak learner that always answers with a hypothesis of largest edge from a finite class, SoftBoost (cap 1/nu) and TotalBoost (no cap) stop after finitely many rounds with a convex combination of produced hypotheses whose soft, respectively hard, margin is within the tolerance of the best over the class. "
  "With any weak learner, the weights shown next give every answered hypothesis an edge of at most the smallest edge seen minus the tolerance and stay close to uniform in relative entropy among such weights, boosting stops when no such weights exist (to within a fifth of the tolerance), and the visible hypothesis is optimal for the answers so far.",
  ["inputs", "histories", "configurations"], "all labelings, hypothesis classes, nu in [1, m], tolerances and tie-breaks",
  NOTEST + "optimality over all combinations is not something accuracy tests observe.",
  [B + "softboost/softboost_algorithm.rs", B + "softboost/qp_model.rs", B + "totalboost/totalboost_algorithm.rs"],
  [("relative-entropy projection", B + "softboost/qp_model.rs update"), ("final LP", B + "softboost/qp_model.rs weights")],
  CLASS + "; plus every answer script to a depth with each round judged by an independent oracle", "All classes of up to 8 hypotheses on up to 5 examples in the stated alphabets; all answer scripts up to 5 rounds. Also finely graded and infinite classes (ellipsoids) on which runs take up to hundreds of rounds, every round judged, with tolerances down to 1e-6 where the method allows. " + TRUST),
P("C12", "Stepping by hand, peeking and reusing a booster change nothing",
  "Calling run gives the same weights shown and the same result as calling preprocess, boost until it ends, and postprocess by hand. "
  "Looking at the current hypothesis between rounds changes nothing, and after the last round it equals the result. "
  "A booster that was used before, in a complete run or one interrupted after any number of rounds, behaves in the next run as a fresh one. "
  "The result only combines hypotheses the weak learner answered in this run, with weights of total absolute value one, non-negative except for AdaBoost, AdaBoostV and MadaBoost.",
  ["inputs", "histories", "configurations"], "all boosters and configurations, all answer sequences, all earlier uses of the same object",
  NOTEST + "no test uses a booster twice or steps it by hand.",
  ["src/booster/core.rs", "src/research/logger.rs", B + "erlpboost/erlpboost_algorithm.rs", B + "lpboost/lpboost_algorithm.rs", B + "mlpboost/mlpboost_algorithm.rs"],
  [("state reset", "preprocess of every booster"), ("run loop", "src/booster/core.rs Booster::run")],
  "exhaustive enumeration of call sequences (run, interrupted runs, stepping, peeking) on the real booster", "All answer scripts to depth 2-4 over table classes on 2-3 examples x all earlier uses up to 2 rounds or complete. " + TRUST),
P("C13", "Boosting ends within the advertised number of rounds",
  "Whatever a weak learner that never stops answering says, AdaBoost, AdaBoostV, MadaBoost, SmoothBoost, ERLPBoost, CERLPBoost, MLPBoost, SoftBoost and TotalBoost consult it at most the advertised number of times (AdaBoost, AdaBoostV and MadaBoost exactly so often, unless an answer is perfect), and LPBoost at most until an answer repeats; each then produces a result. "
  "A forced number of rounds is respected exactly, and gives the hypothesis an unlimited run shows after that round.",
  ["inputs", "histories", "configurations"], "all boosters and configurations, all infinite answer sequences",
  NOTEST + "termination is a liveness claim about every weak learner.",
  [B + "adaboost/adaboost_algorithm.rs", B + "lpboost/lpboost_algorithm.rs", B + "softboost/softboost_algorithm.rs"],
  [("round bounds", "max_loop / preprocess / boost of every booster")],
  "exhaustive enumeration of answer sequences (every prefix to a depth, continued for ever in two ways) on the real booster, run to its end", "All prefixes to depth 2-5 on 2-4 examples, continued cyclically or by the last answer; tolerances 0.7 and 0.4. A first answer without the edge the booster needs, or only useless answers, are outside. Also repeated patterns of answers over longer samples, and forced numbers of rounds below, at and far above the advertised one. " + TRUST),
P("C14", "AdaBoost bounds the training error, AdaBoostV reaches the best hard margin",
  "After any history, the fraction of training examples the visible AdaBoost hypothesis gets wrong is at most the product over the rounds of the square root of 1 minus the squared edge. "
  "Given a weak learner that always answers with a hypothesis of largest edge from a finite class, AdaBoostV's result has a hard margin within the tolerance of the best over all convex combinations of the class.",
  ["inputs", "histories", "configurations"], "all labelings, answer sequences, hypothesis classes, tolerances and tie-breaks",
  NOTEST + "the bounds quantify over all histories and over all convex combinations.",
  [B + "adaboost/adaboost_algorithm.rs", B + "adaboostv/adaboostv_algorithm.rs"],
  [("votes", B + "adaboost/adaboost_algorithm.rs update_params"), ("round bound", B + "adaboostv/adaboostv_algorithm.rs max_loop")],
  "exhaustive enumeration of answer scripts and of small hypothesis classes on the real booster, against the error bound and the exact game value", "All scripts to depth 3-6 on 2-5 examples; all classes as in C07. " + TRUST),
P("C15", "The CSV reader returns exactly the file's table",
  "Reading a CSV file with a header and a named target column gives a sample with one row per data line and one column per other header name, in file order, holding exactly the numbers written (surrounding blanks ignored), the target separate; without a header the columns are named by position. "
  "Every accessor (by row, by column, by name, shape, unique targets) agrees with that table. "
  "Line endings and a missing final newline change nothing. A file that is missing is reported; one with a non-number, an unknown target or a row of another length than the others is refused, never half-read.",
  ["inputs", "configurations"], "all tables, number formats, target columns, header settings and line endings",
  NOTEST + "no shipped test reads a file with an odd row.",
  ["src/sample/sample_reader.rs", "src/sample/sample_struct.rs", "src/sample/feature_struct.rs"],
  [("parser", "src/sample/sample_struct.rs from_csv, set_target"), ("reader", "src/sample/sample_reader.rs read")],
  INPUTS, "All matrices over 4-7 number spellings up to 3 rows x 4 columns, every target column, header setting and line ending; 14 kinds of malformed file. Also larger tables (hundreds of rows, many columns) with many spellings. " + TRUST),
P("C16", "The svmlight reader returns exactly the file's table",
  "Reading an svmlight file gives one row per line with the line's label as target, and one column per feature index that is non-zero somewhere, in index order, holding the written value where one is written and zero elsewhere; a zero written out is the same as one left out. "
  "Every accessor (by row, by column, by name, number of non-zeros, shape, unique targets) agrees with that table. "
  "The order of the entries within a line, the blanks between them and a missing final newline change nothing. A missing file is reported, a malformed entry refused.",
  ["inputs"], "all sparse tables, index sets, orders of entries and separators",
  NOTEST + "no shipped test reads a sparse file.",
  ["src/sample/sample_reader.rs", "src/sample/sample_struct.rs", "src/sample/feature_struct.rs"],
  [("parser", "src/sample/sample_struct.rs from_svmlight, index_and_feature"), ("zero columns", "src/sample/sample_struct.rs remove_allzero_features"), ("lookup", "src/sample/feature_struct.rs Index for SparseFeature")],
  INPUTS, "Every assignment of absent / written zero / value to up to 3 rows x 3 indices, 6 index sets, all separators and orders; 12 kinds of malformed entry. Also larger files with hundreds of rows and large indices. " + TRUST),
P("C17", "Column statistics and column operations mean the same for dense and sparse data",
  "For any data, labels and non-negative weights, the weighted mean and variance of every column, over all rows (weights a probability vector) or over the rows of one label (weights normalised over those rows), are the textbook values, whether the column is stored densely or sparsely; a label without weight gives zero. "
  "After any sequence of choosing a new target column and renaming columns, a sample holds exactly the remaining columns, in order, under their current names, and the chosen target.",
  ["inputs", "histories"], "all columns, labels, weights, both representations, all sequences of column operations",
  NOTEST + "the toy test uses dense data only.",
  ["src/sample/feature_struct.rs", "src/sample/sample_struct.rs", "src/common/utils.rs"],
  [("moments", "src/sample/feature_struct.rs weighted_mean*, weighted_variance*"), ("columns", "src/sample/sample_struct.rs set_target, replace_names")],
  INPUTS, "All columns over 3-4 values on up to 5 rows, all labelings over 3 labels, all weights over a grid; all operation sequences to depth 3-4. Also long columns over finer value grids. " + TRUST),
P("C18", "Cross-validation folds partition the sample",
  "CrossValidation yields exactly the requested number of folds. In each, every row of the sample occurs exactly once, in the training or in the test part, with its own values, label and column names, dense or sparse. "
  "No row is tested in two folds; every fold tests one minus the training ratio of the rows (to within one row) until the rows are used up. Without shuffling rows are tested in order; with shuffling their order depends on the seed, and the same seed gives the same folds.",
  ["inputs", "configurations"], "all sample sizes, numbers of folds, ratios, seeds, both representations",
  NOTEST + "no test runs a cross validation at all.",
  ["src/research/cross_validation.rs", "src/sample/sample_struct.rs"],
  [("fold bounds", "src/research/cross_validation.rs fold_at"), ("split", "src/sample/sample_struct.rs split, append")],
  INPUTS, "All sizes to 12 (quick) or 26 (thorough), up to 8 folds, 6-10 ratios, no shuffle and 2-4 seeds, dense and sparse. Also longer samples; and every sequence of draws a shuffle of up to 4-5 rows can make (rand is replaced by a controlled source). " + TRUST),
P("C19", "Decision trees are the greedy trees of their criterion",
  "For any data with at least one column, labels and non-negative weights the decision tree learner answers with a greedy tree over the positively weighted rows: a node is split at a threshold that is best for the chosen criterion (entropy, edge, Gini, twoing) among all columns and all thresholds halfway between neighbouring non-empty bins (equal-width bins over the column's range, as many as requested, otherwise one per distinct value up to 255), and is a leaf only if it holds one label, the maximum depth is used up, or no split improves the criterion. "
  "A leaf's confidence is the difference of the weights of its two labels over their sum; rows go left exactly when their value in the column of that name is below the threshold. "
  "Values of any magnitude are accepted, dense or sparse alike; scaling all weights changes nothing.",
  ["inputs", "configurations"], "all tables, labels, weights, criteria, depths, numbers of bins and representations",
  NOTEST + "no shipped test looks at a tree.",
  ["src/weak_learner/decision_tree/decision_tree_algorithm.rs", "src/weak_learner/decision_tree/bin.rs", "src/weak_learner/decision_tree/criterion.rs", "src/weak_learner/decision_tree/train_node.rs"],
  [("growing", "src/weak_learner/decision_tree/decision_tree_algorithm.rs produce, full_tree"), ("criteria", "src/weak_learner/decision_tree/criterion.rs"), ("binning", "src/weak_learner/decision_tree/bin.rs")],
  INPUTS, "All columns over 3-4 values on up to 3-5 rows and 1-3 columns x all labelings x weight grids x 4 criteria x depth 1-3 x 5 bin counts x dense/sparse; every tree compared, at every combination of training, in-between and far values, with all greedy trees (ties branch). Also longer columns, more bins and rows. " + TRUST),
P("C20", "Regression trees are the greedy trees of their loss",
  "For any data with at least one column, loss function (gradients and Hessians), predictions and regularisation lambda the regression tree learner answers with a greedy tree: a node is split at a threshold (halfway between neighbouring non-empty equal-width bins of a column) that maximises the sum over both sides of squared gradient sum over (Hessian sum + lambda), and is a leaf only if no split improves that over leaving the node whole or the maximum depth, counted in levels of nodes with the root as the first, is reached. "
  "A leaf predicts minus its gradient sum over (Hessian sum + lambda). Values of any magnitude are accepted, dense or sparse alike.",
  ["inputs", "configurations"], "all tables, gradients, Hessians, lambdas, depths, numbers of bins and representations",
  NOTEST + "no shipped test looks at a tree.",
  ["src/weak_learner/regression_tree/regression_tree_algorithm.rs", "src/weak_learner/regression_tree/bin.rs", "src/weak_learner/regression_tree/train_node.rs"],
  [("growing", "src/weak_learner/regression_tree/regression_tree_algorithm.rs produce, full_tree"), ("leaf value", "src/weak_learner/regression_tree/node.rs, regression_tree_algorithm.rs"), ("binning", "src/weak_learner/regression_tree/bin.rs")],
  INPUTS, "All tables as in C19 x gradient grids x 2-3 Hessian vectors x 3 lambdas x 1-4 levels; compared with all greedy trees. Also longer columns, more bins and rows. " + TRUST),
P("C21", "Gaussian naive Bayes chooses the class of largest posterior",
  "For any sample and any weights that form a probability vector (every label that carries weight having positive variance in every column), the naive Bayes learner answers with a classifier whose label, at every point however far from the data, is the label maximising prior times the product over the columns of normal densities with that label's weighted mean and weighted variance in the column. "
  "Only labels that carry weight can be answered. Ratios of its class probabilities are the ratios of those products. Dense and sparse samples, two or more classes.",
  ["inputs"], "all tables, labels, weights, representations and query points",
  "The toy test compares one prediction on one table.",
  ["src/weak_learner/naive_bayes/nbayes.rs", "src/weak_learner/naive_bayes/nbayes_classifier.rs", "src/weak_learner/naive_bayes/probability.rs"],
  [("training", "src/weak_learner/naive_bayes/nbayes.rs produce"), ("density", "src/weak_learner/naive_bayes/probability.rs Gaussian"), ("argmax", "src/weak_learner/naive_bayes/nbayes_classifier.rs confidence, predict")],
  INPUTS, "All columns over 3-4 values on up to 4-5 rows, 1-2 columns, labelings over 2-3 labels, weight grids, dense and sparse; queried on a grid reaching far outside the data. Also longer samples. " + TRUST),
P("C22", "Gradient boosting never increases its loss and moves along the answers optimally",
  "In every round GBM shows the weak learner the current combined predictions (zero at first); the coefficient it gives the answer minimises the chosen loss along that answer, so the training loss never increases from round to round. "
  "It ends when no coefficient lowers the loss or after its round limit, and returns the sum of coefficient times answer, without normalisation. Running the same booster twice gives the same result; the same holds with the library's regression tree as weak learner.",
  ["schedules", "inputs", "histories"], "all samples, losses and sequences of weak-learner answers",
  NOTEST + "no shipped test runs gradient boosting at all.",
  ["src/booster/gradient_boost/gbm.rs", "src/common/loss_functions.rs"],
  [("round", "src/booster/gradient_boost/gbm.rs boost"), ("coefficient", "src/common/loss_functions.rs best_coefficient")],
  SCRIPT, "All answer scripts over value tables on up to 3-4 rows, both losses; loss, predictions shown and coefficient checked in every round. Also long histories of answers. " + TRUST),
P("C23", "The bad base learner is admissible and as bad as it claims",
  "BadBaseLearner accepts any capping parameter nu in [1, n]. With e = tolerance/(2n), h = n/2 rounded up and s = nu rounded up, its class consists of: the hypothesis of margin 1 on the first h rows, -1+2e on the next s and -1+3e after them; for k = 1..h-1 the hypothesis of margin 1 on the s rows from h+k, -1+(2k+2)e on the next s and -1+(2k+3)e elsewhere; and the hypothesis of margin -1+e on the first h rows and 1-e on the rest (rows beyond the n-th do not exist). "
  "Each answer is the member of largest edge under the weights shown, so confidences stay within [-1, 1]. "
  "LPBoost with capping parameter 1 and tolerance 0.05 needs more than n/2 rounds against it (n up to 100). Sample::dummy(n) has one column and labels the first half of its rows (rounded down) +1, the rest -1.",
  ["inputs", "schedules"], "all sample sizes, capping parameters and weights shown",
  NOTEST + "no shipped test uses this learner.",
  ["src/weak_learner/bad_learner/worstcase_lpboost.rs", "src/weak_learner/bad_learner/worstcase_classifier.rs", "src/weak_learner/bad_learner/builder.rs", "src/sample/sample_struct.rs"],
  [("class", "src/weak_learner/bad_learner/builder.rs"), ("answer", "src/weak_learner/bad_learner/worstcase_lpboost.rs produce"), ("dummy", "src/sample/sample_struct.rs dummy")],
  SCRIPT, "All sizes to 11 (quick) or 16 x all weights over a simplex grid; sizes to 100 (quick) or 140 x 9 capping parameters x 5 tolerances x weights on every block of rows and mixtures, plus all weights LPBoost shows. " + TRUST),
P("C24", "Objectives and losses are what their names say",
  "For any sample and hypothesis: the soft-margin objective is the smallest weighted margin over all distributions capped at 1/nu, the hard-margin objective the smallest margin, the exponential loss the mean of exp(-label times prediction). "
  "For the regression losses, the pointwise value, the sample mean, gradient and Hessian agree with one another (up to one common positive factor; any subgradient where the absolute error has a kink), and the best coefficient minimises the loss along the given direction.",
  ["inputs"], "all samples, predictions, directions and capping parameters",
  NOTEST + "no shipped test evaluates an objective or a loss function of these.",
  ["src/research/objective_functions.rs", "src/common/loss_functions.rs"],
  [("objectives", "src/research/objective_functions.rs eval"), ("losses", "src/common/loss_functions.rs")],
  INPUTS, "All confidence tables over 4-5 values on up to 4-5 rows, all labelings, capping grids; all prediction/target vectors for the losses; oracles by enumeration of vertices and candidate coefficients. Also long vectors of confidences. " + TRUST),
P("C25", "Combined and saved hypotheses keep their meaning",
  "A weighted majority built from any votes and hypotheses, and then pushed to, normalised, or decomposed in any order, predicts what its list of votes says: confidence is the vote-weighted sum, the label its sign (zero counts as +1); building from slices drops zero votes only and normalises the rest to absolute sum one. "
  "Trees, naive Bayes classifiers and weighted majorities predict the same everywhere after being written as JSON and read back; the DOT file written for a tree describes the same tree (numbers to two decimals).",
  ["histories", "inputs", "configurations"], "all vote lists, sequences of operations, saved hypotheses and query points",
  NOTEST + "no shipped test builds, saves or reloads a combined hypothesis.",
  ["src/hypothesis/weighted_majority.rs", "src/weak_learner/decision_tree/decision_tree_classifier.rs", "src/weak_learner/decision_tree/node.rs", "src/weak_learner/regression_tree/regression_tree_regressor.rs", "src/weak_learner/regression_tree/node.rs", "src/weak_learner/naive_bayes/nbayes_classifier.rs"],
  [("majority", "src/hypothesis/weighted_majority.rs"), ("serialisation", "derive(Serialize, Deserialize) of the hypotheses"), ("dot", "src/weak_learner/*/node.rs to_dot_file")],
  "Explicit-state exploration of all operation sequences on the real WeightedMajority against a list-of-votes model, and of all trees of a bounded data space through write/read-back.",
  "All vote vectors over 4 values to length 3, all operation sequences to depth 4 (quick) or 5; vote lists to 400 (quick) or 2000 hypotheses in 8 patterns of magnitude x 7 plans of construction; all trees grown from small tables and trees, naive Bayes classifiers and nested majorities over tables to 300 (quick) or 700 rows and 16 columns, through JSON and DOT. " + TRUST),
P("C26", "Results do not depend on how the parallel work is scheduled",
  "However many threads rayon uses, however it divides the work of a parallel loop, in whichever order the pieces run and on whichever thread, every operation of the library gives the same answer up to rounding: samples, their statistics and splits, decision trees, regression trees, naive Bayes, every booster's weights, rounds and result, and graph separation. "
  "Whether a call comes from inside or outside a thread pool makes no difference either.",
  ["schedules", "inputs"], "all numbers of threads, divisions of the work, orders and migrations of its pieces",
  NOTEST + "a test sees the one schedule its machine happens to pick, and small inputs are rarely divided at all.",
  ["src/sample/sample_struct.rs", "src/common/utils.rs", "src/weak_learner/decision_tree/decision_tree_algorithm.rs", "src/weak_learner/decision_tree/bin.rs", "src/weak_learner/decision_tree/criterion.rs", "src/weak_learner/regression_tree/regression_tree_algorithm.rs", "src/weak_learner/naive_bayes/probability.rs", B + "adaboost/adaboost_algorithm.rs", B + "adaboostv/adaboostv_algorithm.rs", B + "madaboost/madaboost_algorithm.rs", B + "smoothboost/smoothboost_algorithm.rs", B + "gradient_boost/gbm.rs"],
  [("parallel loops", "par_iter, par_iter_mut and into_par_iter in the files above"), ("scheduler", "rayon-core join_context and scope, replaced by controlled ones in mc/vendor/rayon-core"), ("shared memory", "std::sync as the library sees it, mc/shim/std.rs")],
  "stateless exploration of the real code under a controlled rayon scheduler (rayon-core with every decision taken from a plan), bounded by the number of decisions that differ from a single worker's",
  "Every schedule with at most one (two where there are few decisions) deviations from the sequential one, for 1-8 reported threads, called from inside and outside a pool, for each operation over data sets of 3-300 rows without ties; on top of each, at most one interruption (two where few) before an access to a lock or atomic of the library (there are none today; its `std` is replaced for the build so that any would be explored). MLPBoost is left out: rounding decides its perturbed linear program. " + TRUST),
P("C27", "The logger records the run and does not change it",
  "A logged run returns the same result as the run without logger and leaves a file with a header and one line per round, holding objective, training loss and test loss of the combined hypothesis after that round and a non-decreasing cumulative running time of the rounds (evaluating the hypotheses does not count). An existing file is replaced; logging twice gives the same file up to times. "
  "A time limit ends the run after the first round whose accumulated time exceeds it. A builder that misses a piece, or a path that cannot be written, is refused with an error.",
  ["schedules", "histories", "configurations"], "all boosters, answer sequences, intervals, limits and files",
  NOTEST + "no shipped test runs a logger.",
  ["src/research/logger.rs", "src/research/logger_builder.rs"],
  [("run", "src/research/logger.rs run"), ("builder", "src/research/logger_builder.rs")],
  SCRIPT, "All boosters x labelings x answer scripts over a table class on 2-3 examples; lassos over structured answers on 7-33 examples to the boosters' own end (hundreds of rounds); every line recomputed from current_hypothesis of an unlogged twin run. " + TRUST),
P("C28", "Neural networks learn by gradient descent on drawn mini-batches",
  "Whatever initial parameters are drawn, a NeuralNetwork's answer is the network with the appended layers after, in each epoch, the given number of steps against the gradient of the cross entropy of one mini-batch, at the learning rate divided by the mini-batch size: for a last layer of two SoftMax(1) or one Sigmoid(1) outputs and hidden SoftMax, Sigmoid, ReLU or identity layers. Small steps do not raise that loss. "
  "A mini-batch consists of different rows; rows of weight zero are used only when no others are left, and heavier rows at least as often as lighter ones; a mini-batch of one row is each row with a probability proportional to its weight. By default it has at most 128 rows and at most the whole sample. "
  "The confidence is the probability of the likelier label with that label's sign (two outputs; ties are positive), or twice the probability of +1 minus one (one output), and is never NaN, however large the inputs.",
  ["inputs", "schedules", "configurations"], "all initial parameters, mini-batch draws, layers, samples and weights",
  NOTEST + "a neural network starts from random parameters, so that a test can only look at a loosely bounded accuracy, and its test asserts nothing.",
  ["src/weak_learner/neural_network/nn_weak_learner.rs", "src/weak_learner/neural_network/nn_hypothesis.rs", "src/weak_learner/neural_network/layer.rs", "src/weak_learner/neural_network/activation.rs", "src/weak_learner/neural_network/nn_loss.rs", "src/common/task.rs"],
  [("back propagation", "src/weak_learner/neural_network/nn_hypothesis.rs train"), ("activations", "src/weak_learner/neural_network/activation.rs"), ("mini-batches", "src/weak_learner/neural_network/nn_weak_learner.rs produce"), ("answers", "src/common/task.rs binarize, vectorize")],
  "stateless exploration of the real code under a controlled source of randomness (the vendored rand crate takes every bit from an enumerated sequence), compared step by step with a reference gradient descent",
  "Every assignment of three values to the parameters of 14 (thorough 18) architectures with few parameters, otherwise all that differ from a base in two places, 1 and 7 steps; every sequence of 4 levels of the draws choosing batches of 1-4 of 4 rows under 6 weightings, one and two epochs (of 10-18 levels for batches of one); long training on 3-300 rows with inputs to 5000. Inputs on a kink of ReLU and runs in which rounding decides are left out. If the order in which parameters are drawn is none of four known ones only the parts that do not depend on it are judged. The last layer's slope other than one is outside. " + TRUST),
P("C29", "Impossible configurations are refused, possible ones accepted in any order",
  "Every component that takes a capping parameter refuses values outside [1, m] (NaN and infinities too) before the first round and accepts all inside; classification boosters refuse labels that are not integers or not of exactly two kinds. "
  "SmoothBoost's kappa and gamma, tree depth 0, unknown column names, a regression tree without loss, training ratios outside (0, 1), a wrong number of names, and readers without file or target are refused likewise. The order of the setters does not matter.",
  ["configurations"], "all parameter values and setter orders",
  NOTEST + "no shipped test passes an invalid value.",
  ["src/common/checker.rs", "src/common/utils.rs", "src/booster", "src/sample/sample_struct.rs", "src/weak_learner", "src/research/cross_validation.rs"],
  [("nu", "src/common/checker.rs check_nu, check_capped_simplex_condition"), ("labels", "src/sample/sample_struct.rs is_valid_binary_instance"), ("builders", "src/weak_learner/*/builder.rs")],
  "Exhaustive enumeration of configurations (boundary values, orders of setters) driven on the real components for the first round or, for orders, to the end.",
  "All boosters x sample sizes to 20 (quick) or 60 (thorough) x capping parameters inside the bounds, to 257 or 1000 outside; label vectors over 5 values to length 3-4 and one bad label at 6 places of samples to 130 or 257; all permutations of setters of all boosters, trees, reader, folds, logger. " + TRUST),
]
NOTES = "See DESIGN.md. Every check is one binary (mc/) linked against /repo's working tree; bounds are printed in the evidence files."
