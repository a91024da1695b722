CD = "ylearn/causal_discovery/"
prop("C08", "Causal discovery returns acyclic graphs, faithfully reported",
     "Every discovery learner returns a directed acyclic graph over exactly the columns of the data in their order, with no edge weaker than the threshold, "
     "does not change the data, and gives the same graph again for the same random state, on a reused or a new learner, for a table or a plain array. "
     "Removing cycles keeps the strongest edge and touches only edges on cycles, and the dictionary and edge-list forms of a matrix describe the same graph.",
     ["inputs"], "every weight matrix (signed, cyclic or not), every dataset, learner and option within the step budget",
     "The tests run a few learners on random data and check only types and shapes.",
     [CD + "_base.py", CD + "_discovery.py", CD + "_dydiscovery.py", CD + "_proxy_pgm.py", CD + "_proxy_gcastle.py"],
     [("cycle trimming and conversions", CD + "_base.py: trim_cycle, matrix2dict, matrix2array"), ("learners", CD + "_discovery.py, _dydiscovery.py: __call__")],
     "returned matrices, dictionaries and edge lists",
     "networkx reference for parents, ancestors, cycles; repeat/shift/labelling metamorphic relations; simulated data with strong effects for DAGMA and the lag order")
EM = "ylearn/estimator_model/"
prop("C09", "S, T and X learners return the effects their group regressions imply",
     "For every dataset, the effects of the S, T and X learners are the differences of the predicted outcomes of the asked treatment and control values "
     "(for the X learner the weighted mean of the two imputed effects), row by row, for the training data, new rows or a single row, "
     "whatever the labels, index and column order, with the average effects their means. Estimating changes nothing, so any sequence of estimates and refits gives the same answers as a new learner.",
     ["inputs", "histories"], "every dataset, label set, learner option and sequence of fits and estimates",
     "The tests only check that estimating runs on a few generated datasets.",
     [EM + "meta_learner.py", EM + "utils.py"],
     [("group regressions and their differences", EM + "meta_learner.py: _fit_combined_treat, _prepare_combined_treat, _fit_separate_treat"), ("label handling", EM + "utils.py: get_tr_ctrl, get_groups")],
     "returned effects", "plain numpy/scikit-learn reference implementations of the three learners")
prop("C10", "Double machine learning: effects are residual-on-residual slopes",
     "For every dataset, the effects of the double machine learning estimator are the slopes, linear in the covariates, of the outcome residuals on the treatment residuals, "
     "with cross fitting leaving out the fold being predicted, times the asked difference of treatment and control (values per row for continuous treatments, labels for discrete ones). "
     "Estimates do not depend on earlier calls, and estimators sharing the models given by the user do not influence each other.",
     ["inputs", "histories"], "every dataset, treatment type, fold count, transformer and sequence of fits and estimates",
     "The tests only check that estimating runs on a few generated datasets.",
     [EM + "double_ml.py"], [("two stages", EM + "double_ml.py: _cross_fit, _cal_x_prime, _prepare4est"), ("asked treatment values", EM + "double_ml.py: estimate")],
     "returned effects", "plain reference implementation of the two stages")
prop("C11", "Doubly robust effects correct the outcome model by weighted residuals",
     "For every dataset, the pseudo outcome of each treatment value is the outcome model at that value plus, for the rows having it, the residual divided by the estimated propensity, "
     "and the effects are the regressions on the covariates of its differences to the control (or these differences themselves without covariates). "
     "Cross fitting leaves out the predicted fold, and repeated estimates and refits give the answers of a new estimator.",
     ["inputs", "histories"], "every dataset, label set, fold count and sequence of fits and estimates",
     "The tests only check that estimating runs on a few generated datasets.",
     [EM + "doubly_robust.py"], [("outcome model at every treatment", EM + "doubly_robust.py: _YModelWrapper.predict"), ("pseudo outcomes", EM + "doubly_robust.py: fit, _fit_2nd_stage")],
     "returned effects", "plain reference implementation")
prop("C13", "Permuted learners agree with a learner fitted for each treatment pair",
     "For every ordered pair of treatment values (or combinations), a permuted learner returns the effects of a plain learner fitted for that pair, with reversed pairs of opposite sign and the last against the first value as the default. "
     "The table of effects against a control lists the values in sorted order, is zero at the control, and selects the asked outcome class.",
     ["inputs", "histories"], "every dataset, learner kind, label set and queried pair",
     "The tests only check shapes on two datasets.",
     [EM + "_permuted.py"], [("pair bookkeeping", EM + "_permuted.py: _permute_treats, _get_learner, _effect_nji")],
     "returned effects", "differential against freshly fitted plain learners")
prop("C15", "The R-loss of an estimator is its unexplained residual error",
     "For every validation dataset and fitted estimator, the score is, per outcome, the mean squared difference between the outcome residuals and the treatment residuals times the effects the estimator gives on the validation rows. "
     "It does not depend on the order or roles in which the estimator names its columns, nor on scores computed before.",
     ["inputs", "histories"], "every validation dataset, treatment type and tested estimator",
     "The tests never score an estimator with the loss.",
     [EM + "effect_score.py"], [("score", EM + "effect_score.py: RLoss.score"), ("residuals", EM + "effect_score.py: RLoss.fit")],
     "returned scores", "plain reference implementation of the residuals; effects taken from the tested estimator itself")
prop("C14", "Approximation bounds are the documented ones and contain the true effect",
     "For every dataset and treatment pair, the no-assumption, monotone and optimal-selection bounds are the documented functions of the outcome regression, the treatment probabilities (counted, given or modelled) and the range of the outcome, "
     "lower before upper, for the training data or other rows, whatever the labels or earlier fits. "
     "Whenever the stated assumption holds in a population of known potential outcomes, the bounds contain its true average effect.",
     ["inputs", "histories"], "every dataset, label set, kind of covariates, assumption and sequence of fits; every population of potential outcomes",
     "The tests only check that lower bounds vary less than upper bounds on two datasets.",
     [EM + "approximation_bound.py"], [("bounds", EM + "approximation_bound.py: _prepare4est"), ("treatment probabilities", EM + "approximation_bound.py: fit")],
     "returned bounds", "documented formulas with separately fitted models; simulated potential outcomes with the true effect known")
prop("C12", "Two stage least squares with polynomial bases estimates the instrumented effect",
     "For every dataset, the effects of the instrumental variable estimator are the differences of the second stage regression of the outcome on the predicted treatment basis, crossed with the covariate basis, between the asked treatment and control values, "
     "for the training data or other rows, one value or one per row, with averages, counterfactuals and the table of effects consistent with them. "
     "When the hidden confounder is uncorrelated with the instrument, the linear effect is recovered however strong the confounding.",
     ["inputs", "histories"], "every dataset, basis degree, kind of instrument and treatment, and sequence of fits and estimates",
     "The tests only check that estimating returns varying values; no numeric value is compared.",
     [EM + "iv.py"], [("two stages", EM + "iv.py: fit"), ("asked treatments", EM + "iv.py: _prepare4est, effect_nji")],
     "returned effects", "plain two stage reference; constructed data with exactly exogenous instruments")
prop("C16", "A causal tree gives each leaf the difference in means of its groups",
     "For every dataset and tree parameters, the effect of a row is the mean outcome of the treated minus that of the control training rows in its leaf (of the rows kept apart for labelling in honest trees), every leaf has both groups, and depth, leaf sizes and minimal gains obey the parameters. "
     "Every split of a best-split tree is among the possible ones the best by the documented criterion, and leaf indices, decision paths, importances and depths describe that tree. "
     "Row index, column order, earlier fits and estimates do not matter.",
     ["inputs", "histories"], "every dataset, label set, treatment pair, tree parameters and sequence of fits",
     "The tests only check that fitting and estimating run on a few datasets; no leaf value is compared.",
     [EM + "causal_tree.py", EM + "_tree/tree_criterion.pyx", "ylearn/sklearn_ex/cloned/tree/_tree.pyx"],
     [("criterion and leaf values", EM + "_tree/tree_criterion.pyx: node_value, proxy_impurity_improvement"), ("selection of the groups", EM + "causal_tree.py: fit, _check_features")],
     "effects, leaves, structure of the tree", "plain recomputation from the rows of each node, exhaustive search over the splits")
prop("C17", "Forests weigh training rows by shared leaves and regress locally",
     "For every dataset and forest parameters, a generalized random forest gives each row the local regression of outcome on treatments over training rows weighted by how often they share a leaf with it (among the labelling rows in honest forests); the causal forest does so on cross-fitted residuals, and a forest of causal trees averages its trees. "
     "Each tree is grown on a subsample of the asked size, within the depth and size limits, by best splits of the documented criterion; importances are normalised gains. "
     "The same seed gives the same forest, whatever the number of jobs, earlier fits or warm starts.",
     ["inputs", "histories"], "every dataset, number of treatments, forest parameters and sequence of fits",
     "The tests only check that fitting and estimating run on a few datasets.",
     [EM + "_generalized_forest/_base_forest.py", EM + "_generalized_forest/tree/_criterion.pyx", EM + "causal_forest.py", EM + "causal_tree.py"],
     [("weights and local regressions", EM + "_generalized_forest/_base_forest.py: _compute_alpha, _compute_aug"), ("residuals", EM + "causal_forest.py: _cal_x_prime"),
      ("split criterion", EM + "_generalized_forest/tree/_util_lib.cpp")],
     "effects, structure of the trees", "plain recomputation of weights, regressions and exhaustive split search; differential against single causal trees")
prop("C18", "Policy trees pick, leaf by leaf, the treatments of highest total effect",
     "For every table of effects and tree parameters, the tree's leaves hold the (weighted) effects of their rows, every row is assigned the treatment of the highest total in its leaf, each split is the best one by the documented criterion, and depth, leaf sizes and numbers of leaves obey the parameters. "
     "Predicted values, decisions, decision paths and the interpreter built on an effect estimator describe that tree, for the training rows and new ones. "
     "Row index, column order, repeated calls and earlier fits do not matter.",
     ["inputs", "histories"], "every effect table, weights, tree parameters, estimator and sequence of fits",
     "The tests only check that fitting and deciding run on a few datasets.",
     ["ylearn/policy/policy_model.py", "ylearn/policy/_tree/_criterion.pyx", "ylearn/effect_interpreter/policy_interpreter.py", "ylearn/sklearn_ex/cloned/tree/_tree.pyx"],
     [("criterion", "ylearn/policy/_tree/_criterion.pyx"), ("decisions", "ylearn/policy/policy_model.py: predict_ind, predict_opt_effect"), ("effects of an estimator", "ylearn/effect_interpreter/policy_interpreter.py: fit")],
     "decisions, values, structure of the tree", "plain recomputation from the rows of each node and exhaustive split search")
prop("C19", "The effect interpreter averages estimated effects over what it tells",
     "For every fitted estimator and table, the interpreter's tree predicts for a row the mean estimated effect of the interpreted rows in its leaf, for the treatment and control asked about, "
     "and what it tells about a row is the true path of the row's (transformed) covariates and the value of its leaf. "
     "The data are unchanged, and earlier fits do not matter.",
     ["inputs", "histories"], "every estimator, dataset, tree parameters and sequence of fits",
     "The tests only check that interpreting runs.",
     ["ylearn/effect_interpreter/ce_interpreter.py"], [("effects and tree", "ylearn/effect_interpreter/ce_interpreter.py: fit"), ("told paths", "ylearn/effect_interpreter/ce_interpreter.py: interpret, predict")],
     "predictions, decisions and told rules", "routing of rows through the reported tree, means of the estimator's own effects")
prop("C20", "Uplift curves and scores are the documented functions of the ranking",
     "For every table of scores, outcomes and treatments, the lift, gain and Qini curves are the documented functions of the rows in order of decreasing score, ending at the same overall value for every score, "
     "and the scores are the areas over the random curve, the top points the maxima. "
     "Labels, column names and order, row index, and monotone changes of a score do not matter, and the uplift model gives what the functions give.",
     ["inputs"], "every table of scores, binary or real outcomes, known effects or not",
     "The tests only check that scoring runs on one dataset.",
     ["ylearn/uplift/_metric.py", "ylearn/uplift/_model.py"], [("curves and areas", "ylearn/uplift/_metric.py: get_cumlift, get_gain, get_qini, auuc_score, qini_score")],
     "curves, areas, top points", "plain loops over the ranked rows; metamorphic relabelling")
prop("C21", "Preparing a table keeps its information: encoding, cleaning, selection",
     "For every table, ordinal encoding gives each value its rank among the training values, unseen ones a code of their own, and decoding restores seen values; general preprocessing imputes means, encodes categories and keeps rows, labels and columns in correspondence; "
     "cleaning drops exactly the named, constant, identifying and duplicated columns and the rows without an outcome; selection keeps exactly the columns its importances call for. "
     "New tables are treated like the training table, in any column order, and inputs are unchanged.",
     ["inputs"], "every table of mixed kinds with missing and infinite values, and every option",
     "The tests check none of this; the code is only run inside other tests.",
     ["ylearn/sklearn_ex/_transformer.py", "ylearn/sklearn_ex/_data_cleaner.py", "ylearn/sklearn_ex/_dataframe_mapper.py", "ylearn/utils/_common.py"],
     [("codes", "ylearn/sklearn_ex/_transformer.py: SafeOrdinalEncoder"), ("dropped columns and rows", "ylearn/sklearn_ex/_data_cleaner.py: clean_data"), ("columns to transformers", "ylearn/sklearn_ex/_dataframe_mapper.py: fit, transform"), ("kind of outcome", "ylearn/utils/_common.py: infer_task_type")],
     "transformed tables, kept columns", "plain reference implementations, round trips, column permutations")
prop("C22", "Synthetic data obey the model and the true effects they come with",
     "For every seed and size, simulated graphs are acyclic with the asked number of edges and weights in the asked ranges, simulated rows satisfy the structural equations of the graph with noise of the asked kind and scale (also across the lags of dynamic data), and cyclic matrices are refused. "
     "The effect datasets' outcomes less the stated effects depend on confounders and bounded noise alone, and equal seeds give equal data. "
     "Graph comparison counts true, false, reversed, extra and missing edges as defined.",
     ["inputs"], "every graph, weight matrix, noise kind, size and seed",
     "The tests use the generators but never check them.",
     ["ylearn/exp_dataset/gen.py", "ylearn/exp_dataset/exp_data.py"],
     [("graphs and structural equations", "ylearn/exp_dataset/gen.py"), ("effects", "ylearn/exp_dataset/exp_data.py")],
     "generated tables, graphs, metrics", "structural equations evaluated on the data, noise support and moments within six standard errors")
prop("C23", "Why answers in the user's labels what its estimators say of the table",
     "For every table and roles of columns, the effects, individual effects, counterfactual outcomes, policies and uplift scores of the all-in-one interface are those of the wrapped learner fitted on the encoded and imputed table for the asked treatment pair and outcome class, named and indexed in the labels of the user, with the cost function applied row by row. "
     "Roles which are not given are found as told: the direct causes of the outcome by weight for treatments, its other causes or a valid back-door set for covariates, and only valid instruments. "
     "The caller's tables and lists are left alone.",
     ["inputs", "histories"], "every table, label set, estimator kind, asked pair, outcome class and discovered graph",
     "The tests only check that the calls run and give some rows on a few datasets.",
     ["ylearn/api/_why.py", "ylearn/api/_identifier.py", "ylearn/api/utils.py"],
     [("encoding and estimators", "ylearn/api/_why.py: fit, _preprocess, _create_estimator"), ("asked pairs", "ylearn/api/_why.py: _map_effect, _effect_array, uplift_model"), ("roles", "ylearn/api/_identifier.py")],
     "returned effects, policies, scores and roles", "differential against plain learners fitted pair by pair on a table the check encodes; plain graph search for roles")
prop("C24", "Deep IV trains its stages on the right rows and answers for the asked values",
     "For every table with instruments, continuous or discrete treatments and with or without adjustment, the treatment network is trained to maximise the likelihood of every row's treatment given its own instruments and adjustment, and the outcome network on treatments drawn from that distribution (or their probabilities) together with the adjustment and outcome of the same row. "
     "Effects, effects of every treatment value and marginal effects are those of the trained outcome network (for discrete outcomes, of the probabilities it gives their classes) at the asked treatment and control values, row by row, and averages are their means. "
     "Densities, distribution functions and samples are those of the mixture; given networks and tables are not modified.",
     ["inputs"], "every table, treatment kind, number of samples, epochs, batch size, network and asked pair",
     "The tests only check that fitting and estimating run for the default pair.",
     [EM + "deepiv.py", EM + "_nn.py", EM + "_factory.py"],
     [("stages", EM + "deepiv.py: DeepIV.fit"), ("effects", EM + "deepiv.py: _prepare4est, estimate, effect_nji"), ("density", EM + "deepiv.py: MDNWrapper"), ("batches", EM + "_nn.py")],
     "estimates, training data and losses seen by given networks, parameters after training", "networks evaluated in numpy, spying networks that mark their rows, hand-written training loops")
prop("C25", "Fitted objects depend on their options and last training table only",
     "For every history of fits on differing tables, copies, pickling, questions and other objects made with the same models, every learner, tree, forest, interpreter, policy, transformer and the all-in-one interface answers as a new object fitted once on the last table, whatever the global random state and whatever happens to the caller's tables or to copies afterwards. "
     "Row-wise answers go with their rows: any selection, order, relabelling or repetition of the rows, any order of the columns and further columns give the same answer for the same row. "
     "Tables and models given are not changed.",
     ["histories", "inputs"], "every history of fits, copies and questions over every pair of tables and every kind of object",
     "The tests fit each object once on one table and only look whether something comes back.",
     [EM + "base_models.py", EM + "meta_learner.py", EM + "double_ml.py", EM + "doubly_robust.py", EM + "iv.py", EM + "causal_tree.py", EM + "_permuted.py", "ylearn/policy/policy_model.py", "ylearn/effect_interpreter", "ylearn/api/_why.py"],
     [("state left by a fit", EM + "base_models.py: fit and the subclasses"), ("pair cache", EM + "_permuted.py"), ("pickling of the compiled trees", EM + "_tree")],
     "answers after each operation of a history", "stateful generation of histories; the model is a new object fitted once on the last table; metamorphic row selections")
prop("C26", "Bayesian networks answer by their graph, states and fitted parameters",
     "For every connected acyclic graph over numerical and categorical columns, a network's parents, children, blankets and orders are those of the graph it was made from, classes are coded by their order and decoded back, and unknown classes are refused. "
     "Samples, predictions and effects keep what is given, draw the rest from each node's parents by the fitted parameters, hold intervened columns at their values, and never take the asked outcome from the table. "
     "They repeat for equal random states, and interventions on a copy, questions and sampling leave the network and the tables alone.",
     ["inputs", "histories"], "every graph, mix of column kinds, given columns, interventions and questions",
     "No test covers this module.",
     ["ylearn/bayesian/_dag.py", "ylearn/bayesian/_base.py", "ylearn/bayesian/_network.py", "ylearn/bayesian/_modules.py", "ylearn/bayesian/_collectors.py", "ylearn/bayesian/_data.py"],
     [("graph queries", "ylearn/bayesian/_dag.py: DiGraph"), ("states", "ylearn/bayesian/_base.py: CategoryNodeState"), ("sampling", "ylearn/bayesian/_network.py: BayesianModel.model, sample, predict, estimate, do"), ("node equations", "ylearn/bayesian/_modules.py")],
     "query results, codes, samples, predictions, effects", "plain graph definitions; node equations evaluated in numpy with residual and frequency tests")
prop("C27", "Estimators asked for by name or chosen automatically suit the variables",
     "A model or estimator asked for by name, with any options, or chosen automatically, is the one a user would build by hand for the kinds of treatment and outcome: regression or classification models, instruments respected, probabilities for classes, the given options, folds and random state, and the effects and default scores are equal to those of that hand-made estimator. "
     "Estimators for discrete treatments refuse continuous ones. "
     "Given models, options and tables are left unfitted and unchanged.",
     ["inputs"], "every name, mix of variable kinds, options, given models and random state",
     "The tests use each name on one or two datasets and never look at what was chosen.",
     [EM + "_factory.py", "ylearn/sklearn_ex/_transformer.py", "ylearn/api/_why.py"],
     [("factories", EM + "_factory.py"), ("default models", "ylearn/sklearn_ex/_transformer.py: general_estimator"), ("choice", "ylearn/api/_why.py: _get_default_estimator, _create_estimator, _create_scorers")],
     "kinds, parameters, effects and scores", "differential against estimators built by hand from the same models and random states")
prop("C28", "What is drawn of a fitted tree, curve or graph is what was fitted",
     "A drawing of a causal tree, policy tree, effect interpreter or policy interpreter shows every node down to the asked depth, joined as in the tree with the rows that fulfil a condition at the left, and tells each node's column by its name, its threshold, its number or share of training rows and the effects of these rows (for an effect interpreter mean and standard deviation, for a policy one value per treatment by its name), rounded to the asked digits; it is made on the given axes, for every size and tie of the effects, and its annotations are returned. "
     "Plotted gain and Qini curves pass through the values of the curves at evenly spaced ranks from none to all rows, under the names of the scores. "
     "Drawn and laid out graphs have exactly the nodes and edges of the graph, in its directions, whatever the names, and the graph drawn by Why shows the columns of each role.",
     ["inputs"], "every fitted tree, curve and graph, every option of the drawing",
     "No test draws anything.",
     ["ylearn/effect_interpreter/_export.py", "ylearn/effect_interpreter/ce_interpreter.py", "ylearn/effect_interpreter/policy_interpreter.py", "ylearn/policy/policy_model.py", EM + "causal_tree.py", "ylearn/uplift/_plot.py", "ylearn/uplift/_model.py", "ylearn/causal_model/graph.py", "ylearn/bayesian/_dag.py", "ylearn/api/_why.py", "ylearn/api/_identifier.py"],
     [("trees", "ylearn/effect_interpreter/_export.py"), ("curves", "ylearn/uplift/_plot.py: _sample, plot_gain, plot_qini"), ("graphs", "ylearn/bayesian/_dag.py: to_pydot, pydot_layout, plot"), ("roles", "ylearn/api/_why.py: plot_causal_graph, ylearn/api/utils.py: format")],
     "texts, arrows, lines and graphs handed to matplotlib and graphviz", "what is drawn is read back and compared with the tree, with effects averaged over routed rows, with the curves and with the edges generated")
