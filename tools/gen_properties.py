"""Writes /verif/properties.jsonl (kept as a script so that ids, titles and
statements are reviewed in one place)."""
import json, os

M = "pystruct/models/"
L = "pystruct/learners/"
I = "pystruct/inference/"
U = "pystruct/utils/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [])))


prop("C01", "Node/edge CRF joint features encode the documented energy",
     "For every graph, chain and grid CRF, every weight vector w, input x and labelling y, dot(w, joint_feature(x, y)) equals the sum over nodes of the unary score of the node's label plus the sum over edges (taken in the direction given) of the pairwise score of the two labels, the weights being read in the documented layout: first an n_states x n_features unary block, then the n_states x n_states pairwise matrix (rows: edge source) or, for undirected models, its lower triangle. "
     "Grid models connect each cell exactly once with each of its 4 (or 8) neighbours, chains connect consecutive nodes, and the multi-label model uses +/- unary evidence per label and one 2x2 block per edge.",
     ["inputs", "configurations"],
     "all feature matrices, edge lists (any orientation, isolated nodes, no edges), labellings, weights, directed/undirected, neighbourhood 4/8",
     "Tests compare a few fixed grids and toy graphs; the layout/energy identity must hold for every graph, size and weight vector.",
     [M+"graph_crf.py", M+"chain_crf.py", M+"grid_crf.py", M+"multilabel_svm.py", U+"inference.py", U+"graph.py"],
     [("GraphCRF.joint_feature / potentials", M+"graph_crf.py"), ("make_grid_edges", U+"graph.py"), ("compress_sym/expand_sym", U+"inference.py")],
     ["model.joint_feature", "model.size_joint_feature"])

prop("C02", "Edge-feature CRF joint features encode the documented energy",
     "For the edge-feature graph CRF and the directional grid CRFs (4- and 8-neighbourhood), dot(w, joint_feature(x, y)) equals the unary score plus, for every edge, the edge's features dotted with one n_states x n_states weight block per edge feature (the directional grids use one indicator feature per direction of edge). "
     "Features declared symmetric (antisymmetric) contribute the symmetrised (antisymmetrised) block, so reversing an edge leaves (negates) their contribution.",
     ["inputs", "configurations"],
     "all node/edge feature values, graphs, labellings, weights, subsets of symmetric/antisymmetric edge features, both neighbourhoods",
     "Tests check single snake/grid examples, never the 8-neighbourhood directional model nor arbitrary edge features.",
     [M+"edge_feature_graph_crf.py", M+"grid_crf.py", U+"graph.py"],
     [("EdgeFeatureGraphCRF.joint_feature", M+"edge_feature_graph_crf.py"), ("edge_list_to_features", U+"graph.py")],
     ["model.joint_feature"])

prop("C03", "Typed CRF joint features and label coding match the documented layout",
     "For the multi-type CRF, dot(w, joint_feature(x, y)) equals the sum of per-type unary scores and of per-type-pair edge scores, with weights laid out as one n_states x n_features block per type followed by one n_features x n_states1 x n_states2 block per ordered type pair; inference maximises that score (exactly with branch and bound) and loss-augmented inference adds the per-type class-weighted Hamming loss. "
     "Types with no nodes or edges and None entries are accepted, a single type reproduces the edge-feature CRF, and flattenY and unflattenY are inverse to each other.",
     ["inputs", "configurations"],
     "1-3 node types, differing numbers of states/features per type, any edges between types, empty types, class weights",
     "Tests use hand-made two-type examples with exhaustive expected vectors.",
     [M+"typed_crf.py", M+"node_type_edge_feature_graph_crf.py"],
     [("NodeTypeEdgeFeatureGraphCRF.joint_feature/_get_pairwise_potentials", M+"node_type_edge_feature_graph_crf.py"), ("flattenY/unflattenY", M+"typed_crf.py")],
     ["model.joint_feature", "model.inference", "model.loss_augmented_inference"])

prop("C04", "Binary and multi-class models are exact linear classifiers",
     "For the binary and multi-class models the joint feature is y*x/2 respectively x placed in the block of class y (scaled by the true class's weight when rescale_C is set); inference returns a label with the highest score and loss-augmented inference a valid label with the highest score plus loss, including on exact ties. "
     "The (weighted) zero-one loss is used, class weights may be given as ints or floats, and rescale_C turns class weights into rescaled features with a unit margin.",
     ["inputs", "configurations"],
     "all feature vectors, weights, labels, class weights (int/float), rescale_C on/off",
     "Tests only fit blobs; exact ties at the margin and integer class weights never occur there.",
     [M+"unstructured_svm.py", "src/utils.pyx"],
     [("BinaryClf / MultiClassClf", M+"unstructured_svm.py"), ("crammer_singer_joint_feature", "src/utils.pyx")],
     ["model.inference", "model.loss_augmented_inference", "model.joint_feature"])

prop("C05", "Relaxed labellings extend joint feature, loss and energy linearly",
     "On every pairwise CRF, a tuple of node and edge marginals is treated as the linear extension of integral labellings: one-hot marginals give exactly the joint feature and loss of the corresponding labelling, convex mixtures give the corresponding mixtures, and loss() of a tuple equals the continuous loss. "
     "For marginals returned by relaxed inference, the reported energy equals minus (score, plus loss if loss-augmented), to the solver's precision.",
     ["inputs", "configurations"],
     "all models with relaxed support, all mixtures of labellings, all weights, lp/ad3/ad3+ relaxed solutions",
     "Tests compare a couple of grid instances with lp only.",
     [M+"base.py", M+"graph_crf.py", M+"grid_crf.py", M+"edge_feature_graph_crf.py", M+"multilabel_svm.py", M+"typed_crf.py", M+"latent_node_crf.py", M+"latent_graph_crf.py"],
     [("joint_feature on tuples", M+"graph_crf.py"), ("continuous_loss", M+"base.py")],
     ["model.joint_feature", "model.continuous_loss", "model.loss", "return_energy"])

prop("C06", "Max-product inference is exact on every chain, tree and forest",
     "Given any unary and pairwise potentials on a graph without cycles, max-product inference returns a labelling whose score is the maximum over all labellings, whatever the edge order and orientation, with isolated nodes or no edges at all, with ties, and at any size. "
     "On loopy graphs it terminates, returns a valid label for every node, and finds the evident optimum when edges play no role or all reward agreement with the one state supported by the unaries, or (run to convergence) when the edges with varying potentials form a forest with a unique optimum; it reports the energy of the labelling it returned when asked to.",
     ["inputs"],
     "all forests up to hundreds of nodes, all potentials including exact ties, shared and per-edge pairwise matrices",
     "Tests run a few random chains and trees with generic potentials; ties, forests with isolated nodes and edgeless graphs are not reached.",
     [I+"maxprod.py", I+"_viterbi.pyx", U+"graph_functions.py", I+"inference_methods.py"],
     [("viterbi", I+"_viterbi.pyx"), ("tree_max_product", I+"maxprod.py"), ("is_chain/is_forest", I+"maxprod.py")],
     ["inference_dispatch(..., 'max-product')", "ChainCRF.inference"])

prop("C07", "LP inference solves the local-polytope relaxation",
     "The lp method's relaxed result is a feasible point of the local polytope (non-negative, normalised, edge marginals consistent with node marginals) whose energy equals the reported energy and is optimal, hence never above the energy of any labelling; on cycle-free graphs with a unique best labelling it equals that labelling. "
     "Without relaxation it returns the labelling obtained by rounding each node to its largest marginal, and inputs with mismatching shapes are rejected.",
     ["inputs"],
     "all small graphs, potentials (shared or per edge), numbers of states",
     "Tests compare with qpbo/ad3 on a few grids; optimality over the whole polytope is never checked.",
     [I+"linear_programming.py", I+"inference_methods.py", I+"common.py"],
     [("lp_general_graph", I+"linear_programming.py"), ("inference_lp", I+"inference_methods.py")],
     ["inference_dispatch(..., 'lp', relaxed=..., return_energy=...)"])

prop("C08", "AD3 inference: exact with branch and bound, faithful dispatch",
     "With branch and bound, the ad3 and ad3+ methods return a labelling of maximal score on any graph on which the solver succeeds; without it they are exact whenever they report an integral solution and otherwise give (relaxed) marginals whose energy bounds the best labelling. "
     "Method options given as a (name, options) tuple are honoured and the options dictionary is left untouched, the unary method ignores pairwise terms and an unknown method is rejected. The energy returned on request is minus the score of the solution found (of the returned labelling whenever that solution is integral); compute_energy is the score of a labelling.",
     ["inputs", "configurations"],
     "all small graphs with and without cycles, frustrated potentials, ad3 / ad3+ / unary / lp / max-product, all option combinations",
     "Tests use a few grids; frustrated cycles, option passing and energies are sampled at most once.",
     [I+"inference_methods.py", I+"common.py"],
     [("inference_dispatch, inference_ad3, inference_ad3plus, inference_unaries", I+"inference_methods.py"), ("compute_energy", I+"common.py")],
     ["inference_dispatch", "compute_energy"])

prop("C09", "Loss-augmented inference maximises score plus loss",
     "For every model with an exact inference method, loss_augmented_inference(x, y, w) returns a labelling that maximises dot(w, joint_feature(x, y_hat)) + loss(y, y_hat) over all labellings, class weights (ints or floats) included, and the energy it returns on request is minus that maximum. "
     "The same holds for latent-variable models, where the loss compares the observable labels only.",
     ["inputs", "configurations"],
     "all models, graphs, labels, class weights and weights small enough to enumerate, and large chains by dynamic programming",
     "Tests check single examples per model; margin ties, non-uniform class weights and most latent models are not covered.",
     [M+"crf.py", M+"latent_graph_crf.py", M+"latent_node_crf.py", M+"latent_grid_crf.py", M+"grid_crf.py", "src/utils.pyx"],
     [("CRF.loss_augmented_inference", M+"crf.py"), ("loss_augment_unaries", "src/utils.pyx")],
     ["model.loss_augmented_inference"])

prop("C10", "Losses are class-weighted Hamming losses bounded by max_loss",
     "For every model, loss(y, y_hat) is the sum over positions where the (observable) labels differ of the class weight of the true label, so it is non-negative, zero when the labels agree, and never above max_loss(y), which is attained when every label is wrong. "
     "Hence with positive weights it is zero only for equal labels, and losses of latent labellings ignore the choice of latent states.",
     ["inputs", "configurations"],
     "all labellings, class weights (ints or floats, list or array), models incl. latent and typed ones",
     "Tests check one or two label pairs.",
     [M+"base.py", M+"latent_graph_crf.py", M+"latent_node_crf.py", M+"typed_crf.py", M+"unstructured_svm.py"],
     [("StructuredModel.loss/max_loss", M+"base.py"), ("LatentGraphCRF.loss, base_loss", M+"latent_graph_crf.py")],
     ["model.loss", "model.max_loss", "model.base_loss"])

prop("C11", "Prediction and score are those of the model at the learned weights",
     "For every learner and weight vector, predict(X) gives for each sample the model's inference result at the learned weights (constraints, if any, applied per sample), and score(X, Y) equals one minus the total loss of the predictions divided by the total maximal loss. "
     "Neither depends on n_jobs, and show_loss_every records exactly one minus the training score at each multiple of that many iterations.",
     ["inputs", "configurations"],
     "all learners, models, weights, datasets, n_jobs in {1, 2}",
     "Tests compare predictions of trained models on one dataset.",
     [L+"ssvm.py", U+"inference.py", L+"latent_structured_svm.py", L+"subgradient_latent_ssvm.py"],
     [("BaseSSVM.predict/score", L+"ssvm.py"), ("LatentSSVM.predict/score", L+"latent_structured_svm.py")],
     ["learner.predict", "learner.score", "learner.loss_curve_"])

prop("C12", "Batch methods equal the per-sample methods",
     "For every model and every batch of samples, batch_inference, batch_loss_augmented_inference and batch_loss give, sample by sample, the results of the single-sample methods (up to ties of equal score), and batch_joint_feature is the sum of the single-sample joint features, with or without true labels supplied. "
     "Results are independent of how the samples are split into batches.",
     ["inputs", "configurations"],
     "all models, batch sizes incl. 1, mixed instance sizes, integer or float features, class weights with and without rescale_C",
     "Tests never compare the batch and the single-sample code paths of the unstructured models.",
     [M+"base.py", M+"unstructured_svm.py", "src/utils.pyx"],
     [("batch_* in StructuredModel", M+"base.py"), ("batch_* in MultiClassClf/BinaryClf", M+"unstructured_svm.py")],
     ["model.batch_inference", "model.batch_joint_feature", "model.batch_loss", "model.batch_loss_augmented_inference"])

prop("C13", "Inputs are never modified and results are repeatable",
     "Inference, loss-augmented inference, joint features, losses, latent completion, batch versions, prediction and training leave the features, edges, labels, weights, constraints and option dictionaries they are given unchanged, so calling any of them again gives the same result. "
     "Returned arrays do not alias the inputs or each other.",
     ["inputs", "histories"],
     "all models and learners, all inputs, any sequence of calls on one model object",
     "Tests never compare inputs before and after calls; aliasing bugs surface only in particular call sequences.",
     [M+"crf.py", M+"base.py", M+"grid_crf.py", I+"maxprod.py", I+"inference_methods.py", L+"ssvm.py"],
     [("copies of potentials before augmentation", M+"crf.py"), ("copy before viterbi overwrites its argument", I+"maxprod.py")],
     ["all public model and learner methods"])

prop("C14", "Hard logic constraints are honoured by ad3+ inference",
     "When inference is given hard logic constraints (XOR, XOROUT, ATMOSTONE, OR, OROUT, ANDOUT, IMPLY over chosen node/state indicators, each possibly negated), an integral solution reported by ad3+ satisfies all of them and, with branch and bound, has the highest score among the satisfying labellings; unsatisfiable or fractional outcomes raise the inference exception when it is requested. "
     "Without constraints the result is the same as unconstrained inference; constraint lists are applied per sample in prediction.",
     ["inputs", "configurations"],
     "all small single- and multi-type graphs, all operators, negations, state specifications (scalar or list)",
     "Tests use two hand-written examples.",
     [I+"inference_methods.py", M+"crf.py", M+"typed_crf.py", L+"ssvm.py"],
     [("inference_ad3plus", I+"inference_methods.py"), ("constraints forwarding", M+"crf.py")],
     ["inference_dispatch(..., 'ad3+', constraints=...)", "model.inference(constraints=...)"])

prop("C15", "Latent completion is consistent with the labels and optimal",
     "For every latent-variable model, latent(x, y, w) returns a latent labelling whose observable labels are exactly y and which has the highest score among all latent labellings with these observable labels, whatever the magnitude of the weights; inference never gives a visible node a hidden-only state or a hidden node a visible state. "
     "label_from_latent inverts the grouping of latent states by label, and init_latent returns a latent labelling consistent with the given labels.",
     ["inputs", "configurations"],
     "all latent models, states per label, numbers of hidden nodes incl. 0, weights of any sign and scale",
     "Tests use small positive weights; large or strongly negative potentials defeat soft penalties.",
     [M+"latent_graph_crf.py", M+"latent_grid_crf.py", M+"latent_node_crf.py"],
     [("LatentGraphCRF.latent", M+"latent_graph_crf.py"), ("LatentNodeCRF.latent/_get_unary_potentials", M+"latent_node_crf.py"), ("kmeans_init", M+"latent_graph_crf.py")],
     ["model.latent", "model.inference", "model.label_from_latent", "model.init_latent"])

prop("C16", "N-slack cutting-plane training reaches the SVM optimum",
     "With exact inference, n-slack training returns weights whose regularised risk 0.5|w|^2 + C * sum of slacks is within the stopping tolerance of the global minimum, for any C, batch size, constraint-inactivity window, constraint checking and inference switching option; the reported cutting-plane objective never exceeds the optimum and never decreases without pruning, and the reported final primal objective is the regularised risk of the returned weights. "
     "Stored constraints are genuine (their joint-feature difference and loss are those of their labelling), pruning inactive constraints removes none that matters (the weights solve the program of the constraints kept), weights under a negativity constraint are non-positive, and supplied constraints warm-start the same optimum.",
     ["inputs", "configurations"],
     "all small datasets and models for which the full quadratic program can be enumerated, all option combinations",
     "Tests check training accuracy on toy data, not optimality of the convex program.",
     [L+"n_slack_ssvm.py", L+"ssvm.py", U+"inference.py"],
     [("NSlackSSVM.fit/_solve_n_slack_qp/prune_constraints", L+"n_slack_ssvm.py"), ("find_constraint, objective_primal", U+"inference.py")],
     ["learner.w", "objective_curve_", "primal_objective_curve_", "constraints_"])

prop("C17", "One-slack cutting-plane training reaches the SVM optimum",
     "With exact inference, one-slack training returns weights whose regularised risk is within C * n_samples * tol of the global minimum, for any C, tolerance, inference caching, cache tolerance, inactivity window and inference switching option; the reported cutting-plane objective never exceeds the optimum and the final primal objective is the regularised risk of the returned weights. "
     "Cached and freshly inferred constraints lead to the same optimum, pruning inactive constraints removes none that matters (the weights solve the program of the constraints kept), every uncached primal value is an upper bound on the optimum, and warm starts (full or soft) end at the same optimum.",
     ["inputs", "configurations", "histories"],
     "all small datasets and models for which the full quadratic program can be enumerated, all option combinations, fit sequences",
     "Tests check training accuracy and compare two learners loosely on one dataset.",
     [L+"one_slack_ssvm.py", L+"ssvm.py", U+"inference.py"],
     [("OneSlackSSVM.fit/_constraint_from_cache/_update_cache/prune_constraints", L+"one_slack_ssvm.py")],
     ["learner.w", "objective_curve_", "primal_objective_curve_", "cached_constraint_", "inference_cache_"])

prop("C18", "Frank-Wolfe training: weak duality and convergence to the optimum",
     "With exact inference, batch and block-coordinate Frank-Wolfe training report dual values that never exceed the optimal regularised risk and primal values that never fall below it, with line search the (unaveraged) dual values never decrease, and on convergence the returned weights are within the reported duality gap of the optimum. "
     "This holds for every sampling scheme, averaging and checking option and for class-weighted models, and a given random state makes training repeatable.",
     ["inputs", "configurations", "schedules"],
     "all small datasets and models, C, sample_method perm/rnd/seq, line search, averaging, check interval incl. 0, random states",
     "Tests compare the final objective with one-slack on one dataset.",
     [L+"frankwolfe_ssvm.py", L+"ssvm.py"],
     [("_frank_wolfe_batch/_frank_wolfe_bc/_calc_dual_gap", L+"frankwolfe_ssvm.py")],
     ["learner.w", "objective_curve_", "primal_objective_curve_"])

prop("C19", "Subgradient training performs the documented subgradient steps",
     "Subgradient training, run sample by sample or in mini-batches, produces exactly the weights of the documented recursion: a (momentum-smoothed) step of size learning_rate / (t + t0)^decay along the most violated constraint's joint-feature difference minus w / (C n), with the documented linear or quadratic averaging, and its objective curve is the regularised risk of the current weights. "
     "With a constant learning rate option, shuffling, warm start and early stopping (no violated constraint) behave as documented.",
     ["inputs", "histories", "configurations"],
     "all models, datasets, learning-rate schedules, momentum, averaging, batch sizes",
     "Tests only check that blobs are separated after many iterations.",
     [L+"subgradient_ssvm.py", U+"inference.py"],
     [("SubgradientSSVM._solve_subgradient/_sequential_learning/_parallel_learning", L+"subgradient_ssvm.py")],
     ["learner.w", "objective_curve_", "learner.t"])

prop("C20", "Perceptron training performs the documented perceptron updates",
     "Structured perceptron training, online or batch, produces exactly the weights obtained by adding (t + t0)^decay times the joint-feature difference of truth and prediction whenever the prediction has a loss, with the documented weight averaging (off, all, from a given epoch, last epoch only); its loss curve holds the relative training loss of each epoch and training stops after an epoch without loss. "
     "On linearly separable data it stops with zero training loss.",
     ["inputs", "histories", "configurations"],
     "all models, datasets, epochs, decay exponents, averaging and batch options, n_jobs",
     "Tests compare one XOR example and accuracy.",
     [L+"structured_perceptron.py"],
     [("StructuredPerceptron.fit", L+"structured_perceptron.py")],
     ["learner.w", "learner.loss_curve_"])

prop("C21", "Latent learners improve their objective and report it faithfully",
     "Latent SSVM training alternates latent completion at the current weights with a convex fit, so with exact inference and a tight inner solver the latent objective never increases from one outer iteration to the next and training stops when the completion no longer changes; given one latent state per label it equals the non-latent fit. "
     "The latent subgradient learner performs its documented recursion, reports the latent objective of its final weights, and predict / predict_latent / score are consistent with the observable labels for both, with any n_jobs.",
     ["inputs", "histories", "configurations"],
     "all latent models, datasets, initial latent labellings, inner learners, n_jobs",
     "Tests check that cross-shaped patterns are learned from one seed.",
     [L+"latent_structured_svm.py", L+"subgradient_latent_ssvm.py", U+"inference.py"],
     [("LatentSSVM.fit", L+"latent_structured_svm.py"), ("SubgradientLatentSSVM.fit/score/_objective", L+"subgradient_latent_ssvm.py"), ("find_constraint_latent", U+"inference.py")],
     ["learner.w", "learner.predict", "learner.predict_latent", "learner.score", "objective_curve_"])

prop("C22", "Refitting forgets the past; learners clone and report parameters",
     "Fitting a cutting-plane, Frank-Wolfe or perceptron learner again (on the same or other data, without warm start) gives the result of a fresh learner with the same parameters, whatever was fitted before, and learning curves belong to the last fit only. "
     "get_params/set_params/clone of every learner round-trip its constructor parameters and fit returns the learner itself.",
     ["histories", "inputs", "configurations"],
     "all sequences of fits with different data and parameter changes on one learner object",
     "Tests fit each learner object once.",
     [L+"n_slack_ssvm.py", L+"one_slack_ssvm.py", L+"frankwolfe_ssvm.py", L+"structured_perceptron.py", L+"ssvm.py", L+"latent_structured_svm.py"],
     [("state reset at the start of fit", L+"one_slack_ssvm.py")],
     ["learner.w", "learner curves", "get_params"])

prop("C23", "Saved learners load back equivalent, whatever the save schedule",
     "A learner saved by the save logger, at any iteration that is a multiple of save_every or at the end, loads back as a learner with the same parameters, weights, curves and predictions; a file name with an iteration placeholder gets the iteration number (or a loadable name for the final save), and other iterations write nothing. "
     "Saving, even when writing fails half-way, leaves the learner itself, including its inference cache, as it was, and the cache is not written to the file.",
     ["inputs", "histories", "fault_sequences"],
     "all learners, save intervals, file name patterns, fit sequences, write faults",
     "One test saves and loads one learner.",
     [U+"logging.py"],
     [("SaveLogger.__call__/save/load", U+"logging.py")],
     ["SaveLogger(...)", "SaveLogger.load()"])

prop("C24", "Graph and matrix helpers satisfy their defining identities",
     "Compressing and expanding symmetric matrices are inverse on symmetric matrices and adjoint to each other under the inner product (so symmetric pairwise weights and accumulated pair counts match); grid-edge construction lists every horizontal, vertical (and diagonal) neighbour pair exactly once in row-major numbering, and edge features mark the list each edge came from. "
     "Exhaustive (loss-augmented) inference returns the true optimum, and the constraint finder returns the joint-feature difference, slack and loss of the labelling it reports, for given as well as searched labellings (likewise with latent states); the primal objective adds up exactly these slacks; the forest test says yes exactly for acyclic edge lists.",
     ["inputs"],
     "all sizes, matrices, shapes, models and weights",
     "Tests check fixed sizes and one model.",
     [U+"inference.py", U+"graph.py", U+"graph_functions.py"],
     [("expand_sym/compress_sym", U+"inference.py"), ("make_grid_edges/edge_list_to_features", U+"graph.py"), ("find_constraint/exhaustive_inference", U+"inference.py"), ("is_forest", U+"graph_functions.py")],
     ["pystruct.utils"])

prop("C25", "Malformed inputs are rejected and sizes are inferred from data",
     "Models infer numbers of features, states, labels and edge features from training data, keep values given explicitly, and raise an error when these disagree with the data, when a weight vector, feature matrix, edge-feature matrix, pairwise array, class-weight list or labelling has the wrong size, when an edge or label of a typed model lies outside its type's range, or when an option is unknown; correct inputs are never rejected. "
     "After initialisation the joint feature always has the announced length. Fitting sizes the model by the training data unless told not to initialise it; then it takes any data that fit the model, whether or not they show every label.",
     ["inputs", "configurations"],
     "all models, all single-field corruptions of valid inputs",
     "Tests check a handful of error messages.",
     [M+"base.py", M+"crf.py", M+"graph_crf.py", M+"edge_feature_graph_crf.py", M+"typed_crf.py", M+"node_type_edge_feature_graph_crf.py", M+"unstructured_svm.py", M+"latent_graph_crf.py", I+"common.py", L+"frankwolfe_ssvm.py", L+"n_slack_ssvm.py"],
     [("_check_size_w/_check_size_x", M+"base.py"), ("initialize", M+"crf.py"), ("_validate_params", I+"common.py")],
     ["model.initialize", "model.inference", "constructors"])

prop("C26", "Equivalent models and relabelled problems give equivalent results",
     "Encoding the same problem in different models (chain, graph, grid, edge-feature, typed, multi-label, latent with one state per label, multi-class as single node) gives equal energies and equally good predictions under the corresponding weights. "
     "Renumbering nodes, permuting edges, permuting states or features together with the weights, splitting an instance into connected components or adding a constant to all scores of a node changes results only accordingly.",
     ["inputs", "configurations"],
     "all pairs of equivalent encodings, all permutations and component splits",
     "Tests compare two encodings on single examples.",
     [M+"graph_crf.py", M+"chain_crf.py", M+"grid_crf.py", M+"edge_feature_graph_crf.py", M+"node_type_edge_feature_graph_crf.py", M+"latent_graph_crf.py", I+"maxprod.py"],
     [("shared CRF machinery", M+"crf.py")],
     ["model.joint_feature", "model.inference", "model.loss"])

prop("C27", "Synthetic datasets are well-formed and reproducible",
     "Every synthetic dataset generator returns, for any admissible sample count, noise level and size, the documented shapes with integer labels in range, the same data again for the same seed, and without noise inputs from which the labels can be recovered pointwise where the generator documents unary evidence. "
     "Data from the grid generators can be used directly with the grid models.",
     ["inputs"],
     "all generators, sample counts, sizes, noise levels, seeds",
     "Tests use default sizes only, as fixtures.",
     ["pystruct/datasets/synthetic_grids.py", "pystruct/datasets/dataset_loaders.py"],
     [("generate_*", "pystruct/datasets/synthetic_grids.py")],
     ["pystruct.datasets"])

prop("C28", "Interrupted or failing training leaves a usable learner",
     "When training is interrupted (KeyboardInterrupt) during any inference or logger call of the training loop, fit ends normally: the weights are those of the updates completed so far, prediction and score work, the logger gets its final call exactly once, the curves have equal lengths, the last primal objective is the risk of the weights and no dual objective exceeds the optimum. "
     "An interrupted cutting-plane run can be continued from its constraints to the optimum, any other error raised by a model or logger comes out of fit unchanged, and in both cases a later fit is that of a fresh learner.",
     ["inputs", "histories", "fault_sequences"],
     "all learners and options, every interruption point inside the training loop, interrupts and other errors",
     "No test interrupts training.",
     [L+"n_slack_ssvm.py", L+"one_slack_ssvm.py", L+"frankwolfe_ssvm.py", L+"subgradient_ssvm.py", L+"structured_perceptron.py", L+"subgradient_latent_ssvm.py", L+"latent_structured_svm.py"],
     [("except KeyboardInterrupt around the training loop", L+"one_slack_ssvm.py")],
     ["learner.fit", "learner.w", "learner.constraints_", "learner curves"])

prop("C29", "Training curves and timestamps are consistent and can be plotted",
     "After every history of fits, warm starts and interruptions the primal and dual objectives (and the cache marks) of a learner have one entry each per recorded iteration, timestamps_ holds the start of training followed by non-decreasing training times, and training losses are recorded every show_loss_every iterations or not at all. "
     "plot_learning draws exactly these curves for every learner, fresh or loaded from a file, and plot_grid draws the given labelling with its cell borders.",
     ["inputs", "configurations", "histories"],
     "all learners, options, histories of fits; all labelled grids",
     "No test plots anything or looks at timestamps.",
     [L+"n_slack_ssvm.py", L+"one_slack_ssvm.py", L+"frankwolfe_ssvm.py", L+"subgradient_ssvm.py", L+"structured_perceptron.py", "pystruct/plot_learning.py", U+"plotting.py"],
     [("plot_learning", "pystruct/plot_learning.py"), ("plot_grid", U+"plotting.py"), ("_compute_training_loss", L+"ssvm.py")],
     ["learner.timestamps_", "learner.objective_curve_", "plot_learning(learner)"])

prop("C30", "The downhill simplex learner minimises its unconstrained primal",
     "The simplex learner returns weights whose objective |w|^2 / (2 C) plus the mean slack of the margin-rescaled most violated labellings is no larger than at its starting points, and with one or two weights is the global minimum; predictions and scores are those of the model at these weights.",
     ["inputs", "configurations"],
     "all small training sets, models and C",
     "No test runs this learner.",
     [L+"downhill_simplex_ssvm.py"],
     [("PrimalDSStructuredSVM.fit", L+"downhill_simplex_ssvm.py")],
     ["learner.w", "learner.predict"])

prop("C31", "Results do not depend on how the numbers are stored",
     "Storing the same numbers differently - labels in any integer type, features, edge features and potentials in integer types or single precision that hold them exactly, edges in any integer type but uint64, weights as integers or single precision, in C or Fortran order, reversed, strided, part of a wider array, read-only or memory-mapped - changes neither joint features, inference, losses, energies, batch results and latent completion of any model, nor what the inference functions return, nor what the learners learn, predict and score. "
     "This includes label types too narrow to hold products of the number of states.",
     ["inputs"],
     "all models, methods, learners, storage types and layouts per argument, up to 260 states",
     "Tests use int64 labels and contiguous float64 arrays almost throughout.",
     [M+"crf.py", M+"graph_crf.py", M+"edge_feature_graph_crf.py", M+"latent_node_crf.py", M+"node_type_edge_feature_graph_crf.py", M+"unstructured_svm.py", M+"multilabel_svm.py", "src/utils.pyx", I+"maxprod.py", I+"linear_programming.py"],
     [("joint_feature", M+"graph_crf.py"), ("loss_augment_unaries", M+"crf.py"), ("crammer_singer_joint_feature", "src/utils.pyx")],
     ["model methods", "inference_dispatch", "compute_energy", "learner.fit/predict/score"])

prop("C32", "Watching a training run does not change it",
     "With the same random state, a run of any learner watched through any verbosity, training-loss recording (show_loss_every), logger or saving logger - over several fits and warm starts, with switching inference, negativity constraints and an unusable kernel - ends with the same weights, objective curves and fitted state as the unwatched run, and with the same exception if that one raised. "
     "What the loggers were shown or saved is the state of the run at that iteration.",
     ["inputs", "configurations", "histories"],
     "all learners, options, verbosities, loggers, histories",
     "Tests run with verbose=0 and compare nothing with it.",
     [L+"n_slack_ssvm.py", L+"one_slack_ssvm.py", L+"frankwolfe_ssvm.py", L+"subgradient_ssvm.py", L+"subgradient_latent_ssvm.py", L+"structured_perceptron.py", L+"latent_structured_svm.py", U+"logging.py"],
     [("_compute_training_loss", L+"ssvm.py"), ("SaveLogger.__call__", U+"logging.py"), ("NSlackSSVM.fit", L+"n_slack_ssvm.py")],
     ["learner.fit", "learner.w", "learner curves", "logger calls"])

prop("C33", "Models a user wrote work with every learner",
     "A model that implements just what StructuredModel documents (joint_feature, inference, loss-augmented inference, and optionally its own loss; latent and label_from_latent for latent models), with labels that are numbers, strings, sets or arrays, trains with every learner to that learner's guarantee: the optimum of its enumerated program, the documented recursions and perceptron bound, monotone latent training. "
     "The base class's batch methods, prediction, score and Hamming loss follow from the model's own methods.",
     ["inputs", "configurations"],
     "all small user-defined models (explicit label lists with feature tables and loss tables), label types, learners, options",
     "Tests only train pystruct's own models.",
     [M+"base.py", L+"ssvm.py", L+"n_slack_ssvm.py", L+"one_slack_ssvm.py", L+"frankwolfe_ssvm.py", L+"subgradient_ssvm.py", L+"structured_perceptron.py", L+"latent_structured_svm.py", L+"subgradient_latent_ssvm.py", U+"inference.py"],
     [("StructuredModel", M+"base.py"), ("BaseSSVM", L+"ssvm.py"), ("find_constraint", U+"inference.py")],
     ["learner.fit", "learner.predict", "StructuredModel.batch_*"])

prop("C34", "Learners and models can be printed, copied and model-selected",
     "Models and learners can be printed at any stage of their life. scikit-learn's clone, cross-validation and grid search treat every learner as an estimator: each candidate and fold gives the result of a fresh learner with these parameters on these samples, and the learner passed in stays as it was. "
     "Deep copies and pickles of fitted learners and models behave as the original and share nothing with it.",
     ["inputs", "configurations", "histories"],
     "all learners, parameters and grids, folds, models",
     "Only a grid search over C of one learner is tested.",
     [L+"ssvm.py", M+"base.py", M+"edge_feature_graph_crf.py", M+"unstructured_svm.py", L+"latent_structured_svm.py", L+"structured_perceptron.py"],
     [("BaseSSVM", L+"ssvm.py"), ("StructuredModel.__repr__", M+"base.py")],
     ["repr(model)", "clone", "cross_val_score", "GridSearchCV", "copy.deepcopy", "pickle"])

prop("C35", "The wrappers of optional solvers pose the model's own problem",
     "With 'qpbo' and 'ogm' inference the solver library is handed the problem in its own terms - costs, not scores; every node and edge once, in its direction; the array types the library accepts; the algorithm and starting point asked for - so that a solver which solves it exactly makes (loss-augmented) inference of every model exact (up to QPBO's fixed-point grain), with energies that are those of the returned labelling. "
     "get_installed reports exactly the methods whose library is there, in the order asked, and models pick a method that is there by default.",
     ["inputs", "configurations"],
     "all small problems and models, both libraries, all algorithm names, array orders, sets of installed libraries",
     "The libraries are not installed, so the tests skip these paths or fail.",
     [I+"inference_methods.py", M+"crf.py"],
     [("inference_qpbo", I+"inference_methods.py"), ("inference_ogm", I+"inference_methods.py"), ("get_installed", I+"inference_methods.py")],
     ["inference_dispatch(method='qpbo'/'ogm')", "get_installed", "model.inference"])

prop("C36", "The guarantees hold at realistic size",
     "With hundreds of nodes, states, labels, edges or samples the models still score labellings by the documented energy and losses, max-product is optimal on every forest, nodes without active edges take their best state under every method, grids, chains and forests are built and recognised correctly, compressed matrices expand to themselves, and latent states keep their labels. "
     "Prediction, score, objective and batch results of hundreds of samples are those of the single samples, and training on them ends within its tolerance of the optimum.",
     ["inputs", "configurations"],
     "all model kinds with up to 400 nodes (grids up to 320 x 320, forests up to 1500 nodes), up to 900 states, up to 400 samples",
     "Tests use a few fixed small instances; index types, counters and thresholds that only matter at size are not reached.",
     [M+"graph_crf.py", M+"chain_crf.py", M+"edge_feature_graph_crf.py", M+"latent_graph_crf.py", M+"node_type_edge_feature_graph_crf.py", I+"maxprod.py", U+"graph.py", U+"graph_functions.py", U+"inference.py", L+"ssvm.py", L+"n_slack_ssvm.py"],
     [("tree_max_product", I+"maxprod.py"), ("make_grid_edges", U+"graph.py"), ("is_forest", U+"graph_functions.py"), ("GraphCRF.joint_feature", M+"graph_crf.py")],
     ["model.joint_feature", "model.inference", "make_grid_edges", "learner.predict", "learner.fit"])

prop("C37", "Training with relaxed inference solves the relaxed program",
     "When inference is a linear-programming relaxation ('lp', or 'ad3' without branch and bound), the n-slack, one-slack and Frank-Wolfe learners minimise the regularised risk in which each slack is the maximum of loss plus score difference over the local polytope, on any graph and for every model whose inference is relaxed: the returned weights are within the learner's tolerance of its minimum, reported primal values are this risk of the current weights, dual and cutting-plane objectives never exceed the minimum. "
     "Stored and cached constraints are those of their marginals, results of inference are cached as asked, and predictions of the trained learner are integral labellings.",
     ["inputs", "configurations", "histories"],
     "all training sets on graphs with cycles, models, C, batch sizes, caching, pruning and Frank-Wolfe options, small sizes",
     "Tests compare one accuracy on one toy dataset; on it relaxed solutions are integral.",
     [L+"n_slack_ssvm.py", L+"one_slack_ssvm.py", L+"frankwolfe_ssvm.py", L+"subgradient_ssvm.py", U+"inference.py", M+"crf.py", M+"typed_crf.py"],
     [("NSlackSSVM.fit", L+"n_slack_ssvm.py"), ("OneSlackSSVM._update_cache", L+"one_slack_ssvm.py"), ("FrankWolfeSSVM._calc_dual_gap", L+"frankwolfe_ssvm.py"), ("find_constraint", U+"inference.py")],
     ["learner.fit", "learner.primal_objective_curve_", "learner.objective_curve_", "learner.constraints_"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
