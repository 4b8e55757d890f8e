#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the committed source of the property list is this file)."""
import json
import os

B = "causalnex/ebaybbn/bbn.py"
G = "causalnex/ebaybbn/graph.py"
U = "causalnex/ebaybbn/utils.py"
I = "causalnex/inference/inference.py"
SM = "causalnex/structure/structuremodel.py"
NT = "causalnex/structure/notears.py"
DN = "causalnex/structure/dynotears.py"
DG = "causalnex/structure/data_generators/core.py"
DW = "causalnex/structure/data_generators/wrappers.py"
TR = "causalnex/structure/transformers.py"
NW = "causalnex/network/network.py"

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": list(observe), "hook_needed": hook},
    })


prop("C01", "Queries return the exact posterior under every propagation schedule",
     "For every discrete network (connected or not) and every evidence, BBN.query returns, for every variable and state, "
     "the exact posterior probability given the evidence, whatever order sets happen to iterate in (and hence whatever "
     "root, elimination and message order the propagation takes). Evidence of probability zero is never answered with a "
     "made-up distribution.",
     ["inputs", "schedules"], "all networks, evidence sets and set-iteration (message) orders",
     "Tests query four fixed networks under PYTHONHASHSEED=0 with a few evidence sets; set order (object addresses) is not "
     "controlled and disconnected networks are not tried.",
     [B], [("join tree propagation", B + ":JoinTree.propagate"), ("message passing", B + ":JoinTreeCliqueNode.pass_message"),
           ("evidence encoding", B + ":JoinTree.initialize_potentials"), ("normalisation", B + ":BBN.query")],
     [("potential_tt", "table held by each clique/sepset", B)], ["BBN.query"])
prop("C02", "The join tree is valid whatever the tie-breaking",
     "For every network and every elimination priority and set order, building the join tree yields one connected tree of "
     "cliques whose sepsets are the intersections of the cliques they join, which satisfies the running-intersection "
     "property, covers every variable and every variable's family, and assigns every factor exactly once to a clique that "
     "contains its family.",
     ["inputs", "schedules", "configurations"], "all DAGs, priority functions and set orders",
     "Tests check two hand-written networks with the default priority and one custom order.",
     [B], [("moralise", B + ":make_moralized_copy"), ("triangulate", B + ":triangulate"),
           ("sepset selection", B + ":build_join_tree"), ("assignment", B + ":JoinTree.assign_clusters")],
     observe=["build_join_tree", "JoinTree.assign_clusters"])
prop("C03", "Propagation calibrates from any root after any earlier messages",
     "After a full propagation from any starting clique, every clique and sepset table equals the joint probability of its "
     "variables and the evidence, no matter which whole messages were passed before (partial rounds, duplicates, other "
     "roots). Passing further messages in a calibrated tree changes nothing.",
     ["schedules", "fault_sequences", "inputs"], "all message sequences before and after a full propagation, all roots",
     "Tests propagate once, from the default root, over one tree.",
     [B], [("collect/distribute", B + ":JoinTree.propagate"), ("project", B + ":JoinTreeCliqueNode.project"),
           ("absorb (divide by the old sepset)", B + ":JoinTreeCliqueNode.absorb")],
     observe=["JoinTree.propagate", "pass_message"])
prop("C04", "A reused join tree or network has no memory of earlier rounds",
     "Re-initialising a join tree with new evidence and propagating gives the exact marginals for that evidence alone, "
     "whatever rounds, evidence, interrupted propagations, stray messages or other trees of the same network came before. "
     "Reading marginals or querying the network does not change any later answer or the caller's evidence.",
     ["histories", "crash_points"], "all operation histories over shared trees, interruption at every executed line",
     "Tests use every tree once, without interruption.",
     [B], [("re-initialisation", B + ":JoinTree.initialize_potentials"), ("marginal read", B + ":JoinTree.marginal"),
           ("assignment", B + ":JoinTree.assign_clusters")],
     observe=["initialize_potentials", "propagate", "marginal", "BBN.query"])
prop("C05", "Concurrent queries and draws on one network are isolated",
     "Threads that concurrently query, sample, build join trees from, or export the same network each get the answer they "
     "would get alone, under every interleaving, and none fails because of another.",
     ["schedules"], "all interleavings of 2-4 client threads at line granularity",
     "No test uses a thread.",
     [B], [("per-query join tree", B + ":BBN.query"), ("per-call result cache", B + ":BBN.draw_samples")],
     [("bbn_node.clique", "last clique a factor was assigned to (shared)", B + ":initialize_potentials")],
     ["BBN.query", "BBN.draw_samples"])
prop("C06", "A failure inside an operation surfaces and leaves no trace",
     "If a factor callback raises, the call is interrupted at any point, the stack or memory runs out, or the evidence is "
     "invalid (unknown variable: VariableNotInGraphError; state outside its domain: VariableValueNotInDomainError), the "
     "caller of query, draw_samples or the builders sees that failure rather than an answer. The network, the caller's "
     "inputs and all later answers are the same as if the failed call had never been made, and a factor may itself query "
     "the network.",
     ["crash_points", "fault_sequences"], "every executed line, every factor call, every remaining stack depth",
     "The only failure tests are two invalid-evidence calls.",
     [B, U], [("validation before work", B + ":BBN.validate_keyvals"), ("per-call state", B + ":BBN.query")],
     observe=["BBN.query", "BBN.draw_samples", "build_bbn_from_conditionals"])
prop("C07", "Every drawn sample is complete, possible and honours the evidence",
     "For every outcome of the random number generator, draw_samples returns exactly n separate samples, each assigning "
     "every variable a state of its domain, agreeing with the given evidence, and having positive probability; it does not "
     "fail or change the caller's evidence.",
     ["inputs", "schedules"], "all RNG outcomes including 0.0, the largest below 1 and every cumulative boundary +-1 ulp",
     "One test draws from the real RNG; boundary values have probability ~2^-53.",
     [B], [("inverse-CDF choice", B + ":BBN.draw_samples")], observe=["BBN.draw_samples"])
prop("C08", "Drawn samples follow the exact posterior, independently of each other",
     "Samples drawn with given evidence are distributed as the network's exact joint posterior given that evidence, and "
     "each sample is independent of the others, however many are drawn per call and whatever was drawn or queried before.",
     ["inputs", "histories"], "all networks, evidence and call histories (statistically, at 5000 samples per run)",
     "One test compares a few conditional frequencies of one network to two decimals.",
     [B], [("sequential conditional sampling with a result cache", B + ":BBN.draw_samples")],
     observe=["BBN.draw_samples"])
prop("C09", "Declaration order and hash order do not change the model",
     "Declaring the same network with its factors, condition rows, parents, arguments, domains or dictionaries in another "
     "order, or under another hash seed, gives the same edges, the same graph text and the same answers to every query.",
     ["inputs", "configurations"], "all declaration orders, constructors and hash (set-iteration) orders",
     "Tests declare each network once and run with PYTHONHASHSEED=0.",
     [B, U], [("introducing-factor resolution", U + ":get_original_factors"), ("table keys sorted", B + ":make_node_func"),
              ("sorted graph text", B + ":BBN.get_graphviz_source")],
     observe=["build_bbn", "build_bbn_from_conditionals", "get_graphviz_source", "BBN.query"])
prop("C10", "Building and querying finishes within bounded steps for any shape",
     "Building, querying and sampling a network finishes, correctly, within a number of steps polynomial in its size when "
     "its cliques are small, for chains, stars, trees, ladders and disconnected networks of up to a few hundred variables, "
     "in any declaration order and at the interpreter's default recursion limit. Factors that form no network (a cycle, a "
     "parent without a factor, two factors for one variable or of one name) are refused instead of looped over or partly used.",
     ["inputs", "schedules"], "all such shapes up to 300 variables, declaration orders and set orders; every set of factors",
     "The largest tested network has eight variables and is connected.",
     [B, U], [("sepset loop", B + ":build_join_tree"), ("resolution loop", U + ":get_original_factors"),
              ("graph copies", B + ":copy_undirected_graph")], observe=["build_bbn", "BBN.query"])
prop("C11", "Intervention histories answer exactly as do-calculus prescribes",
     "After any history of do_intervention, reset_do and query calls, InferenceEngine.query returns the exact posterior of "
     "the original network in which each currently intervened node has its incoming edges cut and the intervened "
     "distribution, given the observations. Rejected calls change nothing, every valid distribution over a node's states "
     "is accepted, resetting restores the node's original conditionals, and engines built from one BayesianNetwork do not "
     "affect each other, the network, or the caller's dictionaries.",
     ["histories", "inputs"], "all operation histories (accepted and rejected), networks and set orders",
     "Tests apply at most two interventions to one network and compare a few numbers; none of them runs in this sandbox.",
     [I, B], [("swap of conditionals", I + ":InferenceEngine._do"), ("restore", I + ":InferenceEngine.reset_do"),
              ("rebuild", I + ":InferenceEngine._generate_bbn")],
     [("_cpds", "current conditionals", I), ("_cpds_original", "as fitted", I)],
     ["InferenceEngine.do_intervention", "InferenceEngine.reset_do", "InferenceEngine.query"])
prop("C12", "Interrupted interventions are recovered by retrying or resetting",
     "If do_intervention, reset_do, query or the construction of an InferenceEngine is interrupted at any point, the "
     "exception surfaces; until the engine is recovered, a query either fails or answers exactly as before or exactly as "
     "after the interrupted call, never from a mixture; and repeating the call (or resetting the node) brings the engine "
     "exactly to the state the completed call would have.",
     ["crash_points", "histories"], "interruption at every executed line of every operation of a history",
     "No test interrupts a call.",
     [I], [("single assignment of the node's conditionals, then rebuild", I + ":InferenceEngine._do"),
           ("rebuild from scratch", I + ":InferenceEngine._generate_bbn")],
     observe=["InferenceEngine.do_intervention", "InferenceEngine.reset_do", "InferenceEngine.query"])
prop("C13", "Concurrent inference queries and separate engines are isolated",
     "Threads querying one InferenceEngine, or intervening on, resetting and querying their own engines built from one "
     "BayesianNetwork, each get the exact answer for their own observations and interventions under every interleaving.",
     ["schedules"], "all interleavings of 2-4 client threads at line granularity",
     "No test uses a thread.",
     [I, B], [("per-engine conditionals", I + ":InferenceEngine._create_cpds_dict_bn"),
              ("per-query join tree", B + ":BBN.query")], observe=["InferenceEngine.query"])
prop("C14", "Every edge of a StructureModel always has the origin it was last given",
     "After any history of adding (singly, in bulk, weighted), overwriting, removing, thresholding, copying, relabelling and "
     "extracting subgraphs, including bulk additions cut short by a failing edge stream or an interruption, every edge "
     "carries exactly one of unknown/learned/expert: the one it was last given. edges_with_origin partitions the edges, "
     "weights and attributes are those last given, a rejected origin argument changes nothing, and copies and subgraphs "
     "are independent StructureModels with the same origins.",
     ["histories", "fault_sequences", "crash_points"], "all mutation histories with failing streams and interruptions",
     "Tests add edges once or twice in fixed ways and never fail mid-stream.",
     [SM], [("origin validation and default", SM + ":StructureModel.add_edge"),
            ("bulk paths", SM + ":StructureModel.add_edges_from"), ("subgraphs", SM + ":StructureModel.get_largest_subgraph")],
     observe=["StructureModel"])
prop("C15", "Thresholding removes exactly the weakest edges and is resumable",
     "remove_edges_below_threshold removes exactly the edges whose absolute weight is below the threshold. "
     "threshold_till_dag removes edges in order of increasing absolute weight until the graph is acyclic and no further, so "
     "every kept edge is at least as strong as every removed one. Either call interrupted at any point leaves a state from "
     "which repeating it gives the result of one uninterrupted call.",
     ["inputs", "crash_points"], "all weighted graphs (ties, signs, zeros, self-loops) and interruption points",
     "Tests use three small graphs and no interruption.",
     [SM], [("remove minimum until acyclic", SM + ":StructureModel.threshold_till_dag"),
            ("single bulk removal", SM + ":StructureModel.remove_edges_below_threshold")],
     observe=["StructureModel.threshold_till_dag"])
prop("C16", "Structure learning obeys its constraints whatever the solver returns",
     "Whatever point inside its bounds the numerical solver returns at any iteration, NOTEARS and DYNOTEARS never return a "
     "self-loop, a forbidden edge, an edge into a forbidden child or out of a forbidden parent, or (DYNOTEARS) an edge "
     "against time. Every returned edge carries the solver's final non-zero weight, whose magnitude reaches the threshold "
     "(exceeds it for from_numpy and from_pandas); no other edge is dropped and no allowed edge is restricted. Structures "
     "learned from data frames have origin learned on every edge, all variables appear as nodes, the caller's data and "
     "constraint lists are unchanged, and bad input is rejected before solving.",
     ["fault_sequences", "inputs", "configurations"], "all solver behaviours within bounds, constraint sets and options",
     "Tests run the real solver to convergence on fixed data; they cannot make it stall, diverge or return extreme points.",
     [NT, DN], [("bounds", NT + ":from_numpy"), ("bounds", DN + ":from_numpy_dynamic"),
                ("thresholding", NT + ":_learn_structure")],
     observe=["from_numpy", "from_numpy_lasso", "from_pandas", "from_pandas_lasso", "from_numpy_dynamic"])
prop("C17", "Structure learning stops within max_iter and is honest about convergence",
     "However the solver behaves (stalls, makes partial progress, fails), NOTEARS and DYNOTEARS stop within a bounded "
     "number of solver calls and return or raise. If the weights they return before thresholding violate acyclicity by more "
     "than the tolerance, the did-not-converge warning is given; if no warning is given, the violation is within the "
     "tolerance.",
     ["fault_sequences", "inputs"], "all sequences of solver outcomes (feasible points, stalls, exceptions)",
     "Tests assert the warning once, with max_iter=1 and the real solver.",
     [NT, DN], [("augmented Lagrangian loop", NT + ":_learn_structure"), ("loop", DN + ":_learn_dynamic_structure")],
     observe=["from_numpy", "from_numpy_lasso", "from_numpy_dynamic"])
prop("C18", "Generated structures are valid for every outcome of the random source",
     "For every graph type, size, degree and weight range and every random outcome, generate_structure returns an "
     "acyclic StructureModel on the nodes 0..n-1 with at most one edge between two nodes, whose non-zero weights lie "
     "in the requested range with either sign possible, whose edges occur with the documented probability "
     "(erdos-renyi: the expected degree; barabasi-albert: preferential attachment with degree/2 edges per new node; "
     "full: every pair) and point in either direction between any two nodes. generate_structure_dynamic additionally "
     "returns lagged edges that only point from the past into the present, in the range decayed by lag, with the "
     "documented expected degrees. Invalid arguments are rejected.",
     ["inputs", "schedules"], "all parameter combinations and RNG outcomes including interval ends",
     "Tests draw a handful of graphs from the real RNG.",
     [DG, DW], [("lower-triangular orientation and permutation", DG + ":generate_structure"),
                ("lag decay", DG + ":generate_structure_dynamic")],
     observe=["generate_structure", "generate_structure_dynamic"])
prop("C19", "Seeded data generation is reproducible and keeps its inputs",
     "Generating data from a structure with a given seed, in a single thread, returns identical data every time, "
     "whatever was generated or drawn from the global random state before, interrupted before, or whichever seeds were "
     "used before; different seeds give different data; the structure, schema and distribution dictionaries passed in "
     "are unchanged; and each wrapper (generate_*_dataframe, generate_*_data) returns what the general generator "
     "returns for the same arguments, the *_data wrappers with columns in the order of the structure's nodes.",
     ["histories", "crash_points"], "all histories of generator calls, global RNG use and interruptions before a seeded call",
     "Tests call each generator twice in a row.",
     [DG, DW], [("re-seeding at entry", DG + ":sem_generator"), ("wrappers", DW)],
     observe=["sem_generator", "generate_*_dataframe", "generate_*_data", "nonlinear_sem_generator"])
prop("C20", "Generated rows are well-formed for every random outcome and schema",
     "For every DAG, mixed-type schema and random outcome, sem_generator and nonlinear_sem_generator return n_samples "
     "rows with one column per continuous, binary or count node and one per state of a categorical node, where binary "
     "columns are 0/1, exactly one column of each categorical node is 1, counts are non-negative integers and all "
     "values are finite for moderate weights. Without noise, children of linear models follow their parents' weighted "
     "sum exactly and non-linear ones are smooth unit-variance functions of their parents; root nodes keep their "
     "documented spread whatever noise_std; the noise follows the requested distribution and scale. Cyclic structures, "
     "unknown types and schemas whose column names collide are rejected, and the generators always terminate.",
     ["inputs", "schedules"], "all DAGs, schemas, noise settings and RNG outcomes including extreme draws",
     "Tests generate from fixed graphs with the real RNG.",
     [DG], [("per-type generators", DG + ":sem_generator")], observe=["sem_generator", "nonlinear_sem_generator"])
prop("C21", "Stationary dynamic data generation retries within its limit, honestly",
     "gen_stationary_dyn_net_and_df makes at most the requested number of attempts. If it gives no warning, the data "
     "it returns is finite, bounded by the documented 1e3 limit, and follows the structure it returns; if it warns, "
     "all the allowed attempts diverged and it returns the documented constant data. A divergent simulation is never "
     "passed off as a success, no success is discarded, and numpy's floating-point error state is as before, also "
     "after a failing random source.",
     ["fault_sequences"], "all sequences of divergent and convergent attempts",
     "Divergence depends on rare random structures; tests hit it only through fixed seeds.",
     [DW, DG], [("retry loop", DW + ":gen_stationary_dyn_net_and_df")], observe=["gen_stationary_dyn_net_and_df"])
prop("C22", "Lagged data never spans a gap in the observed stream",
     "For every time-indexed stream with lost or repeated time steps, split over any number of realisations, and every lag "
     "order p >= 1, DynamicDataTransformer returns only rows whose current and all p lagged values come from consecutive "
     "time steps of one realisation, in order, and every such window appears exactly once. Unsorted, non-integer-indexed "
     "or non-numeric input, and realisations whose columns or types differ, are rejected, as is transforming before "
     "fitting; the input is unchanged.",
     ["fault_sequences", "inputs"], "all loss patterns, realisation splits and lag orders",
     "Tests use three fixed frames.",
     [TR], [("gap splitting", TR + ":DynamicDataTransformer._cut_dataframes_on_discontinuity_points"),
            ("lag stacking", TR + ":DynamicDataTransformer._convert_realizations_into_dynotears_format")],
     observe=["DynamicDataTransformer.fit_transform"])
prop("C23", "A failed fit leaves a BayesianNetwork as it was",
     "After any history of fit_node_states, fit_cpds and predictions in which calls fail or are interrupted at any point, a "
     "BayesianNetwork reports the states of the last completed fit_node_states and, as long as the states have not been "
     "refitted since, the conditionals of the last completed fit_cpds; predictions from complete data agree with the "
     "reported conditionals, and the caller's data is unchanged. What it reports is the caller's own: editing a returned table, "
     "state set or list, or the structure handed over, changes neither nodes, edges, states and tables nor predictions.",
     ["crash_points", "histories"], "interruption of every call at every line",
     "Tests check only that invalid arguments raise.",
     [NW], [("node_states setter", NW + ":BayesianNetwork.node_states"), ("fit", NW + ":BayesianNetwork.fit_cpds")],
     observe=["BayesianNetwork"])
prop("C24", "The solver is always handed the documented objective and its gradient",
     "At every solver call of NOTEARS and DYNOTEARS, the objective is the least-squares loss of the weights plus "
     "rho/2*h^2 + alpha*h (plus the requested L1 penalty) with h the documented acyclicity measure, and the gradient handed "
     "over is its exact gradient, at every point. Each call starts from the initial point or one the solver returned, and "
     "between calls either the penalty weight rises or the multiplier grows by rho*h. When constraints leave one variable "
     "order, the learned weights are the (regularised) least-squares optimum.",
     ["fault_sequences", "inputs", "configurations"], "all points the solver visits, data, lambdas, orders and constraints",
     "Tests compare final structures on fixed data, where a wrong gradient or penalty often still converges close enough.",
     [NT, DN], [("objective and gradient", NT + ":_learn_structure"), ("dual ascent", NT + ":_learn_structure"),
                ("objective and gradient", DN + ":_learn_dynamic_structure")],
     observe=["from_numpy", "from_numpy_lasso", "from_numpy_dynamic"])
prop("C25", "Simulated dynamic data follows the graph it is given",
     "In the data frame generate_dataframe_dynamic returns, column i_lagk at time t equals i_lag0 at time t-k, and each "
     "current value is the variable's constant drift plus the weighted sum of its current and lagged parents along the "
     "graph's edges plus noise of the requested type and scale, for any number of variables, lags, samples and burn-in "
     "steps and every random outcome; the graph is unchanged, and unknown noise types are rejected.",
     ["inputs", "schedules"], "all dynamic graphs, sizes, lag orders, noise types and RNG outcomes",
     "Tests check shapes and one fixed graph with at most nine lags; labels and values of more lags are never compared.",
     [DW], [("time simulation and column labels", DW + ":generate_dataframe_dynamic")],
     observe=["generate_dataframe_dynamic"])
prop("C26", "Predictions answer row by row from the last fit, whatever happened before",
     "BayesianNetwork.predict and predict_probability give, for every row of complete data, a most probable state of the node "
     "given its parents' states in that row and the conditional probabilities reported by the network, independent of row "
     "order, row index, column order, extra columns, batch composition and concurrent readers; when some parents are not among "
     "the columns, the exact posterior given the columns present (predict: the node's state in a most probable completion). "
     "Asking leaves the network and the data unchanged, also when a prediction is interrupted or asks for something the network does not know.",
     ["schedules", "crash_points", "histories", "inputs"], "all networks, data frames, interleavings and interruption points",
     "Tests predict one fixed frame on one fixed network, from one thread.",
     [NW], [("prediction", NW + ":BayesianNetwork.predict"), ("probabilities", NW + ":BayesianNetwork.predict_probability")],
     observe=["BayesianNetwork"])
PT = "causalnex/structure/pytorch/"
prop("C27", "The PyTorch learner obeys its constraints and reports the solver's final point",
     "Whatever the numerical solver answers, causalnex.structure.pytorch from_numpy / from_pandas never ask it for forbidden "
     "edges or self-loops and return a structure whose nodes are the (expanded) variables under their own names, whose edges "
     "are exactly the weights of the solver's final point above the threshold with their mean effects, whose biases and "
     "distribution types are those of the variables, and whose attached learner reconstructs data by the final point, for "
     "mixed continuous, binary, count, categorical and ordinal data. Failures reach the caller, arguments are never changed "
     "and invalid data and ambiguous column names are refused.",
     ["fault_sequences", "inputs", "configurations"], "all data, schemas, constraints and solver behaviours",
     "Tests run one optimiser path on fixed data and compare few numbers.",
     [PT + "notears.py", PT + "core.py", PT + "dist_type"],
     [("expansion and edges", PT + "notears.py:from_pandas"), ("bounds", PT + "core.py:NotearsMLP"),
      ("links", PT + "dist_type/ordinal.py")], observe=["from_numpy", "from_pandas"])
prop("C28", "The PyTorch learner optimises the documented objective with its exact gradient",
     "At every solver call, the objective is the sum of the distribution types' losses plus the requested L1 and L2 penalties "
     "plus rho/2*h^2 + alpha*h with h the acyclicity measure, the gradient is its gradient, each call starts from the initial "
     "point or one the solver returned, between calls either the penalty weight rises or the multiplier grows by rho*h, and "
     "ending with a cyclic final point is reported by a warning.",
     ["fault_sequences", "inputs", "configurations"], "all points the solver visits, data types, layers and penalties",
     "Tests compare final structures on fixed data; a wrong gradient or penalty often still converges close enough.",
     [PT + "core.py", PT + "nonlinear.py", PT + "dist_type"],
     [("dual ascent", PT + "core.py:NotearsMLP._dual_ascent_step"), ("hidden layers", PT + "nonlinear.py:LocallyConnected"),
      ("losses", PT + "dist_type")], observe=["from_numpy", "from_pandas"])
prop("C29", "DAGRegressor and DAGClassifier answer from their last completed fit, row by row",
     "After a fit that completed, whatever fits came before (also failed or interrupted ones), predict, predict_proba, coef_, "
     "feature_importances_, intercept_ and graph_ are those of that fit: each row of a prediction is the target's "
     "reconstruction from that row alone (most probable class for classifiers), whatever the row index, batch, "
     "standardisation, data type or concurrent readers; y is matched to X by position, and neither data nor constructor "
     "arguments are changed. A failure in a fit reaches the caller; what an estimator answers between a failed fit and the "
     "next one is not promised.",
     ["histories", "schedules", "crash_points", "inputs"], "all histories of fits and predictions, options and data",
     "Tests fit once on fixed data and check shapes and a few values.",
     [PT + "sklearn/_base.py", PT + "sklearn/reg.py", PT + "sklearn/clf.py"],
     [("fit and predict", PT + "sklearn/_base.py:DAGBase"), ("classes", PT + "sklearn/clf.py:DAGClassifier")],
     observe=["DAGRegressor", "DAGClassifier"])
prop("C30", "Fitted conditional probabilities equal the (smoothed) data frequencies",
     "After any history of fits, the conditional probabilities a BayesianNetwork reports are, for every node, state and "
     "combination of parent states, the frequencies of the last data set it was fitted on (maximum likelihood) or their "
     "smoothed posterior means (K2, BDeu with the given sample size), over the states fitted last; predictions follow them. "
     "Neither the order of rows, columns, states, edges or fits, nor row labels, extra columns, other networks or concurrent "
     "fits of other networks on shared data matter, and the data is not changed.",
     ["histories", "schedules", "inputs"], "all structures, data sets, orders, fit histories and interleavings",
     "Tests compare a few fixed data sets, fitted once, in one order.",
     [NW], [("state numbering", NW + ":BayesianNetwork._state_to_index"), ("fitting", NW + ":BayesianNetwork.fit_cpds"),
            ("labelled tables", NW + ":BayesianNetwork.cpds")], observe=["BayesianNetwork"])
DI = "causalnex/discretiser/discretiser.py"
prop("C32", "A discretiser puts every value into its bucket by the last completed fit",
     "Discretiser.transform maps each value to the number of split points it has reached, where the split points are those "
     "given (fixed) or those of the last completed fit by the documented method (uniform width, quantiles, outlier "
     "percentiles, percentiles). A refused or interrupted fit leaves the previous split points in force, concurrent fits and "
     "transforms are linearisable, discretisers do not affect one another, input arrays are never changed, and a transform "
     "before any fit is refused; invalid "
     "configurations are refused with ValueError, fitting a fixed one with RuntimeError.",
     ["histories", "crash_points", "schedules", "inputs"], "all methods, parameters, data, histories and interruption points",
     "Tests fit and transform fixed arrays once, from one thread.",
     [DI], [("split points", DI + ":Discretiser.fit"), ("buckets", DI + ":Discretiser.transform")], observe=["Discretiser"])
EV = "causalnex/evaluation/evaluation.py"
prop("C33", "Evaluation metrics follow their definitions on the network's own predictions",
     "roc_auc returns the micro-averaged ROC curve and area of the network's predicted probabilities, each state's "
     "probability compared with that state's labels, and classification_report the per-state precision, recall, F1 and "
     "support of the network's predictions under the name {node}_{state} with their averages: for every node name and kind "
     "of states, states absent from the test data, any row labels, column order and missing parents, after any refits and "
     "from concurrent callers. Evaluation changes neither network nor data, also when refused or interrupted.",
     ["histories", "schedules", "crash_points", "inputs"], "all networks, state types, test frames and interleavings",
     "Tests evaluate a node with states 0 and 1 on fixed data.",
     [EV], [("labels and probabilities", EV + ":roc_auc"), ("report", EV + ":classification_report")],
     observe=["roc_auc", "classification_report"])
PL = "causalnex/plots/"
prop("C34", "Plots draw exactly the structure, styled as documented, and touch nothing else",
     "plot_structure returns a laid-out drawing with exactly the nodes and edges of the model, attributes resolved in the "
     "documented order (defaults, all_*, specific, graph), by the requested program; displays and DAGBase.plot_dag show that "
     "drawing, with cycles removed when enforce_dag is set. A failing layout program, a missing package (reported as "
     "documented) or an interruption reaches the caller; the model, the estimator, the caller's dictionaries, the default "
     "styles and later or concurrent plots are never affected. A colour gradient runs from one colour exactly to the other.",
     ["fault_sequences", "histories", "schedules", "inputs"], "all structures, attribute dictionaries, failures and interleavings",
     "Tests compare single attributes of two-node graphs and need Graphviz.",
     [PL + "plots.py", PL + "display.py", PT + "sklearn/_base.py"],
     [("attributes", PL + "plots.py:_add_attributes"), ("drawing", PL + "plots.py:plot_structure"),
      ("display", PL + "display.py"), ("estimator plots", PT + "sklearn/_base.py:DAGBase.plot_dag")],
     observe=["plot_structure", "plot_dag", "display_plot_mpl", "color_gradient_string"])
prop("C35", "Copies and restored pickles answer as the original did and live on their own",
     "A BayesianNetwork, InferenceEngine, ebaybbn graph, StructureModel, Discretiser, DynamicDataTransformer or DAG estimator "
     "that is deep-copied, or pickled and restored in another process, gives the answers of the original at that moment. "
     "Whatever is done afterwards to either of them (fits, edits, interventions, failed or interrupted calls, use from "
     "several threads) does not show in the other. A copy that fails or is interrupted reaches the caller and changes nothing.",
     ["histories", "crash_points", "schedules"], "all histories, copy points, restarts and interruption points",
     "Tests copy a graph at most once and never restore one.",
     [NW, I, SM, PT + "sklearn/_base.py"],
     [("engine state", I + ":InferenceEngine"), ("network state", NW + ":BayesianNetwork"), ("model", SM + ":StructureModel")],
     observe=["BayesianNetwork", "InferenceEngine", "StructureModel", "Discretiser", "DAGRegressor"])
prop("C36", "Calls leave the process as they found it",
     "Whatever is learned, fitted, predicted, inferred, sampled, discretised, evaluated, generated or plotted, and whether the "
     "call returns or fails, process-wide state is as it was: recursion limit, numpy's error state, print options and (except "
     "for generators given a seed) global random state, warning filters, the root logger and levels of loggers, environment, "
     "working directory, import path, signal handlers, standard streams, threads, display options of pandas. Importing the "
     "library does not change them either.",
     ["histories", "fault_sequences"], "all calls and failures within them",
     "Tests never look at the process.",
     ["causalnex"], [("logging", "causalnex/ebaybbn/bbn.py"), ("warnings", PT + "sklearn/_base.py:DAGBase.plot_dag"),
                     ("error state", "causalnex/structure/data_generators/wrappers.py")], observe=["causalnex"])
prop("C37", "The workflow ends at the same answers, whatever is disturbed on the way",
     "Going from data to answers (learn a structure, amend and threshold it, take its largest component, discretise, fit, refit, "
     "predict from complete or partial rows, evaluate, infer, intervene, reset, plot) gives the structure, buckets and answers "
     "of an undisturbed run, whichever steps fail or are interrupted and are repeated, wherever the process is restarted "
     "from pickled artefacts, and whatever other workflows run beside it in other threads. The parts agree: "
     "conditionals are the (smoothed) frequencies of the data fitted last, predictions from complete and partial rows, "
     "evaluation metrics and queries follow from them exactly, and an engine answers from the fit it was built on. A structure "
     "with a cycle or several components is refused as a network (ValueError).",
     ["histories", "crash_points", "schedules", "fault_sequences"], "all workflows, fault positions, restarts and interleavings",
     "Tests call one function at a time, undisturbed, and never run a second workflow beside the first.",
     ["causalnex"], [("structure", SM), ("network", NW), ("engine", I), ("discretiser", DI), ("evaluation", EV)],
     observe=["causalnex"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
