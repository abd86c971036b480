#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property list)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

T_SMALL = "The fifteen end-to-end tests run the solver on a handful of fixed three- to sixteen-state models and compare final bounds and mean rewards with tolerances of 0.01 to 1.0; "

prop("C01", "Sparse and dense vector/matrix operations compute their exact definition",
 "Every product, inner product, sum, difference, element-wise product, scaling, copy, norm and maximum offered by the linear-algebra layer returns exactly (up to rounding) the value of its mathematical definition on the vectors and matrices its arguments denote, where an entry that is not stored counts as zero. Operands other than the named result are left unchanged.",
 ["inputs"], "all well-formed dense and sparse operands of compatible dimensions, including empty ones, ones whose stored entries do not overlap, and ones that end before the other",
 T_SMALL + "they never compare a product with its definition, and the sparsity patterns that reach the early-exit and merge branches are data dependent.",
 ["src/common/sla.h", "src/common/slaMatrixUtils.h", "src/common/MatrixUtils.h"],
 [("matrix-vector products over compressed columns", "src/common/sla.h: mult"), ("merge loops over sorted entries", "src/common/sla.h: inner_prod, add, emult, max_assign"), ("norms and maxima", "src/common/MatrixUtils.h")])

prop("C02", "Sparse containers stay canonical: sorted, unique, in range, no stale data",
 "Every compressed vector and matrix produced by a library operation from well-formed inputs has its stored indices strictly increasing and below the declared dimension, its column boundaries non-decreasing and consistent with the number of stored entries, and its declared dimensions equal to those the operation defines. When several values were pushed for the same matrix cell before canonicalisation, the last one pushed is the one kept.",
 ["inputs", "histories"], "all operations and all well-formed operands; for canonicalisation, every sequence of pushed entries",
 T_SMALL + "a container that is subtly out of order still yields plausible bounds on such small models.",
 ["src/common/sla.h", "src/common/sla_mask.h"],
 [("push_back/resize/canonicalize of the sparse types", "src/common/sla.h"), ("mask construction", "src/common/sla_mask.h")])

prop("C03", "Domination and mask-containment tests are sound",
 "When the library reports that one vector dominates another, every component of the first is at least the corresponding component of the second minus the given tolerance (on the required components only, for masked vectors); when it reports that one mask contains another, every index of the second occurs in the first.",
 ["inputs"], "all pairs of vectors and masks of equal dimension and every tolerance",
 T_SMALL + "an unsound domination test only makes the lower bound a little worse, which stays inside the tolerances.",
 ["src/common/sla.h", "src/common/sla_mask.h"],
 [("pointwise comparison with tolerance", "src/common/sla.h: dominates"), ("masked comparison and containment", "src/common/sla_mask.h: mask_dominates, mask_contains")])

prop("C04", "Belief update and observation probabilities follow Bayes' rule",
 "For every belief, action and observation of positive probability, the reported observation probability is the sum over reachable successor states of transition probability times observation probability, and the successor belief is the element-wise product of predicted belief and observation likelihood divided by that probability; the expected reward of a belief and action is the belief-weighted sum of state rewards. A belief is reported terminal exactly when (within the stated tolerance) all its probability lies on terminal states.",
 ["inputs"], "all models, beliefs, actions and observations with positive probability",
 T_SMALL + "they see only final bounds and sampled mean rewards, not the update itself.",
 ["src/pomdpCore/Pomdp.cc", "src/pomdpCore/Pomdp.h"],
 [("prediction, likelihood and normalisation", "src/pomdpCore/Pomdp.cc: getObsProbVector, getNextBelief"), ("expected reward", "src/pomdpCore/Pomdp.h/.cc: getReward"), ("terminal test", "src/pomdpCore/Pomdp.cc")])

prop("C05", "Point-bound backups are exact Bellman backups and are monotone",
 "A backup of a state computes, for every action, the immediate reward plus the discounted probability-weighted sum of the successors' bound values, and sets the state's bound to the best of these; it never lowers a lower bound and never raises an upper bound. The action it reports attains the best value.",
 ["inputs", "histories"], "all search-graph nodes, action counts, outcome probabilities and bound values",
 T_SMALL + "a backup that is slightly wrong or not monotone still converges within 0.01 on these models.",
 ["src/bounds/PointLowerBound.cc", "src/bounds/PointUpperBound.cc", "src/bounds/BoundPair.cc", "src/bounds/RelaxUBInitializer.cc"],
 [("point lower-bound update", "src/bounds/PointLowerBound.cc"), ("point upper-bound update with and without the per-action cache", "src/bounds/PointUpperBound.cc"), ("combined update", "src/bounds/BoundPair.cc")])

prop("C06", "The max-planes lower bound returns the best applicable plane and only grows",
 "The lower bound reported for a belief is the largest value among the stored alpha vectors that may be applied to that belief, whatever caching or support-list options are on. Pruning never removes a plane unless another stored plane is at least as good wherever the removed one applies, within the stated tolerance.",
 ["inputs", "histories", "configurations"], "all plane sets, beliefs, insertion and pruning histories and option combinations",
 T_SMALL + "they use one option combination and few planes, and the loss of one plane is usually masked by the next backup.",
 ["src/pomdpBounds/MaxPlanesLowerBound.cc", "src/pomdpBounds/MaxPlanesLowerBound.h"],
 [("plane query", "src/pomdpBounds/MaxPlanesLowerBound.cc: getBestLBPlane*"), ("plane backup", "src/pomdpBounds/MaxPlanesLowerBound.cc: getNewLBPlane*"), ("pruning", "src/pomdpBounds/MaxPlanesLowerBound.cc: prunePlanes*")])

prop("C07", "The sawtooth upper bound is the minimum over points and never below a valid cut",
 "The upper bound reported for a belief is the minimum of the corner interpolation and of the sawtooth interpolation through every stored point that applies to that belief; it never exceeds the corner interpolation. Adding a point never raises the bound at any belief, and pruning only drops points that the remaining ones make redundant within the stated tolerance.",
 ["inputs", "histories", "configurations"], "all point sets, beliefs and insertion and pruning histories",
 T_SMALL + "an interpolation that is too high only slows convergence, and one that is too low shows up only on beliefs the tests do not visit.",
 ["src/pomdpBounds/SawtoothUpperBound.cc", "src/pomdpBounds/SawtoothUpperBound.h"],
 [("sawtooth interpolation", "src/pomdpBounds/SawtoothUpperBound.cc: getBVValue, getValue"), ("point insertion and corner update", "src/pomdpBounds/SawtoothUpperBound.cc: addPoint"), ("pruning", "src/pomdpBounds/SawtoothUpperBound.cc: prune")])

prop("C08", "Initial bounds bracket the optimal value",
 "The initial lower bound given to a state or belief never exceeds, and the initial upper bound is never below, the best expected discounted reward achievable from it: trivial model bounds are the long-term factor times the worst or best reward, the blind-policy bound starts from a value no policy can be worse than, and the fully-observable and fast-informed bounds apply the Bellman maximum over all actions.",
 ["inputs"], "all models of each supported type with discount below one or a finite horizon",
 T_SMALL + "a slightly invalid initial bound is overwritten by backups on those models.",
 ["src/mdps/GenericDiscreteMDP.cc", "src/mdps/RaceTrack.cc", "src/mdps/CustomMDP.cc", "src/pomdpBounds/BlindLBInitializer.cc", "src/pomdpBounds/FullObsUBInitializer.cc", "src/pomdpBounds/FastInfUBInitializer.cc"],
 [("trivial bounds", "src/mdps/*.cc"), ("blind policy bound", "src/pomdpBounds/BlindLBInitializer.cc"), ("QMDP and FIB bounds", "src/pomdpBounds/FullObsUBInitializer.cc, FastInfUBInitializer.cc")])

prop("C09", "The solver reports success only when the regret bound is met",
 "A bounded search strategy reports that it is finished only when the gap between the upper and lower bound at the root is within the requested precision or the requested number of backups has been reached; each trial descends to the outcome its selection rule designates, which always has positive probability.",
 ["inputs", "histories"], "all search graphs, bound values, precisions and depths",
 T_SMALL + "a wrong stopping rule that triggers a little early stays inside the accepted tolerance.",
 ["src/search/RTDPCore.cc", "src/search/RTDP.cc", "src/search/FRTDP.cc", "src/search/HSVI.cc"],
 [("termination test", "src/search/*.cc: doTrial"), ("outcome selection", "src/search/HSVI.cc: getMaxExcessUncOutcome, src/search/FRTDP.cc: getMaxPrioOutcome")])

prop("C10", "A state is labelled solved only when its reachable residuals are within precision",
 "The labelling searches mark a state as solved only after every state reachable from it under the greedy policy, without passing through states already solved, was checked to have a residual within the target precision. The work stacks they use report membership exactly for the elements pushed and not yet popped, and pop in reverse order of pushing.",
 ["inputs", "histories"], "all search graphs (cyclic ones included), visiting orders and precisions",
 T_SMALL + "the three-state and racetrack models converge whether or not a label is set one step early.",
 ["src/search/LRTDP.cc", "src/search/HDP.cc", "src/search/RTDPCore.h"],
 [("labelling", "src/search/LRTDP.cc: checkSolved, src/search/HDP.cc"), ("node stack", "src/search/RTDPCore.h: NodeStack")])

prop("C11", "The search graph holds one node per distinct state with exact successor data",
 "Looking up a state returns the node created for that same state if there is one and otherwise creates exactly one new node for it; expanding a node stores for every action the model's reward, and for every outcome of positive probability an edge with the model's probability to the node of the model's successor state, and no edge for outcomes of zero probability.",
 ["inputs", "histories"], "all sequences of lookups and expansions over all models and states",
 T_SMALL + "two states that share a node by mistake are only visible as a bias in the bounds of a larger model.",
 ["src/bounds/BoundPairCore.cc", "src/bounds/BoundPair.cc", "src/bounds/MDPCache.cc", "src/mdps/CacheMDP.cc", "src/common/MatrixUtils.h"],
 [("node lookup", "src/bounds/BoundPairCore.cc: getNode"), ("expansion", "src/bounds/BoundPair.cc: expand"), ("state key", "src/common/MatrixUtils.h: hashable")])

prop("C12", "Simulated outcomes always have positive probability",
 "Whenever an outcome is drawn from a distribution or from a node's outcome list, the index returned is in range and its probability is positive, and the interval of random numbers that selects it is the one given by the cumulative distribution.",
 ["inputs", "schedules"], "all distributions with at least one positive entry (leading and trailing zeros, sums slightly below one) and all random numbers in the unit interval",
 T_SMALL + "the boundary draws that select a zero-probability outcome have negligible probability in a test run.",
 ["src/common/MatrixUtils.h", "src/bounds/BoundPairCore.h", "src/search/RTDP.cc", "src/bounds/MDPCache.cc", "src/exec/MDPExec.cc"],
 [("sampling", "src/common/MatrixUtils.h: chooseFromDistribution, src/bounds/MDPCache.cc: getSimulatedOutcome")])

prop("C13", "Simulation accumulates exactly the discounted reward and stops at terminal states",
 "Running a policy in simulation yields, for every trial, the sum over steps of discount to the power of the step index times the model's reward for the state and action of that step; the trial ends exactly when a terminal state is entered or the step limit is reached, and the success rate is the fraction of trials that reached a terminal state.",
 ["inputs", "histories"], "all models, policies, random draws, trial counts and step limits",
 T_SMALL + "mean rewards are compared with tolerances up to 1.0, which hides an off-by-one in the discount exponent.",
 ["src/common/MDPSim.cc", "src/exec/PolicyEvaluator.cc"],
 [("simulator step", "src/common/MDPSim.cc: performAction"), ("trial loop", "src/exec/PolicyEvaluator.cc: doBatchSimple, doBatchCache")])

prop("C14", "Model-file transition and observation tables hold the last value specified",
 "After a model file is read, each transition and observation probability is the last one the file specifies for that cell, wildcards standing for every index of their position, and zero if none is given; the row-oriented sparse tables hold each cell at most once, in increasing column order.",
 ["inputs"], "all sequences of single, row, matrix, uniform, identity and reset specifications",
 T_SMALL + "they parse a few fixed well-behaved model files that never override an entry.",
 ["src/parsers/sparse-matrix.c", "src/parsers/mdp.c", "src/parsers/pomdp_spec.y"],
 [("row insertion and override", "src/parsers/sparse-matrix.c: addEntryToRow"), ("conversion to compressed form", "src/parsers/sparse-matrix.c: transformIMatrix"), ("wildcard expansion", "src/parsers/pomdp_spec.y: enterMatrix, setMatrixContext")])

prop("C15", "Rewards follow the last matching specification and are averaged correctly",
 "The reward for an action, state, successor and observation is the value of the last reward specification in the file that matches it, wildcards matching every value, and zero if none matches; the reward used for a state and action is its expectation under the transition and observation probabilities.",
 ["inputs", "histories"], "all sequences of reward specifications with wildcards in any position",
 T_SMALL + "the test models specify each reward at most once or twice, in an order that never needs an override.",
 ["src/parsers/decision-tree.c", "src/parsers/imm-reward.c", "src/parsers/mdp.c"],
 [("decision tree", "src/parsers/decision-tree.c: dtAdd, dtGet"), ("reward list", "src/parsers/imm-reward.c"), ("expectation", "src/parsers/mdp.c: computeRewards")])

prop("C16", "Racetrack dynamics: paths, outcome probabilities and successors agree",
 "A racetrack move is a crash or a finish exactly when the first non-open cell its line crosses is closed or a finish cell; the outcome probabilities of every state and action are non-negative and sum to one, and every outcome of positive probability leads to the successor that outcome denotes: the start line, the crash reset, the terminal state, or the position and velocity obtained by integrating the (possibly perturbed) acceleration.",
 ["inputs", "configurations"], "all maps, states, actions, error models and outcomes",
 T_SMALL + "the one racetrack test runs a fixed map with one error model and checks only the root bounds.",
 ["src/mdps/RaceTrack.cc"],
 [("line plotting", "src/mdps/RaceTrack.cc: TrackMap::lineType"), ("outcomes", "src/mdps/RaceTrack.cc: getOutcomeProbVector, getNextState, getReward")])

prop("C17", "Discrete-MDP outcomes, successors and rewards are mutually consistent",
 "For explicit-state and custom MDPs the outcome probability listed at position o is the transition probability to the successor returned for that same outcome, outcomes enumerate exactly the successors of non-zero probability, a cached copy of an MDP answers every query with what the original would answer, and terminal states are absorbing with zero reward.",
 ["inputs"], "all models, states, actions and outcome indices",
 T_SMALL + "one MDP and one custom model are solved, and a permuted outcome list cancels out in their values.",
 ["src/mdps/GenericDiscreteMDP.cc", "src/mdps/CustomMDP.cc", "src/mdps/CacheMDP.cc"],
 [("outcome enumeration", "src/mdps/GenericDiscreteMDP.cc"), ("cached MDP", "src/mdps/CacheMDP.cc"), ("example MDP", "src/mdps/CustomMDP.cc")])

prop("C18", "The executed action is the one with the best backed-up bound",
 "At run time the action chosen for a state is the one whose one-step look-ahead value under the selected bound is largest, among all actions of the model; choosing an action never makes a bound at that state worse.",
 ["inputs", "configurations"], "all models, bounds, states and run-time action-selection settings",
 T_SMALL + "mean reward tolerances accept a policy that is slightly worse than greedy.",
 ["src/bounds/BoundPair.cc", "src/bounds/ValueFunction.cc", "src/pomdpBounds/MaxPlanesLowerBound.cc", "src/exec/BoundPairExec.cc"],
 [("look-ahead", "src/bounds/BoundPair.cc: chooseAction"), ("best-action scans", "src/bounds/PointUpperBound.cc, src/bounds/BoundPairCore.cc: getMaxUBAction")])

prop("C19", "A written policy reads back as the same planes",
 "A policy file written for a set of planes reads back as planes with the same actions and, up to the printed precision, the same entries and masks, in the same order; a policy in the alpha-vector exchange format yields exactly one plane per vector in the file.",
 ["inputs"], "all plane sets with any masks, actions and values, and files with any trailing whitespace",
 T_SMALL + "one policy written by the solver and one hand-written alpha file are read, and only the mean reward is checked.",
 ["src/pomdpBounds/MaxPlanesLowerBound.cc"],
 [("writer and readers", "src/pomdpBounds/MaxPlanesLowerBound.cc: writeToFile, readFromFile, readFromCassandraAlphaFile")])

prop("C20", "Configuration fields: last setting wins and unknown fields are rejected",
 "The value read back for a configuration field is the last one set by the defaults, config file or command line in that order of precedence, converted faithfully to the requested type; a field the defaults do not define is rejected instead of being silently accepted. Enumerated options are accepted exactly when they are listed and map to the listed value.",
 ["inputs", "histories"], "all sequences of settings, option spellings and values",
 T_SMALL + "each uses a few well-formed options once.",
 ["src/common/zmdpConfig.cc", "src/main/solverUtils.cc", "src/main/zmdp.cc"],
 [("field store", "src/common/zmdpConfig.cc: setString, getString"), ("enumerations and defaults", "src/main/solverUtils.cc: getEnum, inferMissingValues")])

prop("C21", "Time and sample statistics are arithmetically exact",
 "Adding and subtracting times gives a normalised time equal to the exact sum or difference; the mean, standard deviation and quantiles reported for a sample are those of the sample, with the lower quantile never above the upper one.",
 ["inputs"], "all normalised times and all non-empty samples",
 T_SMALL + "statistics are printed, and only the mean is compared with a coarse tolerance.",
 ["src/common/zmdpCommonTime.cc", "src/common/MatrixUtils.h"],
 [("time arithmetic", "src/common/zmdpCommonTime.cc"), ("statistics", "src/common/MatrixUtils.h: calc_avg_stdev, calc_bootstrap_mean_quantile")])

prop("C22", "The fast parser and the full parser load the same model",
 "A model file that both parsers accept loads as the same model: the same dimensions, discount, initial belief, transition and observation probabilities, rewards and terminal states.",
 ["inputs"], "all model files within the restricted syntax of the fast parser",
 T_SMALL + "one test compares final bounds of a single model loaded either way.",
 ["src/parsers/FastParser.cc", "src/parsers/CassandraParser.cc"],
 [("line-oriented reader", "src/parsers/FastParser.cc"), ("conversion of the parsed tables", "src/parsers/CassandraParser.cc, src/parsers/sla_cassandra.h")])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
