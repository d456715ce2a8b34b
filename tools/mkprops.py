"""writes properties.jsonl, contracts/obligations.json and MANIFEST.json from the table below"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
Q = "qiskit_optimization/"
P = []


def prop(pid, title, statement, over, text, why, files, mech, obl, rules=()):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  obl=obl, rules=list(rules)))


def O(mode, file, *drivers):
    return {"mode": mode, "file": file, "drivers": list(drivers)}


QP = Q + "problems/quadratic_program.py"
ALG = Q + "algorithms/"
CNV = Q + "converters/"
APP = Q + "applications/"

prop("P01", "Names and positions of variables and constraints always agree",
     "For every sequence of calls that add variables or constraints to a program, remove constraints from it or clear it, "
     "each name handed out or given by the caller maps to the position of the element that carries it, a lookup by name and a "
     "lookup by position return the same element, names are unique within their kind, and generated names never collide. "
     "A call that is rejected (duplicate name, bad bounds, bad coefficients) leaves the registered names unchanged. "
     "The counts of variables by type equal the number of variables of that type in the list.",
     ["histories", "inputs"], "all call histories and all names, including mixes of automatic and explicit names and removals",
     "the number of histories and name mixes is unbounded; tests check a few fixed sequences",
     [QP], [("names to positions", "QuadraticProgram._variables_index / _linear_constraints_index / _quadratic_constraints_index"),
            ("automatic names", "QuadraticProgram._find_name / _add_variable / _add_variables")],
     [O("core", "core", "new_program", "clear_program", "add_continuous", "add_continuous_default", "add_integer",
        "add_integer_default", "add_binary", "add_binary_default", "add_two", "continuous_dict", "continuous_list",
        "integer_dict", "integer_list", "binary_dict", "binary_list", "list_by_count", "list_by_names", "lookup_variable",
        "counts", "count_type", "add_linear_constraint", "add_linear_constraint_default", "add_quadratic_constraint",
        "add_quadratic_constraint_default", "lookup_constraints", "remove_linear_by_index", "remove_linear_by_name",
        "remove_quadratic_by_index", "remove_quadratic_by_name")])

prop("P02", "A variable's bounds and type are what was set, and never inconsistent",
     "Creating a variable or changing its lower or upper bound stores exactly the given numbers, and a change that would put the "
     "lower bound above the upper bound is rejected and leaves the variable as it was. "
     "Variables created through the program get the bounds and type documented for their kind (binary: 0 to 1; others: 0 to infinity unless given).",
     ["inputs", "histories"], "all bound values and all orders of bound changes",
     "the bounds are arbitrary reals set in any order", [Q + "problems/variable.py", QP],
     [("bound setters", "Variable.lowerbound / Variable.upperbound"), ("creation", "QuadraticProgram.*_var")],
     [O("core", "core", "new_variable", "default_variable", "set_lower", "set_upper", "set_both", "set_vartype",
        "add_continuous", "add_continuous_default", "add_integer", "add_integer_default", "add_binary", "add_binary_default",
        "continuous_list", "integer_list", "binary_list", "continuous_dict", "integer_dict", "binary_dict")])

prop("P03", "Expressions denote the polynomial that was put into them",
     "Linear and quadratic expressions built from any accepted representation (array, list, sparse matrix, dictionary keyed by "
     "position or by name) denote the same polynomial as that representation, quadratic coefficients being accumulated once per unordered pair. "
     "Every view (dictionary, array, symmetric or not, by name or by position), item access and assignment, evaluation and gradient agrees with that polynomial. "
     "Objectives and constraints evaluate to the sum of their constant, linear and quadratic parts.",
     ["inputs"], "all coefficient containers, dimensions, keys and evaluation points",
     "coefficients, sizes and key forms are unbounded",
     [Q + "problems/linear_expression.py", Q + "problems/quadratic_expression.py", Q + "problems/quadratic_objective.py",
      Q + "problems/linear_constraint.py", Q + "problems/quadratic_constraint.py"],
     [("storage", "LinearExpression._coeffs_to_dok_matrix, QuadraticExpression._coeffs_to_dok_matrix / _triangle_matrix / _symmetric_matrix"),
      ("evaluation", "evaluate / evaluate_gradient / _cast_as_array")],
     [O("core", "core", "linear_from_any", "linear_from_dict", "linear_views", "linear_get", "linear_set", "linear_set_name",
        "linear_eval", "quadratic_from_any", "quadratic_from_dict", "quadratic_views", "quadratic_get", "quadratic_set",
        "quadratic_set_name", "quadratic_eval", "objective_value", "linear_constraint_value", "quadratic_constraint_value",
        "linear_constraint_fields", "quadratic_constraint_fields")])

prop("P04", "Objective direction and constraint senses are the ones requested",
     "Every documented spelling of a constraint sense selects the matching relation and any other text is rejected. "
     "Asking for minimization or maximization replaces constant, linear and quadratic part of the objective by exactly the given "
     "ones and records the requested direction; later assignments to its parts change only that part.",
     ["inputs", "histories"], "all sense spellings and all objective (re)definitions",
     "objectives are arbitrary and may be redefined at any time",
     [Q + "problems/constraint.py", Q + "problems/quadratic_objective.py", QP],
     [("sense conversion", "ConstraintSense.convert"), ("objective", "QuadraticProgram.minimize / maximize, QuadraticObjective setters")],
     [O("core", "core", "sense_text", "sense_member", "minimize", "maximize", "minimize_default", "objective_setters",
        "add_linear_constraint", "add_quadratic_constraint", "add_linear_constraint_default", "add_quadratic_constraint_default")])

prop("P05", "Importing a DOcplex model or LP file preserves its meaning",
     "The program read from a model has the same variables (name, type, bounds), the same objective (direction, constant, linear and "
     "quadratic coefficients) and the same constraints (left side, sense, right side, name) as the model, with right-hand-side terms moved to the left with the opposite sign. "
     "Whatever was in the program before the import is gone, and unsupported variable or constraint kinds are rejected.",
     ["inputs", "histories"], "all models within the supported language, imported into any program",
     "models are arbitrary; tests import a few", [QP],
     [("import", "QuadraticProgram.from_docplex"), ("LP file", "QuadraticProgram.read_from_lp_file")],
     [O("core", "core", "from_docplex_over", "lp_import")])

prop("P06", "Exporting to DOcplex or LP text preserves the program's meaning",
     "The exported model has the program's name, variables (name, type, bounds), objective (direction, constant and every coefficient) and "
     "constraints (left side, sense, right side, name). The LP text is the text of that model, and exporting does not alter the program.",
     ["inputs"], "all programs", "programs are arbitrary; a round trip on a few examples misses coefficient and sense combinations",
     [QP], [("export", "QuadraticProgram.to_docplex / export_as_lp_string / write_to_lp_file")],
     [O("core", "core", "to_docplex", "lp_export"), O("core", "keepcore", "keep_to_docplex", "keep_lp")])

prop("P07", "The Ising operator has the objective's value on every bit assignment",
     "For every unconstrained binary program, the operator plus the returned offset, evaluated on the basis state of a bit assignment, "
     "equals the objective (negated when maximizing) on that assignment: linear, squared and product terms all contribute with the right "
     "weight on the right qubits. Programs with constraints or non-binary variables are rejected.",
     ["inputs"], "all unconstrained binary programs of every size, including ones with a constant objective",
     "the coefficients and the number of variables are unbounded", [QP],
     [("encoding", "QuadraticProgram.to_ising")], [O("core", "core", "to_ising"), O("core", "keepcore", "keep_to_ising")])

prop("P08", "A program built from an Ising operator has the operator's energies",
     "The binary program created from a diagonal operator and an offset has one variable per qubit and a minimization objective whose value on "
     "every bit assignment equals the operator's energy plus the offset, with repeated and identity terms accounted for. "
     "Operators outside the supported form (non-diagonal, complex weight, more than two qubits per term) are rejected, and previous contents are discarded.",
     ["inputs", "histories"], "all operators, offsets and treatments of squared terms, into any program",
     "operators are arbitrary sums of Pauli terms", [QP], [("decoding", "QuadraticProgram.from_ising")],
     [O("core", "core", "from_ising", "from_ising_over")])

prop("P09", "Substituting variables yields the program restricted to the substitution",
     "Replacing variables by constants or by multiples of other variables gives a program over the remaining variables whose objective and "
     "constraints equal the original ones under the replacement, with bounds tightened to those implied by the replaced variables. "
     "A constant outside its variable's bounds, contradictory implied bounds or a constant constraint that fails make the outcome infeasible; "
     "unknown, repeated or chained replacements are rejected. The original program is left alone.",
     ["inputs"], "all programs and all replacement maps",
     "replacement maps and coefficients are unbounded", [Q + "problems/substitute_variables.py", QP],
     [("substitution", "SubstituteVariables / QuadraticProgram.substitute_variables")],
     [O("core", "core", "substitute", "substitute_constants", "substitute_pairs"),
      O("core", "keepcore", "keep_substitute", "keep_substitute_pair")])

prop("P10", "Feasibility reports exactly the violated bounds and constraints",
     "For every point, the violated variables reported are exactly those whose value lies outside the bounds and the violated constraints "
     "exactly those whose relation fails at that point; the point is called feasible if and only if both lists are empty. "
     "A point of the wrong length is rejected.",
     ["inputs"], "all programs and points", "points and constraints are arbitrary reals", [QP],
     [("feasibility", "QuadraticProgram.get_feasibility_info / is_feasible")],
     [O("core", "core", "feasibility", "feasible"), O("core", "keepcore", "keep_feasible")])

prop("P11", "Slack conversion keeps the feasible set and objective",
     "Turning inequalities into equalities adds one slack per inequality whose range is exactly what the left side can reach, with the sign that makes "
     "the equality equivalent to the inequality, and copies all other variables, constraints and the objective unchanged. "
     "The slack kind follows the requested mode (integer slacks only where the coefficients allow it, otherwise an error), and interpreting a solution returns the original variables' values in their order.",
     ["inputs", "configurations"], "all programs, all modes and all solution vectors",
     "bounds, coefficients and sense patterns are unbounded", [CNV + "inequality_to_equality.py"],
     [("conversion", "InequalityToEquality.convert"), ("back", "InequalityToEquality.interpret")],
     [O("client", "converters", "ineq_to_eq", "ineq_default", "ineq_mode_setter", "ineq_twice")])

prop("P12", "Binary encoding of integers covers exactly the integer range",
     "Every integer variable is replaced by binaries whose weighted sum plus the lower bound ranges over exactly the values from lower to upper bound, "
     "and objective and constraints are rewritten to agree with the original on every assignment. "
     "Interpreting a binary solution returns the integers it encodes and leaves other variables untouched, in the original order.",
     ["inputs"], "all programs with integer variables and all solution vectors",
     "bounds and coefficients are unbounded", [CNV + "integer_to_binary.py"],
     [("encoding", "IntegerToBinary.convert"), ("back", "IntegerToBinary.interpret")],
     [O("client", "converters", "int_to_bin", "int_to_bin_twice")])

prop("P13", "Penalties equal weight times squared violation, worsening the objective",
     "Turning linear equalities into penalties adds, for each equality, the penalty weight times the square of its violation, subtracted when "
     "maximizing, keeps variables and everything else, and drops exactly the equalities; inequalities are rejected. "
     "Without a given weight it uses one plus the largest possible spread of the objective when all coefficients are integral, and a documented default otherwise; a given weight is used as is.",
     ["inputs", "configurations"], "all programs with linear equalities and all weights",
     "coefficients, bounds and weights are unbounded", [CNV + "linear_equality_to_penalty.py"],
     [("penalty terms", "LinearEqualityToPenalty.convert"), ("weight", "LinearEqualityToPenalty._auto_define_penalty")],
     [O("client", "converters", "penalty_auto", "penalty_given", "penalty_setter", "penalty_twice")])

prop("P14", "The QUBO conversion chains its steps and undoes them in reverse",
     "Conversion to a QUBO applies slack introduction with integer slacks, binary encoding and penalties, in that order, with the caller's penalty weight, and interpretation undoes "
     "them in the opposite order. Problems with continuous variables, quadratic constraints or non-integral constraint coefficients are reported as incompatible and refused.",
     ["inputs", "configurations"], "all programs and penalty settings",
     "depends on every program's structure and coefficients", [CNV + "quadratic_program_to_qubo.py"],
     [("pipeline", "QuadraticProgramToQubo.convert / interpret / get_compatibility_msg")],
     [O("pipe", "qubo", "qubo_convert", "qubo_penalty", "qubo_interpret", "qubo_setter", "qubo_msg")])

prop("P16", "Converting, solving or interpreting never alters the caller's data",
     "Converters, optimizers, application models and exports leave the problem, graph, lists and solution vectors handed in by the caller exactly as they were.",
     ["inputs", "histories"], "all inputs and all operations that take a caller's object",
     "mutation shows only for particular inputs (maximization, certain variable kinds) and only if somebody looks",
     [CNV, ALG, APP, QP], [("private copies", "deepcopy before modification in Grover, recursive, warm-start and ADMM optimizers"),
                           ("fresh programs", "converters build a new program")],
     [O("algo", "keep", "keep_ineq", "keep_penalty", "keep_cobyla", "keep_slsqp", "keep_min_eigen", "keep_recursive",
        "keep_grover", "keep_warm", "keep_mean", "keep_gw", "keep_admm", "keep_maxcut", "keep_partition", "keep_stable",
        "keep_cover", "keep_clique", "keep_tsp", "keep_vrp", "keep_sets", "keep_numbers"),
      O("core", "keepcore", "keep_to_docplex", "keep_to_ising", "keep_substitute", "keep_substitute_pair", "keep_feasible", "keep_lp"),
      O("client", "keepint", "keep_int_to_bin")])

prop("P17", "A result's parts describe one and the same solution of the original problem",
     "In every result, the values, the objective value, the mapping from names to values and the feasibility status refer to the same point of the original problem: "
     "the point is mapped back through the converters in reverse order, its objective value and status are computed on the original problem, and a vector of the wrong length is rejected. "
     "Access by position and by name return the value of that variable.",
     ["inputs", "configurations"], "all problems, converter chains and solver outputs",
     "solver outputs and converter chains are arbitrary", [ALG + "optimization_algorithm.py"],
     [("result", "OptimizationResult"), ("mapping back", "OptimizationAlgorithm._interpret / _get_feasibility_status")],
     [O("client", "algos", "result", "result_default", "result_none", "result_getitem_int", "result_getitem_str", "result_getitem_bad",
        "result_repr", "result_min_eigen", "result_recursive", "result_grover", "result_slsqp", "result_gw", "result_admm",
        "feas_status", "prepare_none", "prepare_one", "prepare_list", "prepare_bad", "interpret_two", "interpret_one",
        "interpret_zero", "interpret_bad_class", "interpret_bad_conv"),
      O("algo", "solvers", "min_eigen_solve", "min_eigen_conv2", "min_eigen_noconv", "cplex_solve", "cplex_disp")])

prop("P18", "Samples are distinct solutions with summed probabilities, best first",
     "Samples derived from a solver's state list each distinct original solution once with the total probability of all raw samples that map to it, "
     "with the objective value and status of that solution, feasible ones first and then from best to worst for the problem's direction. "
     "Raw samples read each bit string in qubit order with the probability of its amplitude and drop only negligible ones; correlations between variables are the probability-weighted agreement of their values.",
     ["inputs"], "all states, problems and converter chains", "states are arbitrary vectors or dictionaries",
     [ALG + "optimization_algorithm.py", ALG + "minimum_eigen_optimizer.py"],
     [("samples", "OptimizationAlgorithm._interpret_samples / _eigenvector_to_solutions"), ("correlations", "OptimizationResult.get_correlations")],
     [O("client", "algos", "interpret_samples", "interpret_samples_conv", "eigen_dict", "eigen_array", "eigen_any", "result_correlations", "result"),
      O("algo", "solvers", "min_eigen_solve", "min_eigen_penalty", "min_eigen_conv", "min_eigen_noconv", "min_eigen_setter")])

prop("P19", "Each optimizer accepts exactly the problems it supports and refuses the rest",
     "An optimizer's compatibility answer is positive exactly for the problem classes it documents (continuous-only for the local solvers, "
     "problems convertible to QUBO for the quantum ones, binary-only for randomized rounding, separable objectives for the splitting method), and the message is empty exactly then. "
     "Solving an incompatible problem raises an error before anything else is done.",
     ["inputs"], "all problems and optimizers", "problem structures are unbounded",
     [ALG], [("compatibility", "get_compatibility_msg / is_compatible / _verify_compatibility")],
     [O("client", "algos", "compat_cobyla", "compat_slsqp", "compat_min_eigen", "compat_recursive", "compat_grover", "compat_gw",
        "compat_admm", "compat_warm", "compat_cplex"), O("pipe", "qubo", "qubo_msg"),
      O("algo", "keep", "keep_cobyla", "keep_slsqp", "keep_min_eigen", "keep_recursive", "keep_gw")])

prop("P20", "Local solvers are handed the user's problem, correctly signed",
     "The continuous local solvers minimize the objective (negated when maximizing) with its true gradient, under constraints that are non-negative or zero exactly on the feasible set: "
     "every finite bound, every inequality and every equality of the problem, linear and quadratic, and no other. The caller's solver settings are passed through unchanged.",
     ["inputs", "configurations"], "all continuous problems and settings", "problems and settings are arbitrary",
     [ALG + "slsqp_optimizer.py", ALG + "cobyla_optimizer.py"],
     [("formulation", "CobylaOptimizer.solve / SlsqpOptimizer.solve")],
     [O("algo", "solvers", "cobyla_solve", "cobyla_trials", "slsqp_solve", "slsqp_full", "slsqp_params")])

prop("P21", "Multi-start returns the best trial",
     "Over any number of trials the returned point is one the solver produced, no other trial has a better objective value in the problem's direction, and the reported value, status and raw output belong to that same trial. "
     "The first trial starts at the origin and later ones inside the variable bounds, infinite bounds being clipped.",
     ["inputs", "histories"], "all sequences of trial outcomes", "trial outcomes are arbitrary and their number is unbounded",
     [ALG + "multistart_optimizer.py"], [("selection", "MultiStartOptimizer.multi_start_solve")],
     [O("algo", "solvers", "cobyla_solve", "cobyla_trials", "slsqp_solve", "slsqp_full", "slsqp_params", "multistart_settings")])

prop("P22", "Recursive elimination keeps the solution consistent with every replacement",
     "Each elimination step replaces the variable of the strongest correlation by its partner, equal when positively and complementary when negatively correlated, with the objective rewritten accordingly, until the configured size is reached. "
     "The final values of all variables satisfy every recorded replacement and the base solver's solution, and the history holds what the caller asked for.",
     ["inputs", "histories"], "all problems, correlation patterns and step counts", "correlations and the number of steps are unbounded",
     [ALG + "recursive_minimum_eigen_optimizer.py"], [("elimination", "RecursiveMinimumEigenOptimizer.solve / _find_strongest_correlation")],
     [O("algo", "solvers", "recursive_solve", "recursive_none", "recursive_default", "recursive_strongest"),
      O("client", "algos", "result_correlations", "result_recursive")])

prop("P23", "Grover search keeps the best measured value and reports it consistently",
     "The search lowers its threshold only to a strictly better measured value, reads keys, values and signs from the right bits of the outcome, stops only after the configured number of rounds without improvement or exhaustion, and works on the problem with the sign flipped for maximization. "
     "Reported samples and solution come from measured states, with normalised probabilities, and are mapped back to the original problem.",
     ["inputs", "histories"], "all problems and measurement histories", "measurement outcomes are random histories",
     [ALG + "grover_optimizer.py"], [("search", "GroverOptimizer.solve / _measure / _get_probs / _bin_to_int")],
     [O("algo", "solvers", "grover_counts", "grover_state", "grover_conv", "grover_noinstance", "grover_setter", "grover_measure",
        "grover_probs", "grover_bin"), O("client", "algos", "result_grover")])

prop("P24", "The splitting solver's bookkeeping matches its problem and iterates",
     "Every sub-problem is built from the right variables, coefficients, multipliers and penalty of the current iteration; residuals, merit and objective values are computed from the current iterates and all constraints; and the penalty is updated by the documented rule. "
     "The recorded histories line up per iteration, and the returned solution is the iterate of the smallest merit, with values at their variables' positions and the direction restored.",
     ["inputs", "histories", "configurations"], "all mixed-binary problems, parameters and iteration histories",
     "iterates and parameters are arbitrary and iteration counts unbounded",
     [ALG + "admm_optimizer.py"], [("iteration", "ADMMOptimizer.solve and its step, residual and update methods"), ("state", "ADMMState / ADMMParameters")],
     [O("algo", "solvers", "admm_params_default", "admm_params", "admm_params_old", "admm_state", "admm_setter", "admm_one", "admm_solve",
        "admm_min", "admm_indices", "admm_convert", "admm_step1_idx", "admm_q", "admm_a0b0", "admm_step1", "admm_step2", "admm_step3",
        "admm_x0", "admm_x1", "admm_y", "admm_best", "admm_lambda", "admm_rho", "admm_cres", "admm_merit", "admm_obj", "admm_res", "admm_warm"),
      O("client", "algos", "result_admm", "compat_admm")])

prop("P25", "Warm start uses the relaxed solution and aggregates runs fairly",
     "Initial values are the pre-solver's values clipped to the allowed margin, and state preparation and mixer rotate each qubit by the angle of its own value. "
     "The number of starts never exceeds the requested or available solutions, a failed pre-solve is an error, the relaxation changes only variable types on a copy, "
     "and combined samples average the probabilities of equal solutions over the runs with the best feasible one returned.",
     ["inputs", "configurations"], "all problems, margins, pre-solver outcomes and numbers of starts", "pre-solver outcomes are arbitrary",
     [ALG + "warm_start_qaoa_optimizer.py"], [("warm start", "WarmStartQAOAOptimizer / WarmStartQAOAFactory / MeanAggregator")],
     [O("algo", "solvers", "warm_mean", "warm_factory", "warm_state", "warm_mixer", "warm_solve", "warm_solve_many", "warm_relax")])

prop("P26", "Randomized rounding reports cuts with their true weight, best first",
     "Every reported cut's value is the total weight of the edges it separates in the graph described by the problem, cuts are ordered from best to worst when requested, complementary cuts are reported once when uniqueness is requested, and their probabilities are equal and sum to one. "
     "A failing semidefinite solver leads to a failure status without a solution.",
     ["inputs", "configurations"], "all graphs and option combinations", "graphs and random cuts are arbitrary",
     [ALG + "goemans_williamson_optimizer.py"], [("rounding", "GoemansWilliamsonOptimizer.solve / max_cut_value / _get_unique_cuts")],
     [O("algo", "solvers", "gw_solve", "gw_default", "gw_cut_value", "gw_unique", "gw_cuts", "gw_sdp", "gw_adjacency"),
      O("client", "algos", "result_gw")])

prop("P27", "Graph applications build the model of their stated problem",
     "For every graph, the programs for maximum cut, graph partition, stable set, vertex cover and clique have one binary variable per node, an objective that counts what the problem "
     "optimises (cut weight, cut edges, chosen nodes) in the right direction, and constraints that admit exactly the valid selections. Changing the requested clique size changes the next model accordingly.",
     ["inputs"], "all graphs, weighted and unweighted", "graphs are unbounded",
     [APP + "max_cut.py", APP + "graph_partition.py", APP + "stable_set.py", APP + "vertex_cover.py", APP + "clique.py"],
     [("models", "to_quadratic_program of the graph applications")],
     [O("client", "apps", "graphpartition_model", "maxcut_model", "stableset_model", "vertexcover_model", "clique_model",
        "clique_model_nosize", "clique_resized", "model_twice")])

prop("P28", "Set, number and knapsack applications build the model of their stated problem",
     "For every family of subsets, list of numbers or knapsack instance, the program has one binary variable per item, the objective of the stated problem in the right direction, and constraints "
     "that hold exactly for exact covers, disjoint selections, equal halves or selections within capacity.",
     ["inputs"], "all instances", "instances are unbounded",
     [APP + "exact_cover.py", APP + "set_packing.py", APP + "number_partition.py", APP + "knapsack.py"],
     [("models", "to_quadratic_program of the set and number applications")],
     [O("client", "apps", "exactcover_model", "setpacking_model", "knapsack_model", "knapsack_changed", "numberpartition_model")])

prop("P29", "Routing applications build the model of their stated problem",
     "For every weighted graph, the travelling-salesman program charges each leg of the tour its edge weight and forces exactly one city per step and one step per city; "
     "the vehicle-routing program charges each used edge its weight, forces one arrival and one departure per customer, the given number of vehicles at the depot, and excludes sub-tours.",
     ["inputs"], "all weighted graphs, depots and vehicle counts", "graphs are unbounded",
     [APP + "tsp.py", APP + "vehicle_routing.py"], [("models", "Tsp.to_quadratic_program / VehicleRouting.to_quadratic_program")],
     [O("client", "apps", "tsp_model", "vrp_model", "vrp_default", "vrp_changed")])

prop("P30", "Applications translate a solution vector into the objects it selects",
     "Interpreting a solution returns exactly the nodes, subsets, items, node order or vehicle routes that the vector encodes, in the documented form, whether given as a vector or as an optimization result. "
     "The most likely sample taken from a state or from counts is the one with the largest probability, in variable order.",
     ["inputs"], "all instances and solution vectors", "solution vectors are arbitrary",
     [APP], [("interpretation", "interpret of each application"), ("sampling", "OptimizationApplication.sample_most_likely")],
     [O("client", "apps", "graphpartition_interpret", "graphpartition_interpret_result", "maxcut_interpret", "maxcut_interpret_result",
        "stableset_interpret", "stableset_interpret_result", "vertexcover_interpret", "vertexcover_interpret_result", "tsp_interpret",
        "tsp_interpret_result", "clique_interpret", "exactcover_interpret", "setpacking_interpret", "knapsack_interpret",
        "knapsack_interpret_result", "numberpartition_interpret", "vrp_interpret", "most_likely_any", "most_likely_dict", "most_likely_vector")])

prop("P31", "Instance files and generators give the instance they describe",
     "Reading an instance or solution file yields the graph, coordinates, distances, capacity or partition written in it, and file content outside the supported format is rejected. "
     "Generated instances have the requested size and ranges and depend on the seed given; tour length is the sum of the distances of consecutive stops including the return.",
     ["inputs"], "all files in the supported formats and all generator arguments", "file contents are arbitrary",
     [APP + "tsp.py", APP + "max_cut.py", APP + "vehicle_routing.py"],
     [("parsers", "Tsp.parse_tsplib_format / Maxcut.parse_gset_format"), ("generators", "create_random_instance")],
     [O("client", "apps", "vrp_random", "vrp_random_default", "tsp_random", "tsp_random_default", "tsp_parse", "tsp_length", "random_graph",
        "random_graph_default", "gset_parse", "gset_result")])

prop("P33", "Reused objects carry nothing over from an earlier use",
     "Converting a second problem with the same converter, building a model again from the same application, or re-reading a program gives exactly what a fresh object would give; nothing of the earlier problem shows in the later result or its interpretation.",
     ["histories", "inputs"], "all pairs of successive uses", "stale state shows only for particular successions of inputs",
     [CNV, APP, QP], [("per-use state", "converter attributes reset in convert; program cleared on import")],
     [O("client", "converters", "penalty_twice", "int_to_bin_twice", "ineq_twice"),
      O("client", "apps", "model_twice", "clique_resized", "knapsack_changed", "vrp_changed"),
      O("core", "core", "from_docplex_over", "from_ising_over", "clear_program")])

NA = [
    ("P90", "Returned solutions are optimal or close to optimal",
     "The quality of the point returned by an optimizer (distance to the optimum, approximation ratio) meets the expectation for its method.",
     ["inputs"], "all problems", "quality depends on numerical behaviour", [ALG], [("solvers", "external numerical and quantum solvers")],
     "depends on the numerical behaviour and random choices of external solvers (scipy, cvxpy, quantum back ends); no static argument in reach bounds it"),
    ("P91", "Iterative solvers finish within their time and iteration limits",
     "Iterative solvers stop within the configured limits of iterations and wall-clock time.",
     ["inputs", "schedules"], "all problems and machines", "time is a runtime quantity", [ALG], [("limits", "ADMM and Grover loops")],
     "wall-clock time and the number of rounds of a randomised search are runtime quantities that cannot be bounded from the source"),
    ("P92", "Random instances and cuts follow their intended distributions",
     "Generated instances, starting points and random cuts follow the distributions the documentation promises.",
     ["inputs"], "all seeds", "a statistical property", [APP, ALG], [("generators", "random instances, multi-start, rounding")],
     "a statistical property of external random generators; only the arguments passed to them are decidable statically (P21, P26, P31)"),
]


# private helpers, and the public operations that together use everything the helper does: a helper
# that differs while all of these are proved equal has been reorganised, not broken
ADMM = [("algo", "solvers", "admm_solve")]
GW = [("algo", "solvers", "gw_solve"), ("algo", "solvers", "gw_default")]
GROVER = [("algo", "solvers", "grover_counts"), ("algo", "solvers", "grover_state"), ("algo", "solvers", "grover_conv")]
MINEIG = [("algo", "solvers", d) for d in ("min_eigen_solve", "min_eigen_conv", "min_eigen_conv2", "min_eigen_noconv")]
COVER = {}
for _d in ("min indices convert step1_idx q a0b0 step1 step2 step3 x0 x1 y best lambda rho cres merit obj res warm").split():
    COVER["solvers.admm_" + _d] = ADMM
for _d in "unique cuts sdp adjacency".split():
    COVER["solvers.gw_" + _d] = GW
for _d in "measure probs bin".split():
    COVER["solvers.grover_" + _d] = GROVER
COVER["solvers.warm_relax"] = [("algo", "solvers", "warm_solve_many")]
COVER["solvers.recursive_strongest"] = [("algo", "solvers", "recursive_solve"), ("algo", "solvers", "recursive_default")]
for _d in ("feas_status", "prepare_none", "prepare_one", "prepare_list", "interpret_two", "interpret_one", "interpret_zero",
           "interpret_samples", "interpret_samples_conv", "eigen_dict", "eigen_array", "eigen_any"):
    COVER["algos." + _d] = MINEIG


def rec(p):
    return {"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(rec(p)) + "\n")
        for n in NA:
            f.write(json.dumps(rec(dict(zip(("id", "title", "statement", "over", "text", "why", "files", "mech"), n[:8])))) + "\n")
    with open(os.path.join(V, "contracts", "obligations.json"), "w") as f:
        json.dump(dict({p["id"]: {"obligations": p["obl"], "rules": p["rules"]} for p in P}, cover=COVER), f, indent=1)
        f.write("\n")
    man = {"version": 1, "setup_cmd": "python3 -m compileall -q vg", "checks": [
        {"property": p["id"], "quick_cmd": "python3 -m vg.check --property %s --tier quick" % p["id"],
         "thorough_cmd": "python3 -m vg.check --property %s --tier thorough" % p["id"],
         "technique": "static value-graph normalisation (abstract evaluation to gated-SSA terms, loops summarised) of the source, compared with the property's reference contract",
         "level": "translation_validation",
         "level_note": "holds for every input when the normal forms coincide; see DESIGN.md for what the analysis does not look into"}
        for p in P],
        "not_applicable": [{"property": n[0], "reason": n[8]} for n in NA]}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
