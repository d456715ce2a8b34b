C="algorithms/cobyla_optimizer.py"
S="algorithms/slsqp_optimizer.py"
W="algorithms/warm_start_qaoa_optimizer.py"
R="algorithms/recursive_minimum_eigen_optimizer.py"
GW="algorithms/goemans_williamson_optimizer.py"
V=[
("cob_bounds_lambda", C, [("""            if lowerbound > -INFINITY:

                def lb_constraint(x, l_b=lowerbound, j=i):
                    return x[j] - l_b

                constraints += [lb_constraint]
            if upperbound < INFINITY:

                def ub_constraint(x, u_b=upperbound, j=i):
                    return u_b - x[j]

                constraints += [ub_constraint]
""","""            if lowerbound > -INFINITY:
                constraints.append(lambda x, l_b=lowerbound, j=i: x[j] - l_b)
            if upperbound < INFINITY:
                constraints.append(lambda x, u_b=upperbound, j=i: u_b - x[j])
""")]),
("cob_factory", C, [("""            rhs = constraint.rhs
            sense = constraint.sense

            if sense == Constraint.Sense.EQ:
                constraints += [
                    lambda x, rhs=rhs, c=constraint: rhs - c.evaluate(x),
                    lambda x, rhs=rhs, c=constraint: c.evaluate(x) - rhs,
                ]
            elif sense == Constraint.Sense.LE:
                constraints += [lambda x, rhs=rhs, c=constraint: rhs - c.evaluate(x)]
            elif sense == Constraint.Sense.GE:
                constraints += [lambda x, rhs=rhs, c=constraint: c.evaluate(x) - rhs]
            else:
                raise QiskitOptimizationError("Unsupported constraint type!")
""","""            if constraint.sense not in (Constraint.Sense.EQ, Constraint.Sense.LE, Constraint.Sense.GE):
                raise QiskitOptimizationError("Unsupported constraint type!")
            if constraint.sense != Constraint.Sense.GE:
                constraints.append(_slack(constraint))
            if constraint.sense != Constraint.Sense.LE:
                constraints.append(_surplus(constraint))
"""),("""        # initialize constraints list
""","""        def _slack(con):
            return lambda x: con.rhs - con.evaluate(x)

        def _surplus(con):
            return lambda x: con.evaluate(x) - con.rhs

        # initialize constraints list
""")]),
("cob_helper_method", C, [("""            rhs = constraint.rhs
            sense = constraint.sense

            if sense == Constraint.Sense.EQ:
                constraints += [
                    lambda x, rhs=rhs, c=constraint: rhs - c.evaluate(x),
                    lambda x, rhs=rhs, c=constraint: c.evaluate(x) - rhs,
                ]
            elif sense == Constraint.Sense.LE:
                constraints += [lambda x, rhs=rhs, c=constraint: rhs - c.evaluate(x)]
            elif sense == Constraint.Sense.GE:
                constraints += [lambda x, rhs=rhs, c=constraint: c.evaluate(x) - rhs]
            else:
                raise QiskitOptimizationError("Unsupported constraint type!")
""","""            constraints.extend(self._constraint_functions(constraint))
"""),("""    def solve(self""","""    @staticmethod
    def _constraint_functions(constraint):
        rhs = constraint.rhs

        def less(x):
            return rhs - constraint.evaluate(x)

        def greater(x):
            return constraint.evaluate(x) - rhs

        if constraint.sense == Constraint.Sense.EQ:
            return [less, greater]
        if constraint.sense == Constraint.Sense.LE:
            return [less]
        if constraint.sense == Constraint.Sense.GE:
            return [greater]
        raise QiskitOptimizationError("Unsupported constraint type!")

    def solve(self""")]),
("sl_bounds_comp", S, [("""        for variable in problem.variables:
            lowerbound = variable.lowerbound
            upperbound = variable.upperbound
            slsqp_bounds.append((lowerbound, upperbound))
""","""        slsqp_bounds = [(variable.lowerbound, variable.upperbound) for variable in problem.variables]
"""),("""        def _objective(x):
            return problem.objective.sense.value * problem.objective.evaluate(x)

        def _objective_gradient(x):
            return problem.objective.sense.value * problem.objective.evaluate_gradient(x)
""","""        sign = problem.objective.sense.value

        def _objective(x):
            return sign * problem.objective.evaluate(x)

        def _objective_gradient(x):
            return sign * problem.objective.evaluate_gradient(x)
"""),("""            if self._full_output:
                x, *rest = output
            else:
                x, rest = output, None
            return np.asarray(x), rest
""","""            if not self._full_output:
                return np.asarray(output), None
            return np.asarray(output[0]), list(output[1:])
""")]),
("sl_result_kwargs", S, [("""                fx=result.raw_results[0],
                its=result.raw_results[1],
                imode=result.raw_results[2],
                smode=result.raw_results[3],
""","""                fx=fx,
                its=its,
                imode=imode,
                smode=smode,
"""),("""        if self._full_output:
            return SlsqpOptimizationResult(""","""        if self._full_output:
            fx, its, imode, smode = result.raw_results[:4]
            return SlsqpOptimizationResult(""")]),
("ws_agg_default", W, [("""                if state in dict_samples:
                    dict_samples[state] = (fval, dict_samples[state][1] + prob, sample.status)
                else:
                    dict_samples[state] = (fval, prob, sample.status)
""","""                previous = dict_samples[state][1] if state in dict_samples else 0.0
                dict_samples[state] = (fval, previous + prob, sample.status)
"""),("""        aggregated_samples = []
        num_results = len(results)
        for state in dict_samples:
            # sample = (state, dict_samples[state][0], dict_samples[state][1] / num_results)
            sample = SolutionSample(
                x=np.array(state),
                fval=dict_samples[state][0],
                probability=dict_samples[state][1] / num_results,
                status=dict_samples[state][2],
            )
            aggregated_samples.append(sample)

        return aggregated_samples
""","""        num_results = len(results)
        return [
            SolutionSample(np.array(state), fval, prob / num_results, status)
            for state, (fval, prob, status) in dict_samples.items()
        ]
""")]),
("ws_agg_get", W, [("""                if state in dict_samples:
                    dict_samples[state] = (fval, dict_samples[state][1] + prob, sample.status)
                else:
                    dict_samples[state] = (fval, prob, sample.status)
""","""                entry = dict_samples.get(state)
                if entry is not None:
                    prob += entry[1]
                dict_samples[state] = (fval, prob, sample.status)
""")]),
("ws_clip", W, [("""            if variable < self._epsilon:
                initial_variables.append(self._epsilon)
            elif variable > 1.0 - self._epsilon:
                initial_variables.append(1.0 - self._epsilon)
            else:
                initial_variables.append(variable)

        return initial_variables
""","""            if variable < lower:
                variable = lower
            elif variable > upper:
                variable = upper
            initial_variables.append(variable)

        return initial_variables
"""),("""        initial_variables = []

        for variable""","""        initial_variables = []
        lower, upper = self._epsilon, 1.0 - self._epsilon
        for variable""")]),
("ws_clip_minmax", W, [("""        initial_variables = []

        for variable in solution:
            if variable < self._epsilon:
                initial_variables.append(self._epsilon)
            elif variable > 1.0 - self._epsilon:
                initial_variables.append(1.0 - self._epsilon)
            else:
                initial_variables.append(variable)

        return initial_variables
""","""        return [min(max(value, self._epsilon), 1.0 - self._epsilon) for value in solution]
""")]),
("ws_theta_helper", W, [("""        for index, relaxed_value in enumerate(initial_variables):
            theta = 2 * np.arcsin(np.sqrt(relaxed_value))
            circuit.ry(theta, index)
""","""        for index, theta in enumerate(self._angles(initial_variables)):
            circuit.ry(theta, index)
"""),("""        for index, relaxed_value in enumerate(initial_variables):
            theta = 2 * np.arcsin(np.sqrt(relaxed_value))

            circuit""","""        for index, theta in enumerate(self._angles(initial_variables)):
            circuit"""),("""    def create_mixer(""","""    @staticmethod
    def _angles(values):
        return [2 * np.arcsin(np.sqrt(value)) for value in values]

    def create_mixer(""")]),
("ws_solve_guard", W, [("""        if len(results) == 1:
            # there's no need to call _interpret, it is already done by MinimumEigenOptimizer
            return results[0]
        else:
            samples = self._aggregator.aggregate(results)
            samples.sort(
                key=lambda sample: (
                    sample.status.value,
                    converted_problem.objective.sense.value * sample.fval,
                )
            )
""","""        if len(results) == 1:
            # there's no need to call _interpret, it is already done by MinimumEigenOptimizer
            return results[0]
        if True:
            sense = converted_problem.objective.sense.value
            samples = sorted(
                self._aggregator.aggregate(results),
                key=lambda s: (s.status.value, sense * s.fval),
            )
"""),("""        num_pre_solutions = min(self._num_initial_solutions, len(opt_result.samples))
        pre_solutions = opt_result.samples[:num_pre_solutions]
""","""        pre_solutions = opt_result.samples[: self._num_initial_solutions]
"""),("""        message = self.get_compatibility_msg(problem)
        if len(message) > 0:
            raise QiskitOptimizationError(f"Incompatible problem: {message}")
""","""        self._verify_compatibility(problem)
""")]),
("rec_flip_helper", R, [("""                # 1a. get additional offset
                constant = problem_.objective.constant
                constant += problem_.objective.linear[i]
                constant += problem_.objective.quadratic[i, i]
                problem_.objective.constant = constant

                # 1b. get additional linear part
                for k in range(problem_.get_num_vars()):
                    coeff = problem_.objective.linear[k]
                    if k == i:
                        coeff += 2 * problem_.objective.quadratic[i, k]
                    else:
                        coeff += problem_.objective.quadratic[i, k]

                    # set new coefficient if not too small
                    if np.abs(coeff) > 1e-10:
                        problem_.objective.linear[k] = coeff
                    else:
                        problem_.objective.linear[k] = 0
""","""                self._shift(problem_, i)
"""),("""    @staticmethod
    def _find_strongest_correlation(""","""    @staticmethod
    def _shift(problem, i):
        objective = problem.objective
        objective.constant = (
            objective.constant + objective.linear[i] + objective.quadratic[i, i]
        )
        for k in range(problem.get_num_vars()):
            factor = 2 if k == i else 1
            coeff = objective.linear[k] + factor * objective.quadratic[i, k]
            objective.linear[k] = coeff if np.abs(coeff) > 1e-10 else 0

    @staticmethod
    def _find_strongest_correlation(""")]),
("rec_sign", R, [("""            if correlations[i, j] > 0:
                # set x_i = x_j
                problem_ = problem_.substitute_variables(variables={i: (j, 1)})
                if problem_.status == QuadraticProgram.Status.INFEASIBLE:
                    raise QiskitOptimizationError("Infeasible due to variable substitution")
                replacements[x_i] = (x_j, 1)
            else:
""","""            sign = 1 if correlations[i, j] > 0 else -1
            if sign < 0:
"""),("""                # 2. replace x_i by -x_j
                problem_ = problem_.substitute_variables(variables={i: (j, -1)})
                if problem_.status == QuadraticProgram.Status.INFEASIBLE:
                    raise QiskitOptimizationError("Infeasible due to variable substitution")
                replacements[x_i] = (x_j, -1)
""","""            # 2. replace x_i by +-x_j
            problem_ = problem_.substitute_variables(variables={i: (j, sign)})
            if problem_.status == QuadraticProgram.Status.INFEASIBLE:
                raise QiskitOptimizationError("Infeasible due to variable substitution")
            replacements[x_i] = (x_j, sign)
""")]),
("rec_strongest", R, [("""        for i in range(len(correlations)):
            abs_correlations[i, i] = -1

        # get index of maximum (by construction on off-diagonal)
        m_max = np.argmax(abs_correlations.flatten())

        # translate back to indices
        i = int(m_max // len(correlations))
        j = int(m_max - i * len(correlations))
        return (i, j)
""","""        size = len(correlations)
        for k in range(size):
            abs_correlations[k, k] = -1

        # get index of maximum (by construction on off-diagonal)
        m_max = int(np.argmax(abs_correlations.flatten()))
        row = m_max // size
        return row, m_max - row * size
"""),("""        var_values = {}
        for i, x in enumerate(problem_.variables):
            var_values[x.name] = result.x[i]
""","""        var_values = {x.name: val for x, val in zip(problem_.variables, result.x)}
""")]),
("gw_samples", GW, [("""        numeric_solutions = numeric_solutions[: self._num_cuts]
        samples = [
            SolutionSample(
                x=solution[0],
                fval=solution[1],
                probability=1.0 / len(numeric_solutions),
                status=OptimizationResultStatus.SUCCESS,
            )
            for solution in numeric_solutions
        ]

        return GoemansWilliamsonOptimizationResult(
            x=samples[0].x,
            fval=samples[0].fval,
""","""        numeric_solutions = numeric_solutions[: self._num_cuts]
        probability = 1.0 / len(numeric_solutions)
        samples = []
        for cut, value in numeric_solutions:
            samples.append(
                SolutionSample(
                    x=cut,
                    fval=value,
                    probability=probability,
                    status=OptimizationResultStatus.SUCCESS,
                )
            )
        best = samples[0]

        return GoemansWilliamsonOptimizationResult(
            x=best.x,
            fval=best.fval,
"""),("""        numeric_solutions = [
            (cuts[i, :], self.max_cut_value(cuts[i, :], adj_matrix)) for i in range(self._num_cuts)
        ]
""","""        numeric_solutions = []
        for i in range(self._num_cuts):
            cut = cuts[i, :]
            numeric_solutions.append((cut, self.max_cut_value(cut, adj_matrix)))
"""),("""            numeric_solutions.sort(key=lambda x: -x[1])
""","""            numeric_solutions = sorted(numeric_solutions, key=lambda pair: -pair[1])
""")]),
("gw_unique", GW, [("""        for idx, cut in enumerate(solutions):
            if cut[0][0] == 1:
                solutions[idx] = (
                    np.array([0 if _ == 1 else 1 for _ in cut[0]]),
                    cut[1],
                )

        seen_cuts = set()
        unique_cuts = []
        for cut in solutions:
            cut_str = "".join([str(_) for _ in cut[0]])
            if cut_str in seen_cuts:
                continue

            seen_cuts.add(cut_str)
            unique_cuts.append(cut)

        return unique_cuts
""","""        seen_cuts = set()
        unique_cuts = []
        for cut, value in solutions:
            if cut[0] == 1:
                cut = np.array([0 if bit == 1 else 1 for bit in cut])
            cut_str = "".join(str(bit) for bit in cut)
            if cut_str not in seen_cuts:
                seen_cuts.add(cut_str)
                unique_cuts.append((cut, value))
        return unique_cuts
""")]),
("gw_sdp", GW, [("""        constraints, expr = [], 0

        # variables
        x = cvx.Variable((num_vertices, num_vertices), PSD=True)

        # constraints
        for i in range(num_vertices):
            constraints.append(x[i, i] == 1)

        # objective function
        expr = cvx.sum(cvx.multiply(adj_matrix, (np.ones((num_vertices, num_vertices)) - x)))
""","""        shape = (num_vertices, num_vertices)
        # variables
        x = cvx.Variable(shape, PSD=True)

        # constraints
        constraints = [x[i, i] == 1 for i in range(num_vertices)]

        # objective function
        expr = cvx.sum(cvx.multiply(adj_matrix, np.ones(shape) - x))
"""),("""        eigenvalues = np.linalg.eigh(chi)[0]
        if min(eigenvalues) < 0:
            chi = chi + (1.001 * abs(min(eigenvalues)) * np.identity(num_vertices))
        elif min(eigenvalues) == 0:
            chi = chi + 0.00001 * np.identity(num_vertices)
""","""        smallest = min(np.linalg.eigh(chi)[0])
        identity = np.identity(num_vertices)
        if smallest < 0:
            chi = chi + 1.001 * abs(smallest) * identity
        elif smallest == 0:
            chi = chi + 0.00001 * identity
""")]),
]
