M="algorithms/multistart_optimizer.py"
G="algorithms/grover_optimizer.py"
V=[
("ms_start_helper", M, [("""            x_0 = np.zeros(problem.get_num_vars())
            if trial > 0:
                for i, var in enumerate(problem.variables):
                    lowerbound = var.lowerbound if var.lowerbound > -INFINITY else -self._clip
                    upperbound = var.upperbound if var.upperbound < INFINITY else self._clip
                    x_0[i] = uniform.rvs(lowerbound, (upperbound - lowerbound))
""","""            x_0 = self._initial_point(problem, trial)
"""),("""    @property
    def trials(self) -> int:""","""    def _initial_point(self, problem, trial):
        point = np.zeros(problem.get_num_vars())
        if trial == 0:
            return point
        for i, var in enumerate(problem.variables):
            lower = var.lowerbound
            if lower <= -INFINITY:
                lower = -self._clip
            upper = var.upperbound
            if upper >= INFINITY:
                upper = self._clip
            point[i] = uniform.rvs(lower, upper - lower)
        return point

    @property
    def trials(self) -> int:""")]),
("ms_sign", M, [("""            # we minimize, to get actual objective value we must multiply by the sense value
            fval = problem.objective.evaluate(x) * problem.objective.sense.value
            # we minimize the objective
            if fval < fval_sol:
                # here we get back to the original sense of the problem
                fval_sol = fval
                x_sol = x
                rest_sol = rest
""","""            fval = sense * problem.objective.evaluate(x)
            if fval >= fval_sol:
                continue
            fval_sol, x_sol, rest_sol = fval, x, rest
"""),("""        rest_sol: Optional[Tuple] = None
""","""        rest_sol: Optional[Tuple] = None
        sense = problem.objective.sense.value
"""),("""        return OptimizationResult(
            x=x_sol,
            fval=fval_sol * problem.objective.sense.value,
""","""        return OptimizationResult(
            x=x_sol,
            fval=sense * fval_sol,
""")]),
("ms_best_tuple", M, [("""        fval_sol = INFINITY
        x_sol: Optional[np.ndarray] = None
        rest_sol: Optional[Tuple] = None
""","""        best = (INFINITY, None, None)
"""),("""            if fval < fval_sol:
                # here we get back to the original sense of the problem
                fval_sol = fval
                x_sol = x
                rest_sol = rest
""","""            if fval < best[0]:
                best = (fval, x, rest)
"""),("""        return OptimizationResult(
            x=x_sol,""","""        fval_sol, x_sol, rest_sol = best
        return OptimizationResult(
            x=x_sol,""")]),
("ms_listcomp", M, [("""            x_0 = np.zeros(problem.get_num_vars())
            if trial > 0:
                for i, var in enumerate(problem.variables):
                    lowerbound = var.lowerbound if var.lowerbound > -INFINITY else -self._clip
                    upperbound = var.upperbound if var.upperbound < INFINITY else self._clip
                    x_0[i] = uniform.rvs(lowerbound, (upperbound - lowerbound))
""","""            x_0 = np.zeros(problem.get_num_vars())
            if trial > 0:
                for i, (lowerbound, upperbound) in enumerate(bounds):
                    x_0[i] = uniform.rvs(lowerbound, (upperbound - lowerbound))
"""),("""        # Implementation of multi""","""        bounds = [
            (
                var.lowerbound if var.lowerbound > -INFINITY else -self._clip,
                var.upperbound if var.upperbound < INFINITY else self._clip,
            )
            for var in problem.variables
        ]
        # Implementation of multi""")]),
("gr_min_helper", G, [("""        if problem_.objective.sense == problem_.objective.Sense.MAXIMIZE:
            problem_.objective.sense = problem_.objective.Sense.MINIMIZE
            problem_.objective.constant = -problem_.objective.constant
            for i, val in problem_.objective.linear.to_dict().items():
                problem_.objective.linear[i] = -val
            for (i, j), val in problem_.objective.quadratic.to_dict().items():
                problem_.objective.quadratic[i, j] = -val
""","""        self._to_minimization(problem_)
"""),("""    def _measure(self""","""    @staticmethod
    def _to_minimization(problem):
        objective = problem.objective
        if objective.sense != objective.Sense.MAXIMIZE:
            return
        objective.sense = objective.Sense.MINIMIZE
        objective.constant *= -1
        for i, val in objective.linear.to_dict().items():
            objective.linear[i] = -val
        for (i, j), val in objective.quadratic.to_dict().items():
            objective.quadratic[i, j] = -val

    def _measure(self""")]),
("gr_trace_helper", G, [("""                    if self._quantum_instance.is_statevector:  # type: ignore
                        indices = list(range(n_key, len(outcome)))
                        rho = partial_trace(self._circuit_results, indices)
                        self._circuit_results = np.diag(rho.data) ** 0.5
                    else:
                        self._circuit_results = {
                            i[-n_key:]: v for i, v in self._circuit_results.items()
                        }

                    raw_samples = self._eigenvector_to_solutions(
                        self._circuit_results, problem_init
                    )
                    raw_samples.sort(
                        key=lambda x: problem_init.objective.sense.value * x.fval
                    )
""","""                    self._trace_out(n_key, len(outcome))
                    raw_samples = sorted(
                        self._eigenvector_to_solutions(self._circuit_results, problem_init),
                        key=lambda s: s.fval * problem_init.objective.sense.value,
                    )
"""),("""    def _measure(self""","""    def _trace_out(self, n_key, total):
        if self._quantum_instance.is_statevector:
            rho = partial_trace(self._circuit_results, list(range(n_key, total)))
            self._circuit_results = np.diag(rho.data) ** 0.5
            return
        traced = {}
        for bits, amp in self._circuit_results.items():
            traced[bits[-n_key:]] = amp
        self._circuit_results = traced

    def _measure(self""")]),
("gr_key_slices", G, [("""                k = int(outcome[0:n_key], 2)
                v = outcome[n_key : n_key + n_value]
                int_v = self._bin_to_int(v, n_value) + threshold
""","""                key_bits, value_bits = outcome[:n_key], outcome[n_key : n_key + n_value]
                k = int(key_bits, 2)
                int_v = threshold + self._bin_to_int(value_bits, n_value)
"""),("""        if v.startswith("1"):
            int_v = int(v, 2) - 2 ** num_value_bits
        else:
            int_v = int(v, 2)

        return int_v
""","""        value = int(v, 2)
        if v.startswith("1"):
            value -= 2 ** num_value_bits
        return value
"""),("""        opt_x = np.array([1 if s == "1" else 0 for s in ("{0:%sb}" % n_key).format(optimum_key)])
""","""        bits = ("{0:%sb}" % n_key).format(optimum_key)
        opt_x = np.array([int(s == "1") for s in bits])
""")]),
("gr_probs", G, [("""            keys = [
                bin(i)[2::].rjust(int(np.log2(len(state))), "0")[::-1] for i in range(0, len(state))
            ]
            probs = [abs(a) ** 2 for a in state]
            total = math.fsum(probs)
            probs = [p / total for p in probs]
            hist = {key: prob for key, prob in zip(keys, probs) if prob > 0}
""","""            num_bits = int(np.log2(len(state)))
            weights = [abs(amplitude) ** 2 for amplitude in state]
            total = math.fsum(weights)
            hist = {}
            for i, weight in enumerate(weights):
                prob = weight / total
                if prob > 0:
                    key = bin(i)[2:].rjust(num_bits, "0")[::-1]
                    hist[key] = prob
"""),("""            hist = {key[::-1]: val / shots for key, val in state.items() if val > 0}
""","""            hist = {}
            for key, val in state.items():
                if val > 0:
                    hist[key[::-1]] = val / shots
""")]),
("gr_stop_flag", G, [("""                    if (
                        loops_with_no_improvement >= self._n_iterations
                        or len(keys_measured) == num_solutions
                        or rotations >= max_rotations
                    ):
                        improvement_found = True
                        optimum_found = True
""","""                    stop = (
                        rotations >= max_rotations
                        or loops_with_no_improvement >= self._n_iterations
                        or len(keys_measured) == num_solutions
                    )
                    if stop:
                        optimum_found = improvement_found = True
"""),("""                operations = circuit.count_ops()
                operation_count[iteration] = operations
                iteration += 1
""","""                operations = circuit.count_ops()
                operation_count[len(operation_count)] = operations
""")]),
("gr_measure", G, [("""        freq = sorted(probs.items(), key=lambda x: x[1], reverse=True)
        # Pick a random outcome.
        idx = algorithm_globals.random.choice(len(freq), 1, p=[x[1] for x in freq])[0]
        logger.info("Frequencies: %s", freq)
        return freq[idx][0]
""","""        freq = list(probs.items())
        freq.sort(key=lambda item: item[1], reverse=True)
        weights = [weight for _, weight in freq]
        idx = algorithm_globals.random.choice(len(freq), 1, p=weights)[0]
        outcome, _ = freq[idx]
        return outcome
""")]),
]
