P="problems/quadratic_program.py"
LE="problems/linear_expression.py"
QE="problems/quadratic_expression.py"
V=[
("le_index_helper", LE, [("""        if isinstance(i, str):
            i = self.quadratic_program.variables_index[i]
        return self.coefficients[0, i]
""","""        return self.coefficients[0, self._index(i)]

    def _index(self, i):
        return self.quadratic_program.variables_index[i] if isinstance(i, str) else i
"""),("""        if isinstance(i, str):
            i = self.quadratic_program.variables_index[i]
        self.coefficients[0, i] = value""","""        self.coefficients[0, self._index(i)] = value"""),("""                if isinstance(index, str):
                    index = self.quadratic_program.variables_index[index]
                coeffs[0, index] = value
""","""                coeffs[0, self._index(index)] = value
""")]),
("le_early", LE, [("""        if (
            isinstance(coefficients, list)
            or isinstance(coefficients, ndarray)
            and len(coefficients.shape) == 1
        ):
            coefficients = dok_matrix([coefficients], dtype=float)
        elif isinstance(coefficients, spmatrix):
            coefficients = dok_matrix(coefficients, dtype=float)
        elif isinstance(coefficients, dict):
            coeffs""","""        if isinstance(coefficients, spmatrix):
            return dok_matrix(coefficients, dtype=float)
        if isinstance(coefficients, list) or (
            isinstance(coefficients, ndarray) and len(coefficients.shape) == 1
        ):
            return dok_matrix([coefficients], dtype=float)
        if isinstance(coefficients, dict):
            coeffs"""),("""            coefficients = coeffs
        else:
            raise QiskitOptimizationError("Unsupported format for coefficients.")
        return coefficients
""","""            return coeffs
        raise QiskitOptimizationError("Unsupported format for coefficients.")
""")]),
("le_todict", LE, [("""        if use_name:
            return {
                self.quadratic_program.variables[k].name: v
                for (_, k), v in self._coefficients.items()
            }
        else:
            return {k: v for (_, k), v in self._coefficients.items()}
""","""        result = {}
        for (_, k), v in self._coefficients.items():
            key = self.quadratic_program.variables[k].name if use_name else k
            result[key] = v
        return result
""")]),
("le_eval", LE, [("""        # cast input to dok_matrix if it is a dictionary
        x = self._coeffs_to_dok_matrix(x)

        # compute the dot-product of the input and the linear coefficients
        val = (x @ self.coefficients.transpose())[0, 0]

        # return the result
        return val
""","""        point = self._coeffs_to_dok_matrix(x)
        coefficients = self.coefficients
        return (point @ coefficients.transpose())[0, 0]
""")]),
("qe_key", QE, [("""        i, j = key
        if isinstance(i, str):
            i = self.quadratic_program.variables_index[i]
        if isinstance(j, str):
            j = self.quadratic_program.variables_index[j]
        return self.coefficients[min(i, j), max(i, j)]
""","""        return self.coefficients[self._upper_key(key)]

    def _upper_key(self, key):
        index = self.quadratic_program.variables_index
        i, j = (index[k] if isinstance(k, str) else k for k in key)
        return (i, j) if i <= j else (j, i)
"""),("""        i, j = key
        if isinstance(i, str):
            i = self.quadratic_program.variables_index[i]
        if isinstance(j, str):
            j = self.quadratic_program.variables_index[j]
        self.coefficients[min(i, j), max(i, j)] = value
""","""        self.coefficients[self._upper_key(key)] = value
""")]),
("qe_key2", QE, [("""        return self.coefficients[min(i, j), max(i, j)]
""","""        if i > j:
            i, j = j, i
        return self.coefficients[i, j]
""")]),
("qe_key3", QE, [("""        return self.coefficients[min(i, j), max(i, j)]
""","""        return self.coefficients[tuple(sorted((i, j)))]
""")]),
("qe_sym", QE, [("""        if use_name:
            return {
                (
                    self.quadratic_program.variables[i].name,
                    self.quadratic_program.variables[j].name,
                ): v
                for (i, j), v in coeffs.items()
            }
        else:
            return {(int(i), int(j)): v for (i, j), v in coeffs.items()}
""","""        names = [var.name for var in self.quadratic_program.variables]
        if use_name:
            return {(names[i], names[j]): v for (i, j), v in coeffs.items()}
        return {(int(i), int(j)): v for (i, j), v in coeffs.items()}
""")]),
("qe_sym2", QE, [("""        coeffs = self._symmetric_matrix(self.coefficients) if symmetric else self.coefficients
        return coeffs.toarray()
""","""        coeffs = self.coefficients
        if symmetric:
            coeffs = self._symmetric_matrix(coeffs)
        return coeffs.toarray()
"""),("""        x = self._cast_as_array(x)

        # compute (Q' + Q) * x for the quadratic expression
        val = (self.coefficients.transpose() + self.coefficients) @ x
""","""        x = self._cast_as_array(x)
        coeffs = self.coefficients

        val = (coeffs + coeffs.transpose()) @ x
""")]),
("qe_cast", QE, [("""        if isinstance(x, dict):
            x_aux = np.zeros(self.quadratic_program.get_num_vars())
            for i, v in x.items():
                if isinstance(i, str):
                    i = self.quadratic_program.variables_index[i]
                x_aux[i] = v
            x = x_aux
        if isinstance(x, list):
            x = np.array(x)
        return x""","""        if isinstance(x, list):
            return np.array(x)
        if not isinstance(x, dict):
            return x
        x_aux = np.zeros(self.quadratic_program.get_num_vars())
        for key, value in x.items():
            index = self.quadratic_program.variables_index[key] if isinstance(key, str) else key
            x_aux[index] = value
        return x_aux""")]),
("qp_clear", P, [("""        self._variables.clear()
        self._variables_index.clear()

        self._linear_constraints.clear()
        self._linear_constraints_index.clear()

        self._quadratic_constraints.clear()
        self._quadratic_constraints_index.clear()
""","""        for container in (
            self._variables,
            self._variables_index,
            self._linear_constraints,
            self._linear_constraints_index,
            self._quadratic_constraints,
            self._quadratic_constraints_index,
        ):
            container.clear()
""")]),
("qp_addvar", P, [("""        if name is None:
            name = "x"
            key_format = "{}"
        else:
            key_format = ""
        return self._add_variables(1, lowerbound, upperbound, vartype, name, key_format)[1][0]
""","""        key_format = "{}" if name is None else ""
        _, variables = self._add_variables(1, lowerbound, upperbound, vartype, name, key_format)
        return variables[0]
""")]),
("qp_findname", P, [("""            prev = None
            while True:
                new_name = name + key_format.format(k)
                if new_name == prev:
                    raise QiskitOptimizationError(
                        "Variable name already exists: {}".format(new_name)
                    )
                if new_name in self._variables_index:
                    k += 1
                    prev = new_name
                else:
                    break
            return new_name, k + 1
""","""            prev = None
            new_name = name + key_format.format(k)
            while new_name in self._variables_index:
                if new_name == prev:
                    raise QiskitOptimizationError(
                        "Variable name already exists: {}".format(new_name)
                    )
                prev = new_name
                k += 1
                new_name = name + key_format.format(k)
            return new_name, k + 1
""")]),
("qp_addloop", P, [("""            names.append(indexed_name)
            variable = Variable(self, indexed_name, lowerbound, upperbound, vartype)
            self._variables_index[indexed_name] = self.get_num_vars()
            self._variables.append(variable)
            variables.append(variable)
""","""            variable = Variable(self, indexed_name, lowerbound, upperbound, vartype)
            self._variables_index[indexed_name] = len(self._variables)
            self._variables += [variable]
            variables.append(variable)
            names.append(variable.name)
""")]),
("qp_register", P, [("""            variable = Variable(self, indexed_name, lowerbound, upperbound, vartype)
            self._variables_index[indexed_name] = self.get_num_vars()
            self._variables.append(variable)
            variables.append(variable)
        return names, variables
""","""            variables.append(self._register(Variable(self, indexed_name, lowerbound, upperbound, vartype)))
        return names, variables

    def _register(self, variable):
        self._variables_index[variable.name] = len(self._variables)
        self._variables.append(variable)
        return variable
""")]),
("qp_numvars", P, [("""        if vartype:
            return sum(variable.vartype == vartype for variable in self._variables)
        else:
            return len(self._variables)
""","""        if not vartype:
            return len(self._variables)
        return len([var for var in self._variables if var.vartype == vartype])
""")]),
("qp_numvars2", P, [("""            return sum(variable.vartype == vartype for variable in self._variables)
""","""            count = 0
            for variable in self._variables:
                if variable.vartype == vartype:
                    count += 1
            return count
""")]),
("qp_lincon", P, [("""        if name:
            if name in self.linear_constraints_index:
                raise QiskitOptimizationError(
                    "Linear constraint's name already exists: {}".format(name)
                )
        else:
            k = self.get_num_linear_constraints()
            while "c{}".format(k) in self.linear_constraints_index:
                k += 1
            name = "c{}".format(k)
        if linear is None:
            linear = {}
        constraint = LinearConstraint(self, name, linear, Constraint.Sense.convert(sense), rhs)
""","""        name = self._constraint_name(name, "c", self._linear_constraints_index)
        constraint = LinearConstraint(
            self, name, {} if linear is None else linear, Constraint.Sense.convert(sense), rhs
        )
"""),("""        if name:
            if name in self.quadratic_constraints_index:
                raise QiskitOptimizationError(
                    "Quadratic constraint name already exists: {}".format(name)
                )
        else:
            k = self.get_num_quadratic_constraints()
            while "q{}".format(k) in self.quadratic_constraints_index:
                k += 1
            name = "q{}".format(k)
""","""        name = self._constraint_name(name, "q", self._quadratic_constraints_index)
"""),("""    def get_linear_constraint(self, i""","""    @staticmethod
    def _constraint_name(name, prefix, index):
        if name:
            if name in index:
                raise QiskitOptimizationError("Constraint name already exists: {}".format(name))
            return name
        k = len(index)
        while prefix + str(k) in index:
            k += 1
        return prefix + str(k)

    def get_linear_constraint(self, i""")]),
("qp_lincon2", P, [("""            k = self.get_num_linear_constraints()
            while "c{}".format(k) in self.linear_constraints_index:
                k += 1
            name = "c{}".format(k)
""","""            k = self.get_num_linear_constraints()
            name = f"c{k}"
            while name in self.linear_constraints_index:
                k += 1
                name = f"c{k}"
""")]),
("qp_lincon3", P, [("""            k = self.get_num_linear_constraints()
            while "c{}".format(k) in self.linear_constraints_index:
                k += 1
            name = "c{}".format(k)
""","""            k = self.get_num_linear_constraints()
            while True:
                name = "c{}".format(k)
                if name not in self.linear_constraints_index:
                    break
                k += 1
""")]),
("qp_remove", P, [("""        if isinstance(i, str):
            i = self._linear_constraints_index[i]
        del self._linear_constraints[i]
        self._linear_constraints_index = {
            cst.name: j for j, cst in enumerate(self._linear_constraints)
        }
""","""        index = self._linear_constraints_index[i] if isinstance(i, str) else i
        self._linear_constraints.pop(index)
        self._linear_constraints_index = {}
        for j, cst in enumerate(self._linear_constraints):
            self._linear_constraints_index[cst.name] = j
""")]),
("qp_getvar", P, [("""        if isinstance(i, int):
            return self.variables[i]
        else:
            return self.variables[self._variables_index[i]]
""","""        index = i if isinstance(i, int) else self._variables_index[i]
        return self._variables[index]
""")]),
("qp_min", P, [("""        self._objective = QuadraticObjective(
            self, constant, linear, quadratic, QuadraticObjective.Sense.MINIMIZE
        )
""","""        self._set_objective(QuadraticObjective.Sense.MINIMIZE, constant, linear, quadratic)

    def _set_objective(self, sense, constant, linear, quadratic):
        self._objective = QuadraticObjective(
            self, constant=constant, linear=linear, quadratic=quadratic, sense=sense
        )
"""),("""        self._objective = QuadraticObjective(
            self, constant, linear, quadratic, QuadraticObjective.Sense.MAXIMIZE
        )
""","""        self._set_objective(QuadraticObjective.Sense.MAXIMIZE, constant, linear, quadratic)
""")]),
("to_docplex_var", P, [("""        var = {}
        for idx, x in enumerate(self.variables):
            if x.vartype == Variable.Type.CONTINUOUS:
                var[idx] = mdl.continuous_var(lb=x.lowerbound, ub=x.upperbound, name=x.name)
            elif x.vartype == Variable.Type.BINARY:
                var[idx] = mdl.binary_var(name=x.name)
            elif x.vartype == Variable.Type.INTEGER:
                var[idx] = mdl.integer_var(lb=x.lowerbound, ub=x.upperbound, name=x.name)
            else:
                # should never happen
                raise QiskitOptimizationError("Unsupported variable type: {}".format(x.vartype))
""","""        var = []
        for x in self.variables:
            if x.vartype == Variable.Type.CONTINUOUS:
                var.append(mdl.continuous_var(lb=x.lowerbound, ub=x.upperbound, name=x.name))
            elif x.vartype == Variable.Type.BINARY:
                var.append(mdl.binary_var(name=x.name))
            elif x.vartype == Variable.Type.INTEGER:
                var.append(mdl.integer_var(lb=x.lowerbound, ub=x.upperbound, name=x.name))
            else:
                # should never happen
                raise QiskitOptimizationError("Unsupported variable type: {}".format(x.vartype))
""")]),
("to_docplex_expr", P, [("""            linear_expr = 0
            for j, v in l_constraint.linear.to_dict().items():
                linear_expr += v * var[cast(int, j)]
            sense = l_constraint.sense
            if sense == Constraint.Sense.EQ:
                mdl.add_constraint(linear_expr == rhs, ctname=name)
            elif sense == Constraint.Sense.GE:
                mdl.add_constraint(linear_expr >= rhs, ctname=name)
            elif sense == Constraint.Sense.LE:
                mdl.add_constraint(linear_expr <= rhs, ctname=name)
            else:
                # should never happen
                raise QiskitOptimizationError("Unsupported constraint sense: {}".format(sense))
""","""            lhs = sum(v * var[cast(int, j)] for j, v in l_constraint.linear.to_dict().items())
            self._add_docplex(mdl, lhs, l_constraint.sense, rhs, name)
"""),("""            sense = q_constraint.sense
            if sense == Constraint.Sense.EQ:
                mdl.add_constraint(quadratic_expr == rhs, ctname=name)
            elif sense == Constraint.Sense.GE:
                mdl.add_constraint(quadratic_expr >= rhs, ctname=name)
            elif sense == Constraint.Sense.LE:
                mdl.add_constraint(quadratic_expr <= rhs, ctname=name)
            else:
                # should never happen
                raise QiskitOptimizationError("Unsupported constraint sense: {}".format(sense))
""","""            self._add_docplex(mdl, quadratic_expr, q_constraint.sense, rhs, name)
"""),("""    def export_as_lp_string(self""","""    @staticmethod
    def _add_docplex(mdl, lhs, sense, rhs, name):
        if sense == Constraint.Sense.EQ:
            cst = lhs == rhs
        elif sense == Constraint.Sense.GE:
            cst = lhs >= rhs
        elif sense == Constraint.Sense.LE:
            cst = lhs <= rhs
        else:
            raise QiskitOptimizationError("Unsupported constraint sense: {}".format(sense))
        mdl.add_constraint(cst, ctname=name)

    def export_as_lp_string(self""")]),
("to_ising_zp", P, [("""            z_p = zeros(num_nodes, dtype=bool)
            weight = coef * sense / 2
            z_p[idx] = True

            pauli_list.append([-weight, Pauli((z_p, zero))])
            offset += weight
""","""            weight = sense * coef / 2
            pauli_list.append([-weight, z_on(idx)])
            offset += weight
"""),("""        # convert linear parts of the object function into Hamiltonian.
""","""        def z_on(*positions):
            z_p = zeros(num_nodes, dtype=bool)
            for position in positions:
                z_p[position] = True
            return Pauli((z_p, zero))

        # convert linear parts of the object function into Hamiltonian.
"""),("""                z_p = zeros(num_nodes, dtype=bool)
                z_p[i] = True
                z_p[j] = True
                pauli_list.append([weight, Pauli((z_p, zero))])

            z_p = zeros(num_nodes, dtype=bool)
            z_p[i] = True
            pauli_list.append([-weight, Pauli((z_p, zero))])

            z_p = zeros(num_nodes, dtype=bool)
            z_p[j] = True
            pauli_list.append([-weight, Pauli((z_p, zero))])
""","""                pauli_list.append([weight, z_on(i, j)])
            pauli_list.append([-weight, z_on(i)])
            pauli_list.append([-weight, z_on(j)])
""")]),
("to_ising_merge", P, [("""            if j < i:  # type: ignore
                coeffs[(j, i)] = coeffs.get((j, i), 0.0) + coeff
            else:
                coeffs[(i, j)] = coeffs.get((i, j), 0.0) + coeff
""","""            key = (min(i, j), max(i, j))
            coeffs[key] = coeffs.get(key, 0.0) + coeff
""")]),
("to_ising_offset", P, [("""        offset = 0.0
        zero = zeros""","""        zero = zeros"""),("""        offset += self.objective.constant * sense
""","""        offset = sense * self.objective.constant
"""),("""            if i == j:
                offset += weight
            else:
                z_p""","""            offset += 2 * weight if i == j else weight
            if i != j:
                z_p"""),("""            pauli_list.append([-weight, Pauli((z_p, zero))])

            offset += weight

        # Remove""","""            pauli_list.append([-weight, Pauli((z_p, zero))])

        # Remove""")]),
("to_ising_guard", P, [("        if self.get_num_vars() > self.get_num_binary_vars():","        if any(var.vartype != VarType.BINARY for var in self.variables):"),("        if self.linear_constraints or self.quadratic_constraints:","        if len(self.linear_constraints) + len(self.quadratic_constraints) > 0:")]),
("from_ising_upper", P, [("""        for i, row in enumerate(qubo_matrix):
            for j, weight in enumerate(row):
                # Focus on the upper triangular matrix
                if j <= i:
                    continue
""","""        for i in range(qubit_op.num_qubits):
            for j in range(i + 1, qubit_op.num_qubits):
                weight = qubo_matrix[i, j]
""")]),
("from_ising_z", P, [("""            lst_z = pauli.z.tolist()
            z_index = [i for i, z in enumerate(lst_z) if z is True]
            num_z = len(z_index)
""","""            z_index = [i for i, z in enumerate(pauli.z.tolist()) if z]
            num_z = len(z_index)
""")]),
("from_ising_last", P, [("""            coef = weight * 2
            if linear:
                # If the linear option is True, add it into linear_terms
                linear_terms[i] = -coef
            else:
                # Else, add it into quadratic_terms as a diagonal element.
                quadratic_terms[i, i] = -coef
            # Sub the weight of the linear pauli term from the QUBO matrix
            qubo_matrix[i, i] -= weight
            offset += weight
""","""            if linear:
                linear_terms[i] = -2 * weight
            else:
                quadratic_terms[i, i] = -2 * weight
            offset += weight
""")]),
("feas_comp", P, [("""        violated_variables = []  # type: List[Variable]
        for i, val in enumerate(x):
            variable = self.get_variable(i)
            if val < variable.lowerbound or variable.upperbound < val:
                violated_variables.append(variable)
""","""        violated_variables = [
            variable
            for variable, val in zip(self.variables, x)
            if not variable.lowerbound <= val <= variable.upperbound
        ]
"""),("""        feasible = not violated_variables and not violated_constraints

        return feasible, violated_variables, violated_constraints
""","""        feasible = len(violated_variables) == 0 and len(violated_constraints) == 0
        return feasible, violated_variables, violated_constraints
""")]),
("feas_helper", P, [("""            lhs = constraint.evaluate(x)
            if constraint.sense == ConstraintSense.LE and lhs > constraint.rhs:
                violated_constraints.append(constraint)
            elif constraint.sense == ConstraintSense.GE and lhs < constraint.rhs:
                violated_constraints.append(constraint)
            elif constraint.sense == ConstraintSense.EQ and not isclose(lhs, constraint.rhs):
                violated_constraints.append(constraint)
""","""            if not self._satisfied(constraint, constraint.evaluate(x)):
                violated_constraints.append(constraint)
"""),("""    def is_feasible(self""","""    @staticmethod
    def _satisfied(constraint, lhs):
        if constraint.sense == ConstraintSense.LE:
            return lhs <= constraint.rhs
        if constraint.sense == ConstraintSense.GE:
            return lhs >= constraint.rhs
        return isclose(lhs, constraint.rhs)

    def is_feasible(self""")]),
("feas_two", P, [("""        for constraint in cast(List[Constraint], self._linear_constraints) + cast(
            List[Constraint], self._quadratic_constraints
        ):
""","""        for constraint in [*self.linear_constraints, *self.quadratic_constraints]:
"""),("""            if constraint.sense == ConstraintSense.LE and lhs > constraint.rhs:
                violated_constraints.append(constraint)
            elif constraint.sense == ConstraintSense.GE and lhs < constraint.rhs:
                violated_constraints.append(constraint)
            elif constraint.sense == ConstraintSense.EQ and not isclose(lhs, constraint.rhs):
                violated_constraints.append(constraint)
""","""            violated = (
                (constraint.sense == ConstraintSense.LE and lhs > constraint.rhs)
                or (constraint.sense == ConstraintSense.GE and lhs < constraint.rhs)
                or (constraint.sense == ConstraintSense.EQ and not isclose(lhs, constraint.rhs))
            )
            if violated:
                violated_constraints.append(constraint)
""")]),
("sub_feasible", P, [("""        if sense == Constraint.Sense.EQ:
            if 0 == rhs:
                return True
        elif sense == Constraint.Sense.LE:
            if 0 <= rhs:
                return True
        elif sense == Constraint.Sense.GE:
            if 0 >= rhs:
                return True
        return False
""","""        if sense == Constraint.Sense.EQ:
            return rhs == 0
        if sense == Constraint.Sense.LE:
            return rhs >= 0
        if sense == Constraint.Sense.GE:
            return rhs <= 0
        return False
""")]),
("sub_results", P, [("""        results = [
            self._variables(),
            self._objective(),
            self._linear_constraints(),
            self._quadratic_constraints(),
        ]
        if any(not r for r in results):
            self._dst._status = QuadraticProgram.Status.INFEASIBLE
        return self._dst
""","""        feasible = self._variables()
        feasible &= self._objective()
        feasible &= self._linear_constraints()
        feasible &= self._quadratic_constraints()
        if not feasible:
            self._dst._status = QuadraticProgram.Status.INFEASIBLE
        return self._dst
""")]),
("sub_subsdict", P, [("""                i_2 = self._src.get_variable(i).name
                if i_2 in subs:
                    raise QiskitOptimizationError(
                        "Cannot substitute the same variable twice: {} <- {}".format(i, v)
                    )
                subs[i_2] = (self.CONST, v)

        if variables is not None:
            for i, (j, v) in variables.items():
                if v == 0:""","""                name = self._src.get_variable(i).name
                if name in subs:
                    raise QiskitOptimizationError(
                        "Cannot substitute the same variable twice: {} <- {}".format(i, v)
                    )
                subs[name] = (self.CONST, v)

        if variables is not None:
            for i, repl in variables.items():
                j, v = repl
                if v == 0:""")]),
("sub_subsdict2", P, [("""        if constants is not None:
            for i, v in constants.items():""","""        if constants:
            for i, v in constants.items():"""),("""        if variables is not None:
            for i, (j, v) in""","""        if variables:
            for i, (j, v) in"""),("""            for i_2, (j_2, v) in subs.items():
                if j_2 in subs:
                    raise QiskitOptimizationError(
                        "Cannot substitute by variable that gets substituted itself: "
                        "{} <- {} {}".format(i_2, j_2, v)
                    )
""","""            if any(j_2 in subs for j_2, _ in subs.values()):
                raise QiskitOptimizationError(
                    "Cannot substitute by variable that gets substituted itself."
                )
""")]),
("sub_vars_bounds", P, [("""                if v > 0:
                    lb_j = max(lb_j, new_lb_i)
                    ub_j = min(ub_j, new_ub_i)
                else:
                    lb_j = max(lb_j, new_ub_i)
                    ub_j = min(ub_j, new_lb_i)
""","""                if v < 0:
                    new_lb_i, new_ub_i = new_ub_i, new_lb_i
                lb_j = max(lb_j, new_lb_i)
                ub_j = min(ub_j, new_ub_i)
""")]),
("sub_vars_scale", P, [("""                if abs(lb_i) < INFINITY:
                    new_lb_i = lb_i / v
                else:
                    new_lb_i = lb_i if v > 0 else -lb_i
                if abs(ub_i) < INFINITY:
                    new_ub_i = ub_i / v
                else:
                    new_ub_i = ub_i if v > 0 else -ub_i
""","""                new_lb_i = self._scale(lb_i, v)
                new_ub_i = self._scale(ub_i, v)
"""),("""    def _linear_expression(
""","""    @staticmethod
    def _scale(bound, v):
        if abs(bound) >= INFINITY:
            return bound if v > 0 else -bound
        return bound / v

    def _linear_expression(
""")]),
("sub_vars_local", P, [("""        for i, (j, v) in self._subs.items():
            lb_i = self._src.get_variable(i).lowerbound
            ub_i = self._src.get_variable(i).upperbound
            if j == self.CONST:
                if not lb_i <= v <= ub_i:
                    logger.warning("Infeasible substitution for variable: %s", i)
                    feasible = False
            else:""","""        for i, (j, v) in self._subs.items():
            var_i = self._src.get_variable(i)
            lb_i, ub_i = var_i.lowerbound, var_i.upperbound
            if j == self.CONST:
                if v < lb_i or v > ub_i:
                    logger.warning("Infeasible substitution for variable: %s", i)
                    feasible = False
            else:"""),("""            name = var.name
            vartype = var.vartype
            lowerbound = var.lowerbound
            upperbound = var.upperbound
            if name not in self._subs:
                self._dst._add_variable(lowerbound, upperbound, vartype, name)
""","""            if var.name in self._subs:
                continue
            self._dst._add_variable(var.lowerbound, var.upperbound, var.vartype, var.name)
""")]),
("sub_lin_get", P, [("""            repl_i = self._subs[i] if i in self._subs else (i, 1)
            prod = w_i * repl_i[1]
            if repl_i[0] == self.CONST:
                const.append(prod)
            else:
                k = repl_i[0]
                lin_dict[k] += prod
""","""            target, factor = self._subs.get(i, (i, 1))
            if target == self.CONST:
                const.append(w_i * factor)
            else:
                lin_dict[target] += w_i * factor
""")]),
("sub_quad_cases", P, [("""            repl_i = self._subs[i] if i in self._subs else (i, 1)
            repl_j = self._subs[j] if j in self._subs else (j, 1)
            idx = tuple(x for x, _ in [repl_i, repl_j] if x != self.CONST)
            prod = w_ij * repl_i[1] * repl_j[1]
            if len(idx) == 2:
                quad_dict[idx] += prod  # type: ignore
            elif len(idx) == 1:
                lin_dict[idx[0]] += prod
            else:
                const.append(prod)
""","""            new_i, v_i = self._subs.get(i, (i, 1))
            new_j, v_j = self._subs.get(j, (j, 1))
            prod = w_ij * v_i * v_j
            if new_i == self.CONST and new_j == self.CONST:
                const.append(prod)
            elif new_i == self.CONST:
                lin_dict[new_j] += prod
            elif new_j == self.CONST:
                lin_dict[new_i] += prod
            else:
                quad_dict[new_i, new_j] += prod
""")]),
("sub_obj", P, [("""        constant = fsum([obj.constant] + const1 + const2)
        linear = lin1.coefficients + lin2.coefficients
        if obj.sense == obj.sense.MINIMIZE:
            self._dst.minimize(constant=constant, linear=linear, quadratic=quadratic.coefficients)
        else:
            self._dst.maximize(constant=constant, linear=linear, quadratic=quadratic.coefficients)
        return True
""","""        constant = obj.constant + fsum(const1) + fsum(const2)
        linear = lin1.coefficients + lin2.coefficients
        is_min = obj.sense == obj.sense.MINIMIZE
        setter = self._dst.minimize if is_min else self._dst.maximize
        setter(constant=constant, linear=linear, quadratic=quadratic.coefficients)
        return True
""")]),
("sub_lincon", P, [("""            rhs = -fsum([-lin_cst.rhs] + constant)
            if linear.coefficients.nnz > 0:
                self._dst.linear_constraint(
                    name=lin_cst.name,
                    linear=linear.coefficients,
                    sense=lin_cst.sense,
                    rhs=rhs,
                )
            else:
                if not self._feasible(lin_cst.sense, rhs):
                    logger.warning("constraint %s is infeasible due to substitution", lin_cst.name)
                    feasible = False
""","""            rhs = lin_cst.rhs - sum(constant)
            coefficients = linear.coefficients
            if coefficients.nnz:
                self._dst.linear_constraint(coefficients, lin_cst.sense, rhs, lin_cst.name)
                continue
            if self._feasible(lin_cst.sense, rhs):
                continue
            logger.warning("constraint %s is infeasible due to substitution", lin_cst.name)
            feasible = False
""")]),
("sub_quadcon", P, [("""                name = quad_cst.name
                lin_names = set(lin.name for lin in self._dst.linear_constraints)
                while name in lin_names:
                    name = "_" + name
""","""                name = quad_cst.name
                while name in self._dst.linear_constraints_index:
                    name = "_" + name
""")]),
]
