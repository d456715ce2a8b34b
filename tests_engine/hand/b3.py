L="converters/linear_equality_to_penalty.py"
I="converters/integer_to_binary.py"
Q="converters/inequality_to_equality.py"
U="converters/quadratic_program_to_qubo.py"
PENV="""            for j, coef in row.items():
                # if j already exists in the linear terms dic, add a penalty term
                # into existing value else create new key and value in the linear_term dict
                linear[j] = linear.get(j, 0.0) + sense * penalty * -2 * coef * constant
"""
PENQ="""            for j, coef_1 in row.items():
                for k, coef_2 in row.items():
                    # if j and k already exist in the quadratic terms dict,
                    # add a penalty term into existing value
                    # else create new key and value in the quadratic term dict

                    # according to implementation of quadratic terms in OptimizationModel,
                    # don't need to multiply by 2, since loops run over (x, y) and (y, x).
                    tup = cast(Union[Tuple[int, int], Tuple[str, str]], (j, k))
                    quadratic[tup] = quadratic.get(tup, 0.0) + sense * penalty * coef_1 * coef_2
"""
VARL="""            if x.vartype == Variable.Type.CONTINUOUS:
                self._dst.continuous_var(x.lowerbound, x.upperbound, x.name)
            elif x.vartype == Variable.Type.BINARY:
                self._dst.binary_var(x.name)
            elif x.vartype == Variable.Type.INTEGER:
                self._dst.integer_var(x.lowerbound, x.upperbound, x.name)
            else:
                raise QiskitOptimizationError("Unsupported vartype: {}".format(x.vartype))
"""
SLK="""        var_added = False

        if sense == Constraint.Sense.LE:
            var_ub = new_rhs - lhs_lb
            if var_ub > 0:
                sign = 1
                self._dst.integer_var(name=slack_name, lowerbound=0, upperbound=var_ub)
                var_added = True
        elif sense == Constraint.Sense.GE:
            var_ub = lhs_ub - new_rhs
            if var_ub > 0:
                sign = -1
                self._dst.integer_var(name=slack_name, lowerbound=0, upperbound=var_ub)
                var_added = True
        else:
            raise QiskitOptimizationError("The type of Sense in {} is not supported".format(name))

        # Add a new equality constraint.
        new_linear = copy.deepcopy(linear)
        if var_added:
            new_linear[slack_name] = sign
        self._dst.linear_constraint(new_linear, "==", new_rhs, name)
"""
V=[
("pen_weight", L, [("""            constant = constraint.rhs
            row = constraint.linear.to_dict()
""","""            constant = constraint.rhs
            weight = sense * penalty
            row = constraint.linear.to_dict()
"""),("offset += sense * penalty * constant ** 2","offset += weight * constant * constant"),("sense * penalty * -2 * coef * constant","-2 * weight * constant * coef"),("sense * penalty * coef_1 * coef_2","weight * (coef_1 * coef_2)")]),
("pen_items", L, [(PENQ,"""            entries = list(row.items())
            for j, coef_1 in entries:
                for k, coef_2 in entries:
                    if (j, k) not in quadratic:
                        quadratic[(j, k)] = 0.0
                    quadratic[(j, k)] += sense * penalty * coef_1 * coef_2
""")]),
("pen_ifin", L, [(PENV,"""            for j, coef in row.items():
                shift = -2 * sense * penalty * coef * constant
                if j in linear:
                    linear[j] += shift
                else:
                    linear[j] = shift
""")]),
("pen_product", L, [(PENQ,"""            for (j, coef_1), (k, coef_2) in itertools.product(row.items(), repeat=2):
                quadratic[(j, k)] = quadratic.get((j, k), 0.0) + sense * penalty * coef_1 * coef_2
"""),("import copy\n","import copy\nimport itertools\n")]),
("pen_swaploops", L, [(PENV,""),(PENQ,PENQ+PENV)]),
("pen_fused", L, [(PENV,""),(PENQ,"""            for j, coef_1 in row.items():
                linear[j] = linear.get(j, 0.0) - 2 * sense * penalty * coef_1 * constant
                for k, coef_2 in row.items():
                    quadratic[j, k] = quadratic.get((j, k), 0.0) + sense * penalty * coef_1 * coef_2
""")]),
("pen_helper_vars", L, [("""        for x in self._src.variables:
"""+VARL,"""        for x in self._src.variables:
            self._copy_variable(x)
"""),("""    def _auto_define_penalty(""","""    def _copy_variable(self, x):
        vartype = x.vartype
        if vartype == Variable.Type.BINARY:
            self._dst.binary_var(name=x.name)
            return
        if vartype == Variable.Type.INTEGER:
            self._dst.integer_var(x.lowerbound, x.upperbound, x.name)
            return
        if vartype == Variable.Type.CONTINUOUS:
            self._dst.continuous_var(x.lowerbound, x.upperbound, x.name)
            return
        raise QiskitOptimizationError("Unsupported vartype: {}".format(vartype))

    def _auto_define_penalty(""")]),
("pen_helper_static", L, [("""            # constant parts of penalty*(Constant-func)**2: penalty*(Constant**2)
            offset += sense * penalty * constant ** 2

            # linear parts of penalty*(Constant-func)**2: penalty*(-2*Constant*func)
"""+PENV+"""
            # quadratic parts of penalty*(Constant-func)**2: penalty*(func**2)
"""+PENQ,"""            offset += self._penalize(row, constant, sense * penalty, linear, quadratic)
"""),("""    def _auto_define_penalty(""","""    @staticmethod
    def _penalize(row, constant, factor, linear, quadratic):
        for j, coef in row.items():
            linear[j] = linear.get(j, 0.0) - 2 * factor * coef * constant
        for j, coef_1 in row.items():
            for k, coef_2 in row.items():
                quadratic[j, k] = quadratic.get((j, k), 0.0) + factor * coef_1 * coef_2
        return factor * constant ** 2

    def _auto_define_penalty(""")]),
("pen_auto_loop", L, [("""        terms = []
        for constraint in self._src.linear_constraints:
            terms.append(constraint.rhs)
            terms.extend(coef for coef in constraint.linear.to_dict().values())
        if any(isinstance(term, float) and not term.is_integer() for term in terms):
""","""        has_float = False
        for constraint in self._src.linear_constraints:
            for term in [constraint.rhs, *constraint.linear.to_dict().values()]:
                if isinstance(term, float) and not term.is_integer():
                    has_float = True
                    break
        if has_float:
""")]),
("pen_auto_loop2", L, [("""        terms = []
        for constraint in self._src.linear_constraints:
            terms.append(constraint.rhs)
            terms.extend(coef for coef in constraint.linear.to_dict().values())
        if any(isinstance(term, float) and not term.is_integer() for term in terms):
""","""        def is_fractional(value):
            return isinstance(value, float) and not value.is_integer()

        if any(
            is_fractional(constraint.rhs)
            or any(is_fractional(coef) for coef in constraint.linear.to_dict().values())
            for constraint in self._src.linear_constraints
        ):
""")]),
("pen_auto_sum", L, [("""        penalties = [1.0]
        # add linear terms of the object function.
        penalties.extend(abs(coef) for coef in self._src.objective.linear.to_dict().values())
        # add quadratic terms of the object function.
        penalties.extend(abs(coef) for coef in self._src.objective.quadratic.to_dict().values())

        return fsum(penalties)
""","""        objective = self._src.objective
        bound = fsum(abs(coef) for coef in objective.linear.to_dict().values())
        bound += fsum(abs(coef) for coef in objective.quadratic.to_dict().values())
        return 1.0 + bound
""")]),
("pen_auto_loop3", L, [("""        penalties = [1.0]
        # add linear terms of the object function.
        penalties.extend(abs(coef) for coef in self._src.objective.linear.to_dict().values())
        # add quadratic terms of the object function.
        penalties.extend(abs(coef) for coef in self._src.objective.quadratic.to_dict().values())

        return fsum(penalties)
""","""        penalties = [1.0]
        for part in (self._src.objective.linear, self._src.objective.quadratic):
            for coef in part.to_dict().values():
                penalties.append(abs(coef))
        return fsum(penalties)
""")]),
("pen_setmin", L, [("""        if self._src.objective.sense == QuadraticObjective.Sense.MINIMIZE:
            self._dst.minimize(offset, linear, quadratic)
        else:
            self._dst.maximize(offset, linear, quadratic)
""","""        set_objective = (
            self._dst.minimize
            if self._src.objective.sense == QuadraticObjective.Sense.MINIMIZE
            else self._dst.maximize
        )
        set_objective(offset, linear, quadratic)
""")]),
("pen_vars_dict", L, [("if self._should_define_penalty:\n            penalty = self._auto_define_penalty()\n        else:\n            penalty = self._penalty","penalty = self._auto_define_penalty() if self._should_define_penalty else self._penalty"),
 ("for x in self._src.variables:","for x in problem.variables:")]),
("pen_precheck", L, [("""        for constraint in self._src.linear_constraints:

            if constraint.sense != Constraint.Sense.EQ:
                raise QiskitOptimizationError(
                    "An inequality constraint exists. "
                    "The method supports only equality constraints."
                )

            constant""","""        if any(con.sense != Constraint.Sense.EQ for con in self._src.linear_constraints):
            raise QiskitOptimizationError(
                "An inequality constraint exists. "
                "The method supports only equality constraints."
            )
        for constraint in self._src.linear_constraints:
            constant""")]),
("i2b_early", I, [("""        if self._src.get_num_integer_vars() > 0:

            # Initialize new QP
            self._dst = QuadraticProgram(name=problem.name)

            # Declare variables
            for x in self._src.variables:
                if x.vartype == Variable.Type.INTEGER:
                    new_vars = self._convert_var(x.name, x.lowerbound, x.upperbound)
                    self._conv[x] = new_vars
                    for (var_name, _) in new_vars:
                        self._dst.binary_var(var_name)
                else:
                    if x.vartype == Variable.Type.CONTINUOUS:
                        self._dst.continuous_var(x.lowerbound, x.upperbound, x.name)
                    elif x.vartype == Variable.Type.BINARY:
                        self._dst.binary_var(x.name)
                    else:
                        raise QiskitOptimizationError(
                            "Unsupported variable type {}".format(x.vartype)
                        )

            self._substitute_int_var()

        else:
            # just copy the problem if no integer variables exist
            self._dst = copy.deepcopy(problem)

        return self._dst
""","""        if self._src.get_num_integer_vars() == 0:
            self._dst = copy.deepcopy(problem)
            return self._dst

        self._dst = QuadraticProgram(name=problem.name)
        for x in self._src.variables:
            if x.vartype == Variable.Type.CONTINUOUS:
                self._dst.continuous_var(x.lowerbound, x.upperbound, x.name)
            elif x.vartype == Variable.Type.BINARY:
                self._dst.binary_var(x.name)
            elif x.vartype == Variable.Type.INTEGER:
                self._conv[x] = self._convert_var(x.name, x.lowerbound, x.upperbound)
                for aux in self._conv[x]:
                    self._dst.binary_var(aux[0])
            else:
                raise QiskitOptimizationError("Unsupported variable type {}".format(x.vartype))
        self._substitute_int_var()
        return self._dst
""")]),
("i2b_coeffs_loop", I, [("""        coeffs = [2 ** i for i in range(power)] + [bounded_coef]
        return [(name + self._delimiter + str(i), coef) for i, coef in enumerate(coeffs)]
""","""        new_vars = []
        for i in range(power):
            new_vars.append((f"{name}{self._delimiter}{i}", 2 ** i))
        new_vars.append((f"{name}{self._delimiter}{power}", bounded_coef))
        return new_vars
""")]),
("i2b_coeffs_append", I, [("""        coeffs = [2 ** i for i in range(power)] + [bounded_coef]
        return [(name + self._delimiter + str(i), coef) for i, coef in enumerate(coeffs)]
""","""        coeffs = [1 << i for i in range(power)]
        coeffs.append(bounded_coef)
        names = [name + self._delimiter + str(i) for i in range(len(coeffs))]
        return list(zip(names, coeffs))
""")]),
("i2b_linear_cont", I, [("""            x = self._src.get_variable(name)
            if x in self._conv:
                for y, coeff in self._conv[x]:
                    linear[y] = v * coeff
                constant += v * x.lowerbound
            else:
                linear[x.name] = v
""","""            x = self._src.get_variable(name)
            if x not in self._conv:
                linear[name] = v
                continue
            linear.update({y: v * coeff for y, coeff in self._conv[x]})
            constant += v * x.lowerbound
""")]),
("i2b_quad_nested", I, [("""            if x in self._conv and y not in self._conv:
""","""            x_int, y_int = x in self._conv, y in self._conv
            if x_int and not y_int:
"""),("""            elif x not in self._conv and y in self._conv:
""","""            elif not x_int and y_int:
"""),("""            elif x in self._conv and y in self._conv:
""","""            elif x_int:
""")]),
("i2b_quad_nested2", I, [("""            if x in self._conv and y not in self._conv:
                for z_x, coeff_x in self._conv[x]:
                    quadratic[z_x, y.name] = v * coeff_x
                linear[y.name] = linear.get(y.name, 0.0) + v * x.lowerbound

            elif x not in self._conv and y in self._conv:
                for z_y, coeff_y in self._conv[y]:
                    quadratic[x.name, z_y] = v * coeff_y
                linear[x.name] = linear.get(x.name, 0.0) + v * y.lowerbound

            elif x in self._conv and y in self._conv:
                for z_x, coeff_x in self._conv[x]:
                    for z_y, coeff_y in self._conv[y]:
                        quadratic[z_x, z_y] = v * coeff_x * coeff_y

                for z_x, coeff_x in self._conv[x]:
                    linear[z_x] = linear.get(z_x, 0.0) + v * coeff_x * y.lowerbound
                for z_y, coeff_y in self._conv[y]:
                    linear[z_y] = linear.get(z_y, 0.0) + v * coeff_y * x.lowerbound

                constant += v * x.lowerbound * y.lowerbound

            else:
                quadratic[x.name, y.name] = v
""","""            if x in self._conv:
                if y in self._conv:
                    for z_x, coeff_x in self._conv[x]:
                        for z_y, coeff_y in self._conv[y]:
                            quadratic[z_x, z_y] = v * coeff_x * coeff_y

                    for z_x, coeff_x in self._conv[x]:
                        linear[z_x] = linear.get(z_x, 0.0) + v * coeff_x * y.lowerbound
                    for z_y, coeff_y in self._conv[y]:
                        linear[z_y] = linear.get(z_y, 0.0) + v * coeff_y * x.lowerbound

                    constant += v * x.lowerbound * y.lowerbound
                else:
                    for z_x, coeff_x in self._conv[x]:
                        quadratic[z_x, y.name] = v * coeff_x
                    linear[y.name] = linear.get(y.name, 0.0) + v * x.lowerbound
            elif y in self._conv:
                for z_y, coeff_y in self._conv[y]:
                    quadratic[x.name, z_y] = v * coeff_y
                linear[x.name] = linear.get(x.name, 0.0) + v * y.lowerbound
            else:
                quadratic[x.name, y.name] = v
""")]),
("i2b_quad_addto", I, [("""        for (name_i, name_j), v in coefficients.items():
            x = self._src""","""        def add(name, value):
            linear[name] = linear.get(name, 0.0) + value

        for (name_i, name_j), v in coefficients.items():
            x = self._src"""),("linear[y.name] = linear.get(y.name, 0.0) + v * x.lowerbound","add(y.name, v * x.lowerbound)"),("linear[x.name] = linear.get(x.name, 0.0) + v * y.lowerbound","add(x.name, v * y.lowerbound)"),("linear[z_x] = linear.get(z_x, 0.0) + v * coeff_x * y.lowerbound","add(z_x, v * coeff_x * y.lowerbound)"),("linear[z_y] = linear.get(z_y, 0.0) + v * coeff_y * x.lowerbound","add(z_y, v * coeff_y * x.lowerbound)")]),
("i2b_subst_helper", I, [("""            linear, linear_constant = self._convert_linear_coefficients_dict(
                constraint.linear.to_dict(use_name=True)
            )
            quadratic, q_linear, q_constant = self._convert_quadratic_coefficients_dict(
                constraint.quadratic.to_dict(use_name=True)
            )

            constant = linear_constant + q_constant
            for i, v in q_linear.items():
                linear[i] = linear.get(i, 0) + v
""","""            constant, linear, quadratic = self._convert_terms(constraint)
"""),("""        linear, linear_constant = self._convert_linear_coefficients_dict(
            self._src.objective.linear.to_dict(use_name=True)
        )
        quadratic, q_linear, q_constant, = self._convert_quadratic_coefficients_dict(
            self._src.objective.quadratic.to_dict(use_name=True)
        )

        constant = self._src.objective.constant + linear_constant + q_constant
        for i, v in q_linear.items():
            linear[i] = linear.get(i, 0) + v
""","""        constant, linear, quadratic = self._convert_terms(self._src.objective)
        constant += self._src.objective.constant
"""),("""    def _substitute_int_var(self):
""","""    def _convert_terms(self, element):
        linear, constant = self._convert_linear_coefficients_dict(
            element.linear.to_dict(use_name=True)
        )
        quadratic, extra, offset = self._convert_quadratic_coefficients_dict(
            element.quadratic.to_dict(use_name=True)
        )
        for name, value in extra.items():
            linear[name] = linear.get(name, 0) + value
        return constant + offset, linear, quadratic

    def _substitute_int_var(self):
""")]),
("i2b_interp", I, [("""        sol = {var.name: x[i] for i, var in enumerate(self._dst.variables)}
        new_x = np.zeros(self._src.get_num_vars())
        for i, var in enumerate(self._src.variables):
            if var in self._conv:
                new_x[i] = sum(sol[aux] * coef for aux, coef in self._conv[var]) + var.lowerbound
            else:
                new_x[i] = sol[var.name]
        return np.array(new_x)""","""        sol = {}
        for i, var in enumerate(self._dst.variables):
            sol[var.name] = x[i]
        new_x = np.zeros(self._src.get_num_vars())
        for i, var in enumerate(self._src.variables):
            if var not in self._conv:
                new_x[i] = sol[var.name]
                continue
            value = var.lowerbound
            for aux, coef in self._conv[var]:
                value += sol[aux] * coef
            new_x[i] = value
        return new_x""")]),
("i2b_interp2", I, [("""        new_x = np.zeros(self._src.get_num_vars())
        for i, var in enumerate(self._src.variables):
            if var in self._conv:
                new_x[i] = sum(sol[aux] * coef for aux, coef in self._conv[var]) + var.lowerbound
            else:
                new_x[i] = sol[var.name]
        return np.array(new_x)""","""        def decode(var):
            if var in self._conv:
                return var.lowerbound + sum(coef * sol[aux] for aux, coef in self._conv[var])
            return sol[var.name]

        return np.array([decode(var) for var in self._src.variables], dtype=float)""")]),
("i2e_slack_flag", Q, [(SLK,"""        if sense == Constraint.Sense.LE:
            sign, var_ub = 1, new_rhs - lhs_lb
        elif sense == Constraint.Sense.GE:
            sign, var_ub = -1, lhs_ub - new_rhs
        else:
            raise QiskitOptimizationError("The type of Sense in {} is not supported".format(name))

        # Add a new equality constraint.
        new_linear = copy.deepcopy(linear)
        if var_ub > 0:
            self._dst.integer_var(name=slack_name, lowerbound=0, upperbound=var_ub)
            new_linear[slack_name] = sign
        self._dst.linear_constraint(new_linear, "==", new_rhs, name)
""")]),
("i2e_slack_dict", Q, [(SLK,"""        if sense not in (Constraint.Sense.LE, Constraint.Sense.GE):
            raise QiskitOptimizationError("The type of Sense in {} is not supported".format(name))
        is_le = sense == Constraint.Sense.LE
        var_ub = new_rhs - lhs_lb if is_le else lhs_ub - new_rhs
        new_linear = dict(linear)
        if var_ub > 0:
            self._dst.integer_var(lowerbound=0, upperbound=var_ub, name=slack_name)
            new_linear[slack_name] = 1 if is_le else -1
        self._dst.linear_constraint(new_linear, Constraint.Sense.EQ, new_rhs, name)
""")]),
("i2e_round", Q, [("""        new_rhs = rhs
        if sense == Constraint.Sense.LE:
            new_rhs = math.floor(rhs)
        if sense == Constraint.Sense.GE:
            new_rhs = math.ceil(rhs)

        # Add a new integer variable.
        slack_name = name + self._delimiter + "int_slack"

        lhs_lb, lhs_ub = self._calc_linear_bounds(linear)
""","""        new_rhs = self._round_rhs(sense, rhs)
        slack_name = f"{name}{self._delimiter}int_slack"
        lhs_lb, lhs_ub = self._calc_linear_bounds(linear)
"""),("""    def _add_auto_slack_var_linear_constraint(self, linear""","""    @staticmethod
    def _round_rhs(sense, rhs):
        if sense == Constraint.Sense.LE:
            return math.floor(rhs)
        if sense == Constraint.Sense.GE:
            return math.ceil(rhs)
        return rhs

    def _add_auto_slack_var_linear_constraint(self, linear""")]),
("i2e_bounds", Q, [("""            lhs_lb += min(x.lowerbound * v, x.upperbound * v)
            lhs_ub += max(x.lowerbound * v, x.upperbound * v)
""","""            if v >= 0:
                lhs_lb += x.lowerbound * v
                lhs_ub += x.upperbound * v
            else:
                lhs_lb += x.upperbound * v
                lhs_ub += x.lowerbound * v
""")]),
("i2e_bounds2", Q, [("""            lhs_lb += min(x.lowerbound * v, x.upperbound * v)
            lhs_ub += max(x.lowerbound * v, x.upperbound * v)
""","""            ends = [x.lowerbound * v, x.upperbound * v]
            lhs_lb += min(ends)
            lhs_ub += max(ends)
""")]),
("i2e_bounds3", Q, [("""            lhs_lb += min(x.lowerbound * v, x.upperbound * v)
            lhs_ub += max(x.lowerbound * v, x.upperbound * v)
""","""            low, high = sorted((x.lowerbound * v, x.upperbound * v))
            lhs_lb += low
            lhs_ub += high
""")]),
("i2e_qbounds", Q, [("""            lhs_lb += min(
                x.lowerbound * y.lowerbound * v,
                x.lowerbound * y.upperbound * v,
                x.upperbound * y.lowerbound * v,
                x.upperbound * y.upperbound * v,
            )
            lhs_ub += max(
                x.lowerbound * y.lowerbound * v,
                x.lowerbound * y.upperbound * v,
                x.upperbound * y.lowerbound * v,
                x.upperbound * y.upperbound * v,
            )
""","""            corners = [
                b_x * b_y * v
                for b_x in (x.lowerbound, x.upperbound)
                for b_y in (y.lowerbound, y.upperbound)
            ]
            lhs_lb += min(corners)
            lhs_ub += max(corners)
""")]),
("i2e_qb_init", Q, [("""        lhs_lb, lhs_ub = 0, 0
        # Calculate the lowerbound and the upperbound of the linear part
        linear_lb, linear_ub = self._calc_linear_bounds(linear)
        lhs_lb += linear_lb
        lhs_ub += linear_ub
""","""        lhs_lb, lhs_ub = self._calc_linear_bounds(linear)
""")]),
("i2e_dispatch", Q, [("""                if mode == "integer":
                    self._add_integer_slack_var_linear_constraint(
                        linear, l_constraint.sense, l_constraint.rhs, l_constraint.name
                    )
                elif mode == "continuous":
                    self._add_continuous_slack_var_linear_constraint(
                        linear, l_constraint.sense, l_constraint.rhs, l_constraint.name
                    )
                elif mode == "auto":
                    self._add_auto_slack_var_linear_constraint(
                        linear, l_constraint.sense, l_constraint.rhs, l_constraint.name
                    )
                else:
                    raise QiskitOptimizationError("Unsupported mode is selected: {}".format(mode))
""","""                if mode == "integer":
                    add_constraint = self._add_integer_slack_var_linear_constraint
                elif mode == "continuous":
                    add_constraint = self._add_continuous_slack_var_linear_constraint
                elif mode == "auto":
                    add_constraint = self._add_auto_slack_var_linear_constraint
                else:
                    raise QiskitOptimizationError("Unsupported mode is selected: {}".format(mode))
                add_constraint(linear, l_constraint.sense, l_constraint.rhs, l_constraint.name)
""")]),
("i2e_dispatch2", Q, [("""                if mode == "integer":
                    self._add_integer_slack_var_linear_constraint(
                        linear, l_constraint.sense, l_constraint.rhs, l_constraint.name
                    )
                elif mode == "continuous":
                    self._add_continuous_slack_var_linear_constraint(
                        linear, l_constraint.sense, l_constraint.rhs, l_constraint.name
                    )
                elif mode == "auto":
                    self._add_auto_slack_var_linear_constraint(
                        linear, l_constraint.sense, l_constraint.rhs, l_constraint.name
                    )
                else:
                    raise QiskitOptimizationError("Unsupported mode is selected: {}".format(mode))
""","""                handlers = {
                    "integer": self._add_integer_slack_var_linear_constraint,
                    "continuous": self._add_continuous_slack_var_linear_constraint,
                    "auto": self._add_auto_slack_var_linear_constraint,
                }
                if mode not in handlers:
                    raise QiskitOptimizationError("Unsupported mode is selected: {}".format(mode))
                handlers[mode](linear, l_constraint.sense, l_constraint.rhs, l_constraint.name)
""")]),
("i2e_contains", Q, [("""        return any(
            self._src.get_variable(name).vartype == Variable.Type.CONTINUOUS for name in names
        )
""","""        for name in names:
            if self._src.get_variable(name).vartype == Variable.Type.CONTINUOUS:
                return True
        return False
"""),("""        return any(isinstance(v, float) and not v.is_integer() for v in values)  # type: ignore
""","""        for value in values:
            if isinstance(value, float) and not value.is_integer():
                return True
        return False
""")]),
("i2e_contains2", Q, [("""        return any(isinstance(v, float) and not v.is_integer() for v in values)  # type: ignore
""","""        return not all(not isinstance(v, float) or v.is_integer() for v in values)
"""),("""            self._contains_any_float_value(list(linear.values()))
            or self._contains_any_float_value(list(quadratic.values()))
            or self._contains_any_continuous_var(linear)
            or self._contains_any_continuous_var(name_i for pair in quadratic for name_i in pair)
        ):""","""            self._contains_any_continuous_var(linear)
            or self._contains_any_continuous_var([name for pair in quadratic for name in pair])
            or self._contains_any_float_value(list(linear.values()) + list(quadratic.values()))
        ):""")]),
("i2e_interp", Q, [("""        names = [var.name for var in self._dst.variables]

        # interpret slack variables
        sol = {name: x[i] for i, name in enumerate(names)}
        new_x = np.zeros(self._src.get_num_vars())
        for i, var in enumerate(self._src.variables):
            new_x[i] = sol[var.name]
        return new_x
""","""        index = {var.name: i for i, var in enumerate(self._dst.variables)}
        return np.array([x[index[var.name]] for var in self._src.variables], dtype=float)
""")]),
("i2e_interp2", Q, [("""        names = [var.name for var in self._dst.variables]

        # interpret slack variables
        sol = {name: x[i] for i, name in enumerate(names)}
""","""        sol = dict(zip((var.name for var in self._dst.variables), x))
""")]),
("qubo_msgs", U, [("""        # initialize message
        msg = ""
        # check whether there are incompatible variable types
        if problem.get_num_continuous_vars() > 0:
            msg += "Continuous variables are not supported! "

        # check whether there are incompatible constraint types
        if len(problem.quadratic_constraints) > 0:
            msg += "Quadratic constraints are not supported. "
""","""        parts = []
        if problem.get_num_continuous_vars() > 0:
            parts.append("Continuous variables are not supported! ")
        if len(problem.quadratic_constraints) > 0:
            parts.append("Quadratic constraints are not supported. ")
"""),("""            msg += "Can not""","""            parts.append("Can not"""),("""float coefficients are in constraints. \"
""","""float coefficients are in constraints. ")
"""),("        return msg\n","        return \"\".join(parts)\n")]),
("qubo_helper", U, [("""        for l_constraint in problem.linear_constraints:
            linear = l_constraint.linear.to_dict()
            if any(isinstance(coef, float) and not coef.is_integer() for coef in linear.values()):
                compatible_with_integer_slack = False
        for q_constraint in problem.quadratic_constraints:
            linear = q_constraint.linear.to_dict()
            quadratic = q_constraint.quadratic.to_dict()
            if any(
                isinstance(coef, float) and not coef.is_integer() for coef in quadratic.values()
            ) or any(isinstance(coef, float) and not coef.is_integer() for coef in linear.values()):
                compatible_with_integer_slack = False
""","""        def has_float(expression):
            return any(
                isinstance(coef, float) and not coef.is_integer()
                for coef in expression.to_dict().values()
            )

        for l_constraint in problem.linear_constraints:
            if has_float(l_constraint.linear):
                compatible_with_integer_slack = False
                break
        if any(
            has_float(con.linear) or has_float(con.quadratic) for con in problem.quadratic_constraints
        ):
            compatible_with_integer_slack = False
""")]),
("qubo_loop", U, [("""        # Convert inequality constraints into equality constraints by adding slack variables
        problem_ = self._ineq_to_eq.convert(problem)

        # Map integer variables to binary variables
        problem_ = self._int_to_bin.convert(problem_)

        # Penalize linear equality constraints with only binary variables
        problem_ = self._penalize_lin_eq_constraints.convert(problem_)

        # Return QUBO
        return problem_
""","""        for converter in (self._ineq_to_eq, self._int_to_bin, self._penalize_lin_eq_constraints):
            problem = converter.convert(problem)
        return problem
"""),("""        if len(msg) > 0:
            raise""","""        if msg:
            raise""")]),
("qubo_compat", U, [("return len(self.get_compatibility_msg(problem)) == 0","return not self.get_compatibility_msg(problem)"),("""        x = self._penalize_lin_eq_constraints.interpret(x)
        x = self._int_to_bin.interpret(x)
        x = self._ineq_to_eq.interpret(x)
        return x
""","""        binary = self._penalize_lin_eq_constraints.interpret(x)
        return self._ineq_to_eq.interpret(self._int_to_bin.interpret(binary))
""")]),
]
