import numpy as np
from qiskit_optimization.problems.quadratic_program import QuadraticProgram
from qiskit_optimization.problems.variable import Variable
from qiskit_optimization.problems.constraint import Constraint
from qiskit_optimization.problems.quadratic_objective import QuadraticObjective
from qiskit_optimization.problems.linear_expression import LinearExpression
from qiskit_optimization.problems.quadratic_expression import QuadraticExpression
from qiskit_optimization.problems.linear_constraint import LinearConstraint
from qiskit_optimization.problems.quadratic_constraint import QuadraticConstraint


def new_program(name: str):
    return QuadraticProgram(name)


def clear_program(p: QuadraticProgram):
    p.clear()
    return p


# ---- registry of variables
def add_continuous(p: QuadraticProgram, lb: float, ub: float, name: str):
    v = p.continuous_var(lb, ub, name)
    return p.variables, p.variables_index, v


def add_continuous_default(p: QuadraticProgram):
    v = p.continuous_var()
    return p.variables, p.variables_index, v


def add_integer(p: QuadraticProgram, lb: float, ub: float, name: str):
    v = p.integer_var(lb, ub, name)
    return p.variables, p.variables_index, v


def add_integer_default(p: QuadraticProgram):
    v = p.integer_var()
    return p.variables, p.variables_index, v


def add_binary(p: QuadraticProgram, name: str):
    v = p.binary_var(name)
    return p.variables, p.variables_index, v


def add_binary_default(p: QuadraticProgram):
    v = p.binary_var()
    return p.variables, p.variables_index, v


def add_two(lb: float, ub: float, n1: str, n2: str):
    p = QuadraticProgram()
    p.continuous_var(lb, ub, n1)
    p.integer_var(lb, ub, n2)
    return p.variables, p.variables_index


def continuous_dict(p: QuadraticProgram, keys, lb: float, ub: float, name: str, fmt: str):
    d = p.continuous_var_dict(keys, lb, ub, name, fmt)
    return d, p.variables, p.variables_index


def continuous_list(p: QuadraticProgram, keys, lb: float, ub: float, name: str, fmt: str):
    d = p.continuous_var_list(keys, lb, ub, name, fmt)
    return d, p.variables, p.variables_index


def integer_dict(p: QuadraticProgram, keys, lb: float, ub: float, name: str, fmt: str):
    d = p.integer_var_dict(keys, lb, ub, name, fmt)
    return d, p.variables, p.variables_index


def integer_list(p: QuadraticProgram, keys, lb: float, ub: float, name: str, fmt: str):
    d = p.integer_var_list(keys, lb, ub, name, fmt)
    return d, p.variables, p.variables_index


def binary_dict(p: QuadraticProgram, keys, name: str, fmt: str):
    d = p.binary_var_dict(keys, name, fmt)
    return d, p.variables, p.variables_index


def binary_list(p: QuadraticProgram, keys, name: str, fmt: str):
    d = p.binary_var_list(keys, name, fmt)
    return d, p.variables, p.variables_index


def list_by_count(p: QuadraticProgram, n: int, name: str):
    d = p.binary_var_list(n, name)
    return d, p.variables, p.variables_index


def list_by_names(p: QuadraticProgram, names: list, name: str):
    d = p.integer_var_list(names, 1, 7, name)
    return d, p.variables, p.variables_index


def lookup_variable(p: QuadraticProgram, i: int, name: str):
    return p.get_variable(i), p.get_variable(name)


def counts(p: QuadraticProgram):
    return (p.get_num_vars(), p.get_num_continuous_vars(), p.get_num_binary_vars(), p.get_num_integer_vars(),
            p.get_num_linear_constraints(), p.get_num_quadratic_constraints())


def count_type(p: QuadraticProgram, t: Variable.Type):
    return p.get_num_vars(t)


# ---- registry of constraints
def add_linear_constraint(p: QuadraticProgram, linear, sense, rhs: float, name: str):
    c = p.linear_constraint(linear, sense, rhs, name)
    return c, p.linear_constraints, p.linear_constraints_index, p.quadratic_constraints, p.variables


def add_linear_constraint_default(p: QuadraticProgram):
    c = p.linear_constraint()
    return c, p.linear_constraints, p.linear_constraints_index, p.quadratic_constraints, p.variables


def add_quadratic_constraint(p: QuadraticProgram, linear, quadratic, sense, rhs: float, name: str):
    c = p.quadratic_constraint(linear, quadratic, sense, rhs, name)
    return c, p.quadratic_constraints, p.quadratic_constraints_index, p.linear_constraints, p.variables


def add_quadratic_constraint_default(p: QuadraticProgram):
    c = p.quadratic_constraint()
    return c, p.quadratic_constraints, p.quadratic_constraints_index, p.linear_constraints, p.variables


def lookup_constraints(p: QuadraticProgram, i: int, name: str):
    return (p.get_linear_constraint(i), p.get_linear_constraint(name),
            p.get_quadratic_constraint(i), p.get_quadratic_constraint(name))


def remove_linear_by_index(p: QuadraticProgram, i: int):
    p.remove_linear_constraint(i)
    return p.linear_constraints, p.linear_constraints_index, p.quadratic_constraints, p.quadratic_constraints_index


def remove_linear_by_name(p: QuadraticProgram, i: str):
    p.remove_linear_constraint(i)
    return p.linear_constraints, p.linear_constraints_index, p.quadratic_constraints, p.quadratic_constraints_index


def remove_quadratic_by_index(p: QuadraticProgram, i: int):
    p.remove_quadratic_constraint(i)
    return p.linear_constraints, p.linear_constraints_index, p.quadratic_constraints, p.quadratic_constraints_index


def remove_quadratic_by_name(p: QuadraticProgram, i: str):
    p.remove_quadratic_constraint(i)
    return p.linear_constraints, p.linear_constraints_index, p.quadratic_constraints, p.quadratic_constraints_index


# ---- bounds
def new_variable(p: QuadraticProgram, name: str, lb: float, ub: float, t: Variable.Type):
    v = Variable(p, name, lb, ub, t)
    return v.name, v.lowerbound, v.upperbound, v.vartype, v.as_tuple()


def default_variable(p: QuadraticProgram, name: str):
    v = Variable(p, name)
    return v.as_tuple()


def set_lower(v: Variable, b: float):
    v.lowerbound = b
    return v.lowerbound, v.upperbound


def set_upper(v: Variable, b: float):
    v.upperbound = b
    return v.lowerbound, v.upperbound


def set_both(p: QuadraticProgram, name: str, lb: float, ub: float, b: float, c: float):
    v = Variable(p, name, lb, ub)
    v.lowerbound = b
    v.upperbound = c
    return v.as_tuple()


def set_vartype(p: QuadraticProgram, name: str, t: Variable.Type):
    v = Variable(p, name)
    v.vartype = t
    return v.as_tuple()


# ---- senses
def sense_text(s: str):
    return Constraint.Sense.convert(s)


def sense_member(s: Constraint.Sense):
    return Constraint.Sense.convert(s)


# ---- objective
def minimize(p: QuadraticProgram, c: float, linear, quadratic):
    p.minimize(c, linear, quadratic)
    o = p.objective
    return o.constant, o.linear.coefficients, o.quadratic.coefficients, o.sense, o.quadratic_program is p


def maximize(p: QuadraticProgram, c: float, linear, quadratic):
    p.maximize(c, linear, quadratic)
    o = p.objective
    return o.constant, o.linear.coefficients, o.quadratic.coefficients, o.sense, o.quadratic_program is p


def minimize_default(p: QuadraticProgram):
    p.minimize()
    o = p.objective
    return o.constant, o.linear.coefficients, o.quadratic.coefficients, o.sense


def objective_setters(p: QuadraticProgram, c: float, linear, quadratic, s: QuadraticObjective.Sense):
    o = QuadraticObjective(p)
    o.constant = c
    o.linear = linear
    o.quadratic = quadratic
    o.sense = s
    return o.constant, o.linear.coefficients, o.quadratic.coefficients, o.sense


def objective_value(o: QuadraticObjective, x):
    return o.evaluate(x), o.evaluate_gradient(x)


def linear_constraint_value(c: LinearConstraint, x):
    return c.evaluate(x)


def quadratic_constraint_value(c: QuadraticConstraint, x):
    return c.evaluate(x)


def linear_constraint_fields(p: QuadraticProgram, name: str, linear, s: Constraint.Sense, rhs: float, linear2,
                             s2: Constraint.Sense, rhs2: float):
    c = LinearConstraint(p, name, linear, s, rhs)
    a = (c.name, c.linear.coefficients, c.sense, c.rhs)
    c.linear = linear2
    c.sense = s2
    c.rhs = rhs2
    return a, (c.name, c.linear.coefficients, c.sense, c.rhs)


def quadratic_constraint_fields(p: QuadraticProgram, name: str, linear, quadratic, s: Constraint.Sense, rhs: float,
                                linear2, quadratic2, s2: Constraint.Sense, rhs2: float):
    c = QuadraticConstraint(p, name, linear, quadratic, s, rhs)
    a = (c.name, c.linear.coefficients, c.quadratic.coefficients, c.sense, c.rhs)
    c.linear = linear2
    c.quadratic = quadratic2
    c.sense = s2
    c.rhs = rhs2
    return a, (c.name, c.linear.coefficients, c.quadratic.coefficients, c.sense, c.rhs)


# ---- expressions
def linear_from_any(p: QuadraticProgram, c):
    e = LinearExpression(p, c)
    return e.coefficients


def linear_from_dict(p: QuadraticProgram, c: dict):
    e = LinearExpression(p, c)
    return e.coefficients


def linear_views(e: LinearExpression):
    return e.to_array(), e.to_dict(), e.to_dict(use_name=True)


def linear_get(e: LinearExpression, i: int, name: str):
    return e[i], e[name]


def linear_set(e: LinearExpression, i: int, value: float):
    e[i] = value
    return e.coefficients


def linear_set_name(e: LinearExpression, i: str, value: float):
    e[i] = value
    return e.coefficients


def linear_eval(e: LinearExpression, x):
    return e.evaluate(x), e.evaluate_gradient(x)


def quadratic_from_any(p: QuadraticProgram, c):
    e = QuadraticExpression(p, c)
    return e.coefficients


def quadratic_from_dict(p: QuadraticProgram, c: dict):
    e = QuadraticExpression(p, c)
    return e.coefficients


def quadratic_views(e: QuadraticExpression):
    return (e.to_array(), e.to_array(symmetric=True), e.to_dict(), e.to_dict(symmetric=True),
            e.to_dict(use_name=True), e.to_dict(symmetric=True, use_name=True))


def quadratic_get(e: QuadraticExpression, i: int, j: int, a: str, b: str):
    return e[i, j], e[a, b], e[i, b]


def quadratic_set(e: QuadraticExpression, i: int, j: int, value: float):
    e[i, j] = value
    return e.coefficients


def quadratic_set_name(e: QuadraticExpression, i: str, j: str, value: float):
    e[i, j] = value
    return e.coefficients


def quadratic_eval(e: QuadraticExpression, x):
    return e.evaluate(x), e.evaluate_gradient(x)


# ---- feasibility
def feasibility(p: QuadraticProgram, v: np.ndarray):
    x = np.array([v[i] for i in range(p.get_num_vars())])
    return p.get_feasibility_info(x)


def feasible(p: QuadraticProgram, v: np.ndarray):
    x = np.array([v[i] for i in range(p.get_num_vars())])
    return p.is_feasible(x)


# ---- exchange formats
def from_docplex(model):
    p = QuadraticProgram()
    p.from_docplex(model)
    return p


def from_docplex_over(p: QuadraticProgram, model):
    p.from_docplex(model)
    return p


def to_docplex(p: QuadraticProgram):
    return p.to_docplex()


def lp_export(p: QuadraticProgram, f: str):
    p.write_to_lp_file(f)
    return p.export_as_lp_string(), repr(p)


def lp_import(p: QuadraticProgram, f: str):
    p.read_from_lp_file(f)
    return p


def to_ising(p: QuadraticProgram):
    return p.to_ising()


def from_ising(op, offset: float, linear: bool):
    p = QuadraticProgram()
    p.from_ising(op, offset, linear)
    return p


def from_ising_over(p: QuadraticProgram, op, offset: float, linear: bool):
    p.from_ising(op, offset, linear)
    return p


def substitute(p: QuadraticProgram, constants, variables):
    return p.substitute_variables(constants, variables)


def substitute_constants(p: QuadraticProgram, constants: dict):
    return p.substitute_variables(constants=constants)


def substitute_pairs(p: QuadraticProgram, variables: dict):
    return p.substitute_variables(variables=variables)
