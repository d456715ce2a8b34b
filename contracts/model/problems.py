"""Interface model of qiskit_optimization.problems used when the clients of that package are
analysed.  It is never imported: the analyser reads it in place of the real modules, whose own
behaviour is decided by the core properties (P01-P10)."""
from enum import Enum
from typing import Any, Dict, List, Optional, Tuple

import numpy as np

from docplex.mp.model import Model
from vg import app, autoname, linform, quadform, flag

INFINITY = 1e20


class QuadraticProgramStatus(Enum):
    VALID = 0
    INFEASIBLE = 1


class VarType(Enum):
    CONTINUOUS = 0
    BINARY = 1
    INTEGER = 2


class ObjSense(Enum):
    MINIMIZE = 1
    MAXIMIZE = -1


class ConstraintSense(Enum):
    LE = 0
    GE = 1
    EQ = 2

    @staticmethod
    def convert(sense):
        if isinstance(sense, ConstraintSense):
            return sense
        if sense in ("==", "=", "E", "EQ"):
            return ConstraintSense.EQ
        if sense in ("<=", "<", "L", "LE"):
            return ConstraintSense.LE
        return ConstraintSense.GE


class QuadraticProgramElement:
    _vg_hidden = ["quadratic_program"]


class Variable(QuadraticProgramElement):
    Type = VarType
    name: str
    lowerbound: float
    upperbound: float
    vartype: VarType

    def __init__(self, quadratic_program, name, lowerbound=0, upperbound=INFINITY, vartype=VarType.CONTINUOUS):
        self.quadratic_program = quadratic_program
        self.name = name
        self.lowerbound = lowerbound
        self.upperbound = upperbound
        self.vartype = vartype

    def as_tuple(self):
        return self.name, self.lowerbound, self.upperbound, self.vartype


class LinearExpression(QuadraticProgramElement):
    _vg_form = "lin"
    coef: Dict[str, num]
    quadratic_program: QuadraticProgram

    def __init__(self, quadratic_program, coefficients):
        self.quadratic_program = quadratic_program
        self.coef = linform(quadratic_program, coefficients)

    def __getitem__(self, i):
        if isinstance(i, str):
            return self.coef.get(i, 0)
        return self.coef.get(self.quadratic_program.variables[i].name, 0)

    def __setitem__(self, i, value):
        if isinstance(i, str):
            self.coef[i] = value
        else:
            self.coef[self.quadratic_program.variables[i].name] = value

    @property
    def coefficients(self):
        return app("lin.coefficients", self)

    def to_dict(self, use_name=False):
        if use_name:
            return dict(self.coef)
        return {self.quadratic_program.variables_index[k]: v for k, v in self.coef.items()}

    def to_array(self):
        return app("lin.to_array", self, self.quadratic_program.variables_index)

    def evaluate(self, x):
        return app("lin.evaluate", self, x)

    def evaluate_gradient(self, x):
        return app("lin.gradient", self, x)


class QuadraticExpression(QuadraticProgramElement):
    _vg_form = "quad"
    coef: Dict[Tuple[str, str], num]
    quadratic_program: QuadraticProgram

    def __init__(self, quadratic_program, coefficients):
        self.quadratic_program = quadratic_program
        self.coef = quadform(quadratic_program, coefficients)

    def __getitem__(self, key):
        return app("quad.getitem", self, key)

    def __setitem__(self, key, value):
        i, j = key
        if not isinstance(i, str):
            i = self.quadratic_program.variables[i].name
        if not isinstance(j, str):
            j = self.quadratic_program.variables[j].name
        self.coef[(i, j)] = value

    @property
    def coefficients(self):
        return app("quad.coefficients", self)

    def to_dict(self, symmetric=False, use_name=False):
        if symmetric:
            return app("quad.symmetric", self, use_name)
        if use_name:
            return dict(self.coef)
        return {
            (self.quadratic_program.variables_index[k[0]], self.quadratic_program.variables_index[k[1]]): v
            for k, v in self.coef.items()
        }

    def to_array(self, symmetric=False):
        return app("quad.to_array", self, symmetric)

    def evaluate(self, x):
        return app("quad.evaluate", self, x)

    def evaluate_gradient(self, x):
        return app("quad.gradient", self, x)


class QuadraticObjective(QuadraticProgramElement):
    Sense = ObjSense
    constant: num
    _lin: LinearExpression
    _quad: QuadraticExpression
    sense: ObjSense
    quadratic_program: QuadraticProgram

    def __init__(self, quadratic_program, constant=0.0, linear=None, quadratic=None, sense=ObjSense.MINIMIZE):
        self.quadratic_program = quadratic_program
        self.constant = constant
        self.linear = {} if linear is None else linear
        self.quadratic = {} if quadratic is None else quadratic
        self.sense = sense

    @property
    def linear(self) -> LinearExpression:
        return self._lin

    @linear.setter
    def linear(self, linear):
        self._lin = LinearExpression(self.quadratic_program, linear)

    @property
    def quadratic(self) -> QuadraticExpression:
        return self._quad

    @quadratic.setter
    def quadratic(self, quadratic):
        self._quad = QuadraticExpression(self.quadratic_program, quadratic)

    def evaluate(self, x):
        return self.constant + app("lin.evaluate", self.linear, x) + app("quad.evaluate", self.quadratic, x)

    def evaluate_gradient(self, x):
        return app("obj.gradient", self.linear, self.quadratic, x)


class Constraint(QuadraticProgramElement):
    Sense = ConstraintSense


class LinearConstraint(Constraint):
    Sense = ConstraintSense
    name: str
    sense: ConstraintSense
    rhs: num
    _lin: LinearExpression
    quadratic_program: QuadraticProgram

    def __init__(self, quadratic_program, name, linear, sense, rhs):
        self.quadratic_program = quadratic_program
        self.name = name
        self.sense = sense
        self.rhs = rhs
        self.linear = linear

    @property
    def linear(self) -> LinearExpression:
        return self._lin

    @linear.setter
    def linear(self, linear):
        self._lin = LinearExpression(self.quadratic_program, linear)

    def evaluate(self, x):
        return app("lin.evaluate", self.linear, x)


class QuadraticConstraint(Constraint):
    Sense = ConstraintSense
    name: str
    sense: ConstraintSense
    rhs: num
    _lin: LinearExpression
    _quad: QuadraticExpression
    quadratic_program: QuadraticProgram

    def __init__(self, quadratic_program, name, linear, quadratic, sense, rhs):
        self.quadratic_program = quadratic_program
        self.name = name
        self.sense = sense
        self.rhs = rhs
        self.linear = linear
        self.quadratic = quadratic

    @property
    def linear(self) -> LinearExpression:
        return self._lin

    @linear.setter
    def linear(self, linear):
        self._lin = LinearExpression(self.quadratic_program, linear)

    @property
    def quadratic(self) -> QuadraticExpression:
        return self._quad

    @quadratic.setter
    def quadratic(self, quadratic):
        self._quad = QuadraticExpression(self.quadratic_program, quadratic)

    def evaluate(self, x):
        return app("lin.evaluate", self.linear, x) + app("quad.evaluate", self.quadratic, x)


class QuadraticProgram:
    Status = QuadraticProgramStatus
    _vg_hidden = ["variables_index", "linear_constraints_index", "quadratic_constraints_index"]
    name: str
    status: QuadraticProgramStatus
    variables: List[Variable]
    variables_index: Dict[str, int]
    linear_constraints: List[LinearConstraint]
    linear_constraints_index: Dict[str, int]
    quadratic_constraints: List[QuadraticConstraint]
    quadratic_constraints_index: Dict[str, int]
    objective: QuadraticObjective

    def __init__(self, name=""):
        self.name = name
        self.clear_()

    def clear_(self):
        self.status = QuadraticProgramStatus.VALID
        self.variables = []
        self.variables_index = {}
        self.linear_constraints = []
        self.linear_constraints_index = {}
        self.quadratic_constraints = []
        self.quadratic_constraints_index = {}
        self.objective = QuadraticObjective(self)

    def clear(self):
        self.name = ""
        self.clear_()

    def _add_variable(self, lowerbound, upperbound, vartype, name):
        if name is None:
            name = autoname("x", len(self.variables))
        var = Variable(self, name, lowerbound, upperbound, vartype)
        self.variables_index[name] = len(self.variables)
        self.variables.append(var)
        return var

    def continuous_var(self, lowerbound=0, upperbound=INFINITY, name=None):
        return self._add_variable(lowerbound, upperbound, VarType.CONTINUOUS, name)

    def integer_var(self, lowerbound=0, upperbound=INFINITY, name=None):
        return self._add_variable(lowerbound, upperbound, VarType.INTEGER, name)

    def binary_var(self, name=None):
        return self._add_variable(0, 1, VarType.BINARY, name)

    def get_variable(self, i) -> Variable:
        if isinstance(i, int):
            return self.variables[i]
        return self.variables[self.variables_index[i]]

    def get_num_vars(self, vartype=None):
        if vartype:
            return sum(1 for v in self.variables if v.vartype == vartype)
        return len(self.variables)

    def get_num_continuous_vars(self):
        return self.get_num_vars(VarType.CONTINUOUS)

    def get_num_binary_vars(self):
        return self.get_num_vars(VarType.BINARY)

    def get_num_integer_vars(self):
        return self.get_num_vars(VarType.INTEGER)

    def linear_constraint(self, linear=None, sense="<=", rhs=0.0, name=None):
        if name is None:
            name = autoname("c", len(self.linear_constraints))
        con = LinearConstraint(self, name, {} if linear is None else linear, ConstraintSense.convert(sense), rhs)
        self.linear_constraints_index[name] = len(self.linear_constraints)
        self.linear_constraints.append(con)
        return con

    def quadratic_constraint(self, linear=None, quadratic=None, sense="<=", rhs=0.0, name=None):
        if name is None:
            name = autoname("q", len(self.quadratic_constraints))
        con = QuadraticConstraint(
            self, name, {} if linear is None else linear, {} if quadratic is None else quadratic,
            ConstraintSense.convert(sense), rhs)
        self.quadratic_constraints_index[name] = len(self.quadratic_constraints)
        self.quadratic_constraints.append(con)
        return con

    def get_linear_constraint(self, i):
        if isinstance(i, int):
            return self.linear_constraints[i]
        return self.linear_constraints[self.linear_constraints_index[i]]

    def get_quadratic_constraint(self, i):
        if isinstance(i, int):
            return self.quadratic_constraints[i]
        return self.quadratic_constraints[self.quadratic_constraints_index[i]]

    def get_num_linear_constraints(self):
        return len(self.linear_constraints)

    def get_num_quadratic_constraints(self):
        return len(self.quadratic_constraints)

    def minimize(self, constant=0.0, linear=None, quadratic=None):
        self.objective = QuadraticObjective(self, constant, linear, quadratic, ObjSense.MINIMIZE)

    def maximize(self, constant=0.0, linear=None, quadratic=None):
        self.objective = QuadraticObjective(self, constant, linear, quadratic, ObjSense.MAXIMIZE)

    def from_docplex(self, model):
        self.clear()
        self.docplex = model

    def to_docplex(self):
        return app("to_docplex", self)

    def to_ising(self):
        return app("to_ising.op", self), app("to_ising.offset", self)

    def from_ising(self, qubit_op, offset=0.0, linear=False):
        self.clear()
        self.ising = (qubit_op, offset, linear)

    def substitute_variables(self, constants=None, variables=None) -> "QuadraticProgram":
        return app("substitute_variables", self, constants, variables)

    def get_feasibility_info(self, x):
        return app("feasibility", self, x), app("violated_vars", self, x), app("violated_cons", self, x)

    def is_feasible(self, x):
        return app("feasibility", self, x)

    def export_as_lp_string(self):
        return app("lp_string", self)
