import copy
import logging
from typing import Dict, List, Optional, Tuple, Union
import numpy as np
from .quadratic_program_converter import QuadraticProgramConverter
from ..exceptions import QiskitOptimizationError
from ..problems.quadratic_objective import QuadraticObjective
from ..problems.quadratic_program import QuadraticProgram
from ..problems.variable import Variable
logger = logging.getLogger(__name__)

class IntegerToBinary(QuadraticProgramConverter):
    _delimiter = '@'

    def __init__(self) -> None:
        self._src = None
        self._dst = None
        self._conv = {}

    def convert(self, problem: QuadraticProgram) -> QuadraticProgram:
        self._src = copy.deepcopy(problem)
        if self._src.get_num_integer_vars() > 0:
            self._dst = QuadraticProgram(name=problem.name)
            for x in self._src.variables:
                if x.vartype == Variable.Type.INTEGER:
                    new_vars = self._convert_var(x.name, x.lowerbound, x.upperbound)
                    self._conv[x] = new_vars
                    for var_name, _ in new_vars:
                        self._dst.binary_var(var_name)
                elif x.vartype == Variable.Type.CONTINUOUS:
                    self._dst.continuous_var(x.lowerbound, x.upperbound, x.name)
                elif x.vartype == Variable.Type.BINARY:
                    self._dst.binary_var(x.name)
                else:
                    raise QiskitOptimizationError('Unsupported variable type {}'.format(x.vartype))
            self._substitute_int_var()
        else:
            self._dst = copy.deepcopy(problem)
        return self._dst

    def _convert_var(self, name: str, lowerbound: float, upperbound: float) -> List[Tuple[str, int]]:
        var_range = upperbound - lowerbound
        power = int(np.log2(var_range)) if var_range > 0 else 0
        bounded_coef = var_range - (2 ** power - 1)
        coeffs = [2 ** i for i in range(power)] + [bounded_coef]
        return [(name + self._delimiter + str(i), coef) for i, coef in enumerate(coeffs)]

    def _convert_linear_coefficients_dict(self, coefficients: Dict[str, float]) -> Tuple[Dict[str, float], float]:
        constant = 0.0
        linear = {}
        for name, v in coefficients.items():
            x = self._src.get_variable(name)
            if x in self._conv:
                for y, coeff in self._conv[x]:
                    linear[y] = v * coeff
                constant += v * x.lowerbound
            else:
                linear[x.name] = v
        return (linear, constant)

    def _convert_quadratic_coefficients_dict(self, coefficients: Dict[Tuple[str, str], float]) -> Tuple[Dict[Tuple[str, str], float], Dict[str, float], float]:
        constant = 0.0
        linear = {}
        quadratic = {}
        for (name_i, name_j), v in coefficients.items():
            x = self._src.get_variable(name_i)
            y = self._src.get_variable(name_j)
            if x in self._conv and y not in self._conv:
                for z_x, coeff_x in self._conv[x]:
                    quadratic[z_x, y.name] = v * coeff_x
                linear[y.name] = linear.get(y.name, 0.0) + v * x.lowerbound
            elif x not in self._conv and y in self._conv:
                for z_y, coeff_y in self._conv[y]:
                    quadratic[x.name, z_y] = v * coeff_y
                linear[x.name] = linear.get(x.name, 0.0) + v * y.lowerbound
            elif x in self._conv and y in self._conv:
                for z_x, coeff_x in self._conv[x]:
                    for z_y, coeff_y in self._conv[y]:
                        quadratic[z_x, z_y] = v * coeff_x * coeff_y
                for z_x, coeff_x in self._conv[x]:
                    linear[z_x] = linear.get(z_x, 0.0) + v * coeff_x * y.lowerbound
                for z_y, coeff_y in self._conv[y]:
                    linear[z_y] = linear.get(z_y, 0.0) + v * coeff_y * x.lowerbound
                constant += v * x.lowerbound * y.lowerbound
            else:
                quadratic[x.name, y.name] = v
        return (quadratic, linear, constant)

    def _substitute_int_var(self):
        linear, linear_constant = self._convert_linear_coefficients_dict(self._src.objective.linear.to_dict(use_name=True))
        quadratic, q_linear, q_constant = self._convert_quadratic_coefficients_dict(self._src.objective.quadratic.to_dict(use_name=True))
        constant = self._src.objective.constant + linear_constant + q_constant
        for i, v in q_linear.items():
            linear[i] = linear.get(i, 0) + v
        if self._src.objective.sense == QuadraticObjective.Sense.MINIMIZE:
            self._dst.minimize(constant, linear, quadratic)
        else:
            self._dst.maximize(constant, linear, quadratic)
        for constraint in self._src.linear_constraints:
            linear, constant = self._convert_linear_coefficients_dict(constraint.linear.to_dict(use_name=True))
            self._dst.linear_constraint(linear, constraint.sense, constraint.rhs - constant, constraint.name)
        for constraint in self._src.quadratic_constraints:
            linear, linear_constant = self._convert_linear_coefficients_dict(constraint.linear.to_dict(use_name=True))
            quadratic, q_linear, q_constant = self._convert_quadratic_coefficients_dict(constraint.quadratic.to_dict(use_name=True))
            constant = linear_constant + q_constant
            for i, v in q_linear.items():
                linear[i] = linear.get(i, 0) + v
            self._dst.quadratic_constraint(linear, quadratic, constraint.sense, constraint.rhs - constant, constraint.name)

    def interpret(self, x: Union[np.ndarray, List[float]]) -> np.ndarray:
        sol = {var.name: x[i] for i, var in enumerate(self._dst.variables)}
        new_x = np.zeros(self._src.get_num_vars())
        for i, var in enumerate(self._src.variables):
            if var in self._conv:
                new_x[i] = sum((sol[aux] * coef for aux, coef in self._conv[var])) + var.lowerbound
            else:
                new_x[i] = sol[var.name]
        return np.array(new_x)
