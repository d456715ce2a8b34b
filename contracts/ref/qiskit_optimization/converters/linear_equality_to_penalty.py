import copy
import logging
from math import fsum
from typing import Optional, cast, Union, Tuple, List
import numpy as np
from .quadratic_program_converter import QuadraticProgramConverter
from ..exceptions import QiskitOptimizationError
from ..problems.constraint import Constraint
from ..problems.quadratic_objective import QuadraticObjective
from ..problems.quadratic_program import QuadraticProgram
from ..problems.variable import Variable
logger = logging.getLogger(__name__)

class LinearEqualityToPenalty(QuadraticProgramConverter):

    def __init__(self, penalty: Optional[float]=None) -> None:
        self._src = None
        self._dst = None
        self.penalty = penalty

    def convert(self, problem: QuadraticProgram) -> QuadraticProgram:
        self._src = copy.deepcopy(problem)
        self._dst = QuadraticProgram(name=problem.name)
        if self._should_define_penalty:
            penalty = self._auto_define_penalty()
        else:
            penalty = self._penalty
        for x in self._src.variables:
            if x.vartype == Variable.Type.CONTINUOUS:
                self._dst.continuous_var(x.lowerbound, x.upperbound, x.name)
            elif x.vartype == Variable.Type.BINARY:
                self._dst.binary_var(x.name)
            elif x.vartype == Variable.Type.INTEGER:
                self._dst.integer_var(x.lowerbound, x.upperbound, x.name)
            else:
                raise QiskitOptimizationError('Unsupported vartype: {}'.format(x.vartype))
        offset = self._src.objective.constant
        linear = self._src.objective.linear.to_dict()
        quadratic = self._src.objective.quadratic.to_dict()
        sense = self._src.objective.sense.value
        for constraint in self._src.linear_constraints:
            if constraint.sense != Constraint.Sense.EQ:
                raise QiskitOptimizationError('An inequality constraint exists. The method supports only equality constraints.')
            constant = constraint.rhs
            row = constraint.linear.to_dict()
            offset += sense * penalty * constant ** 2
            for j, coef in row.items():
                linear[j] = linear.get(j, 0.0) + sense * penalty * -2 * coef * constant
            for j, coef_1 in row.items():
                for k, coef_2 in row.items():
                    tup = cast(Union[Tuple[int, int], Tuple[str, str]], (j, k))
                    quadratic[tup] = quadratic.get(tup, 0.0) + sense * penalty * coef_1 * coef_2
        if self._src.objective.sense == QuadraticObjective.Sense.MINIMIZE:
            self._dst.minimize(offset, linear, quadratic)
        else:
            self._dst.maximize(offset, linear, quadratic)
        for q_constraint in self._src.quadratic_constraints:
            self._dst.quadratic_constraint(q_constraint.linear.to_dict(), q_constraint.quadratic.to_dict(), q_constraint.sense, q_constraint.rhs, q_constraint.name)
        self._penalty = penalty
        return self._dst

    def _auto_define_penalty(self) -> float:
        default_penalty = 100000.0
        terms = []
        for constraint in self._src.linear_constraints:
            terms.append(constraint.rhs)
            terms.extend((coef for coef in constraint.linear.to_dict().values()))
        if any((isinstance(term, float) and (not term.is_integer()) for term in terms)):
            logger.warning('Warning: Using %f for the penalty coefficient because a float coefficient exists in constraints. \nThe value could be too small. If so, set the penalty coefficient manually.', default_penalty)
            return default_penalty
        penalties = [1.0]
        penalties.extend((abs(coef) for coef in self._src.objective.linear.to_dict().values()))
        penalties.extend((abs(coef) for coef in self._src.objective.quadratic.to_dict().values()))
        return fsum(penalties)

    def interpret(self, x: Union[np.ndarray, List[float]]) -> np.ndarray:
        if len(x) != self._src.get_num_vars():
            raise QiskitOptimizationError('The number of variables in the passed result differs from that of the original problem.')
        return np.asarray(x)

    @property
    def penalty(self) -> Optional[float]:
        return self._penalty

    @penalty.setter
    def penalty(self, penalty: Optional[float]) -> None:
        self._penalty = penalty
        self._should_define_penalty = penalty is None
