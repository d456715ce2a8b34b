from typing import Optional, Union, List
import numpy as np
from .quadratic_program_converter import QuadraticProgramConverter
from ..exceptions import QiskitOptimizationError
from ..problems.quadratic_program import QuadraticProgram

class QuadraticProgramToQubo(QuadraticProgramConverter):

    def __init__(self, penalty: Optional[float]=None) -> None:
        from ..converters.integer_to_binary import IntegerToBinary
        from ..converters.inequality_to_equality import InequalityToEquality
        from ..converters.linear_equality_to_penalty import LinearEqualityToPenalty
        self._int_to_bin = IntegerToBinary()
        self._ineq_to_eq = InequalityToEquality(mode='integer')
        self._penalize_lin_eq_constraints = LinearEqualityToPenalty(penalty=penalty)

    def convert(self, problem: QuadraticProgram) -> QuadraticProgram:
        msg = self.get_compatibility_msg(problem)
        if len(msg) > 0:
            raise QiskitOptimizationError('Incompatible problem: {}'.format(msg))
        problem_ = self._ineq_to_eq.convert(problem)
        problem_ = self._int_to_bin.convert(problem_)
        problem_ = self._penalize_lin_eq_constraints.convert(problem_)
        return problem_

    def interpret(self, x: Union[np.ndarray, List[float]]) -> np.ndarray:
        x = self._penalize_lin_eq_constraints.interpret(x)
        x = self._int_to_bin.interpret(x)
        x = self._ineq_to_eq.interpret(x)
        return x

    @staticmethod
    def get_compatibility_msg(problem: QuadraticProgram) -> str:
        msg = ''
        if problem.get_num_continuous_vars() > 0:
            msg += 'Continuous variables are not supported! '
        if len(problem.quadratic_constraints) > 0:
            msg += 'Quadratic constraints are not supported. '
        compatible_with_integer_slack = True
        for l_constraint in problem.linear_constraints:
            linear = l_constraint.linear.to_dict()
            if any((isinstance(coef, float) and (not coef.is_integer()) for coef in linear.values())):
                compatible_with_integer_slack = False
        for q_constraint in problem.quadratic_constraints:
            linear = q_constraint.linear.to_dict()
            quadratic = q_constraint.quadratic.to_dict()
            if any((isinstance(coef, float) and (not coef.is_integer()) for coef in quadratic.values())) or any((isinstance(coef, float) and (not coef.is_integer()) for coef in linear.values())):
                compatible_with_integer_slack = False
        if not compatible_with_integer_slack:
            msg += 'Can not convert inequality constraints to equality constraint because                     float coefficients are in constraints. '
        return msg

    def is_compatible(self, problem: QuadraticProgram) -> bool:
        return len(self.get_compatibility_msg(problem)) == 0

    @property
    def penalty(self) -> Optional[float]:
        return self._penalize_lin_eq_constraints.penalty

    @penalty.setter
    def penalty(self, penalty: Optional[float]) -> None:
        self._penalize_lin_eq_constraints.penalty = penalty
