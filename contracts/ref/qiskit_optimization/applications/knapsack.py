from typing import List, Union
import numpy as np
from docplex.mp.model import Model
from qiskit_optimization.algorithms import OptimizationResult
from qiskit_optimization.problems.quadratic_program import QuadraticProgram
from .optimization_application import OptimizationApplication

class Knapsack(OptimizationApplication):

    def __init__(self, values: List[int], weights: List[int], max_weight: int) -> None:
        self._values = values
        self._weights = weights
        self._max_weight = max_weight

    def to_quadratic_program(self) -> QuadraticProgram:
        mdl = Model(name='Knapsack')
        x = {i: mdl.binary_var(name='x_{0}'.format(i)) for i in range(len(self._values))}
        mdl.maximize(mdl.sum((self._values[i] * x[i] for i in x)))
        mdl.add_constraint(mdl.sum((self._weights[i] * x[i] for i in x)) <= self._max_weight)
        op = QuadraticProgram()
        op.from_docplex(mdl)
        return op

    def interpret(self, result: Union[OptimizationResult, np.ndarray]) -> List[int]:
        x = self._result_to_x(result)
        return [i for i, value in enumerate(x) if value]

    @property
    def max_weight(self) -> int:
        return self._max_weight

    @max_weight.setter
    def max_weight(self, max_weight: int) -> None:
        self._max_weight = max_weight
