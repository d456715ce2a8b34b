from typing import List, Union
import numpy as np
from docplex.mp.model import Model
from qiskit_optimization.algorithms import OptimizationResult
from qiskit_optimization.problems.quadratic_program import QuadraticProgram
from .optimization_application import OptimizationApplication

class NumberPartition(OptimizationApplication):

    def __init__(self, number_set: List[int]) -> None:
        self._number_set = number_set

    def to_quadratic_program(self) -> QuadraticProgram:
        mdl = Model(name='Number partitioning')
        x = {i: mdl.binary_var(name='x_{0}'.format(i)) for i in range(len(self._number_set))}
        mdl.add_constraint(mdl.sum((num * (-2 * x[i] + 1) for i, num in enumerate(self._number_set))) == 0)
        op = QuadraticProgram()
        op.from_docplex(mdl)
        return op

    def interpret(self, result: Union[OptimizationResult, np.ndarray]) -> List[List[int]]:
        x = self._result_to_x(result)
        num_subsets = [[], []]
        for i, value in enumerate(x):
            if value == 0:
                num_subsets[0].append(self._number_set[i])
            else:
                num_subsets[1].append(self._number_set[i])
        return num_subsets
