from typing import List, Union
import numpy as np
from docplex.mp.model import Model
from qiskit_optimization.algorithms import OptimizationResult
from qiskit_optimization.problems.quadratic_program import QuadraticProgram
from .optimization_application import OptimizationApplication

class ExactCover(OptimizationApplication):

    def __init__(self, subsets: List[List[int]]) -> None:
        self._subsets = subsets
        self._set = []
        for sub in self._subsets:
            self._set.extend(sub)
        self._set = np.unique(self._set)

    def to_quadratic_program(self) -> QuadraticProgram:
        mdl = Model(name='Exact cover')
        x = {i: mdl.binary_var(name='x_{0}'.format(i)) for i in range(len(self._subsets))}
        mdl.minimize(mdl.sum((x[i] for i in x)))
        for element in self._set:
            mdl.add_constraint(mdl.sum((x[i] for i, sub in enumerate(self._subsets) if element in sub)) == 1)
        op = QuadraticProgram()
        op.from_docplex(mdl)
        return op

    def interpret(self, result: Union[OptimizationResult, np.ndarray]) -> List[List[int]]:
        x = self._result_to_x(result)
        sub = []
        for i, value in enumerate(x):
            if value:
                sub.append(self._subsets[i])
        return sub
