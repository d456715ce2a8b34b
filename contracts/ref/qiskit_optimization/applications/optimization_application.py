from typing import Union
from collections import OrderedDict
from abc import ABC, abstractmethod
import numpy as np
from qiskit.opflow import StateFn
from qiskit_optimization.algorithms import OptimizationResult
from qiskit_optimization.problems.quadratic_program import QuadraticProgram

class OptimizationApplication(ABC):

    @abstractmethod
    def to_quadratic_program(self) -> QuadraticProgram:
        pass

    @abstractmethod
    def interpret(self, result: Union[OptimizationResult, np.ndarray]):
        pass

    def _result_to_x(self, result: Union[OptimizationResult, np.ndarray]) -> np.ndarray:
        if isinstance(result, OptimizationResult):
            x = result.x
        elif isinstance(result, np.ndarray):
            x = result
        else:
            raise TypeError('Unsupported format of result. Provide an\u3000OptimizationResult or a', 'binary array using np.ndarray instead of {}'.format(type(result)))
        return x

    @staticmethod
    def sample_most_likely(state_vector: Union[np.ndarray, dict]) -> np.ndarray:
        if isinstance(state_vector, (OrderedDict, dict)):
            binary_string = sorted(state_vector.items(), key=lambda kv: kv[1])[-1][0]
            x = np.asarray([int(y) for y in reversed(list(binary_string))])
            return x
        elif isinstance(state_vector, StateFn):
            binary_string = list(state_vector.sample().keys())[0]
            x = np.asarray([int(y) for y in reversed(list(binary_string))])
            return x
        else:
            n = int(np.log2(state_vector.shape[0]))
            k = np.argmax(np.abs(state_vector))
            x = np.zeros(n)
            for i in range(n):
                x[i] = k % 2
                k >>= 1
            return x
