from abc import ABC, abstractmethod
from typing import List, Union, Optional
import numpy as np
from ..problems.quadratic_program import QuadraticProgram

class QuadraticProgramConverter(ABC):

    @abstractmethod
    def convert(self, problem: QuadraticProgram) -> QuadraticProgram:
        raise NotImplementedError

    @abstractmethod
    def interpret(self, x: Union[np.ndarray, List[float]]) -> np.ndarray:
        raise NotImplementedError
