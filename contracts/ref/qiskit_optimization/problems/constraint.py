from abc import abstractmethod
from enum import Enum
from typing import Union, List, Dict, Any
from numpy import ndarray
from .quadratic_program_element import QuadraticProgramElement
from ..exceptions import QiskitOptimizationError

class ConstraintSense(Enum):
    LE = 0
    GE = 1
    EQ = 2

    @staticmethod
    def convert(sense: Union[str, 'ConstraintSense']) -> 'ConstraintSense':
        if isinstance(sense, ConstraintSense):
            return sense
        sense = sense.upper()
        if sense not in ['E', 'L', 'G', 'EQ', 'LE', 'GE', '=', '==', '<=', '<', '>=', '>']:
            raise QiskitOptimizationError('Invalid sense: {}'.format(sense))
        if sense in ['E', 'EQ', '=', '==']:
            return ConstraintSense.EQ
        elif sense in ['L', 'LE', '<=', '<']:
            return ConstraintSense.LE
        else:
            return ConstraintSense.GE

class Constraint(QuadraticProgramElement):
    Sense = ConstraintSense

    def __init__(self, quadratic_program: Any, name: str, sense: ConstraintSense, rhs: float) -> None:
        super().__init__(quadratic_program)
        self._name = name
        self._sense = sense
        self._rhs = rhs

    @property
    def name(self) -> str:
        return self._name

    @property
    def sense(self) -> ConstraintSense:
        return self._sense

    @sense.setter
    def sense(self, sense: ConstraintSense) -> None:
        self._sense = sense

    @property
    def rhs(self) -> float:
        return self._rhs

    @rhs.setter
    def rhs(self, rhs: float) -> None:
        self._rhs = rhs

    @abstractmethod
    def evaluate(self, x: Union[ndarray, List, Dict[Union[int, str], float]]) -> float:
        raise NotImplementedError()
