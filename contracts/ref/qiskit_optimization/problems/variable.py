from enum import Enum
from typing import Tuple, Union, Any
from .quadratic_program_element import QuadraticProgramElement
from ..exceptions import QiskitOptimizationError
from ..infinity import INFINITY

class VarType(Enum):
    CONTINUOUS = 0
    BINARY = 1
    INTEGER = 2

class Variable(QuadraticProgramElement):
    Type = VarType

    def __init__(self, quadratic_program: Any, name: str, lowerbound: Union[float, int]=0, upperbound: Union[float, int]=INFINITY, vartype: VarType=VarType.CONTINUOUS) -> None:
        if lowerbound > upperbound:
            raise QiskitOptimizationError('Lowerbound is greater than upperbound!')
        super().__init__(quadratic_program)
        self._name = name
        self._lowerbound = lowerbound
        self._upperbound = upperbound
        self._vartype = vartype

    @property
    def name(self) -> str:
        return self._name

    @property
    def lowerbound(self) -> Union[float, int]:
        return self._lowerbound

    @lowerbound.setter
    def lowerbound(self, lowerbound: Union[float, int]) -> None:
        if lowerbound > self.upperbound:
            raise QiskitOptimizationError('Lowerbound is greater than upperbound!')
        self._lowerbound = lowerbound

    @property
    def upperbound(self) -> Union[float, int]:
        return self._upperbound

    @upperbound.setter
    def upperbound(self, upperbound: Union[float, int]) -> None:
        if self.lowerbound > upperbound:
            raise QiskitOptimizationError('Lowerbound is greater than upperbound!')
        self._upperbound = upperbound

    @property
    def vartype(self) -> VarType:
        return self._vartype

    @vartype.setter
    def vartype(self, vartype: VarType) -> None:
        self._vartype = vartype

    def as_tuple(self) -> Tuple[str, Union[float, int], Union[float, int], VarType]:
        return (self.name, self.lowerbound, self.upperbound, self.vartype)
