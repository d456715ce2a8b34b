from enum import Enum
from typing import Union, List, Dict, Tuple, Any
from numpy import ndarray
from scipy.sparse import spmatrix
from .linear_constraint import LinearExpression
from .quadratic_expression import QuadraticExpression
from .quadratic_program_element import QuadraticProgramElement

class ObjSense(Enum):
    MINIMIZE = 1
    MAXIMIZE = -1

class QuadraticObjective(QuadraticProgramElement):
    Sense = ObjSense

    def __init__(self, quadratic_program: Any, constant: float=0.0, linear: Union[ndarray, spmatrix, List[float], Dict[Union[str, int], float]]=None, quadratic: Union[ndarray, spmatrix, List[List[float]], Dict[Tuple[Union[int, str], Union[int, str]], float]]=None, sense: ObjSense=ObjSense.MINIMIZE) -> None:
        super().__init__(quadratic_program)
        self._constant = constant
        if linear is None:
            linear = {}
        self._linear = LinearExpression(quadratic_program, linear)
        if quadratic is None:
            quadratic = {}
        self._quadratic = QuadraticExpression(quadratic_program, quadratic)
        self._sense = sense

    @property
    def constant(self) -> float:
        return self._constant

    @constant.setter
    def constant(self, constant: float) -> None:
        self._constant = constant

    @property
    def linear(self) -> LinearExpression:
        return self._linear

    @linear.setter
    def linear(self, linear: Union[ndarray, spmatrix, List[float], Dict[Union[str, int], float]]) -> None:
        self._linear = LinearExpression(self.quadratic_program, linear)

    @property
    def quadratic(self) -> QuadraticExpression:
        return self._quadratic

    @quadratic.setter
    def quadratic(self, quadratic: Union[ndarray, spmatrix, List[List[float]], Dict[Tuple[Union[int, str], Union[int, str]], float]]) -> None:
        self._quadratic = QuadraticExpression(self.quadratic_program, quadratic)

    @property
    def sense(self) -> ObjSense:
        return self._sense

    @sense.setter
    def sense(self, sense: ObjSense) -> None:
        self._sense = sense

    def evaluate(self, x: Union[ndarray, List, Dict[Union[int, str], float]]) -> float:
        return self.constant + self.linear.evaluate(x) + self.quadratic.evaluate(x)

    def evaluate_gradient(self, x: Union[ndarray, List, Dict[Union[int, str], float]]) -> ndarray:
        return self.linear.evaluate_gradient(x) + self.quadratic.evaluate_gradient(x)
