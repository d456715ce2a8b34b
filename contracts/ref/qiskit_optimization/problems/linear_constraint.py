from typing import Union, List, Dict, Any
from numpy import ndarray
from scipy.sparse import spmatrix
from .constraint import Constraint, ConstraintSense
from .linear_expression import LinearExpression

class LinearConstraint(Constraint):
    Sense = ConstraintSense

    def __init__(self, quadratic_program: Any, name: str, linear: Union[ndarray, spmatrix, List[float], Dict[Union[str, int], float]], sense: ConstraintSense, rhs: float) -> None:
        super().__init__(quadratic_program, name, sense, rhs)
        self._linear = LinearExpression(quadratic_program, linear)

    @property
    def linear(self) -> LinearExpression:
        return self._linear

    @linear.setter
    def linear(self, linear: Union[ndarray, spmatrix, List[float], Dict[Union[str, int], float]]) -> None:
        self._linear = LinearExpression(self.quadratic_program, linear)

    def evaluate(self, x: Union[ndarray, List, Dict[Union[int, str], float]]) -> float:
        return self.linear.evaluate(x)
