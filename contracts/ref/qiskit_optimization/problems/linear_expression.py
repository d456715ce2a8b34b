from typing import List, Union, Dict, Any
from numpy import ndarray
from scipy.sparse import spmatrix, dok_matrix
from .quadratic_program_element import QuadraticProgramElement
from ..exceptions import QiskitOptimizationError

class LinearExpression(QuadraticProgramElement):

    def __init__(self, quadratic_program: Any, coefficients: Union[ndarray, spmatrix, List[float], Dict[Union[int, str], float]]) -> None:
        super().__init__(quadratic_program)
        self.coefficients = coefficients

    def __getitem__(self, i: Union[int, str]) -> float:
        if isinstance(i, str):
            i = self.quadratic_program.variables_index[i]
        return self.coefficients[0, i]

    def __setitem__(self, i: Union[int, str], value: float) -> None:
        if isinstance(i, str):
            i = self.quadratic_program.variables_index[i]
        self.coefficients[0, i] = value

    def _coeffs_to_dok_matrix(self, coefficients: Union[ndarray, spmatrix, List, Dict[Union[int, str], float]]) -> dok_matrix:
        if isinstance(coefficients, list) or (isinstance(coefficients, ndarray) and len(coefficients.shape) == 1):
            coefficients = dok_matrix([coefficients], dtype=float)
        elif isinstance(coefficients, spmatrix):
            coefficients = dok_matrix(coefficients, dtype=float)
        elif isinstance(coefficients, dict):
            coeffs = dok_matrix((1, self.quadratic_program.get_num_vars()))
            for index, value in coefficients.items():
                if isinstance(index, str):
                    index = self.quadratic_program.variables_index[index]
                coeffs[0, index] = value
            coefficients = coeffs
        else:
            raise QiskitOptimizationError('Unsupported format for coefficients.')
        return coefficients

    @property
    def coefficients(self) -> dok_matrix:
        num_vars = self.quadratic_program.get_num_vars()
        if self._coefficients.shape[1] < num_vars:
            self._coefficients.resize(1, num_vars)
        return self._coefficients

    @coefficients.setter
    def coefficients(self, coefficients: Union[ndarray, spmatrix, List[float], Dict[Union[str, int], float]]) -> None:
        self._coefficients = self._coeffs_to_dok_matrix(coefficients)

    def to_array(self) -> ndarray:
        return self.coefficients.toarray()[0]

    def to_dict(self, use_name: bool=False) -> Dict[Union[int, str], float]:
        if use_name:
            return {self.quadratic_program.variables[k].name: v for (_, k), v in self._coefficients.items()}
        else:
            return {k: v for (_, k), v in self._coefficients.items()}

    def evaluate(self, x: Union[ndarray, List, Dict[Union[int, str], float]]) -> float:
        x = self._coeffs_to_dok_matrix(x)
        val = (x @ self.coefficients.transpose())[0, 0]
        return val

    def evaluate_gradient(self, x: Union[ndarray, List, Dict[Union[int, str], float]]) -> ndarray:
        return self.to_array()
