from typing import List, Union, Dict, Tuple, Any
import numpy as np
from numpy import ndarray
from scipy.sparse import spmatrix, dok_matrix, tril, triu
from .quadratic_program_element import QuadraticProgramElement
from ..exceptions import QiskitOptimizationError

class QuadraticExpression(QuadraticProgramElement):

    def __init__(self, quadratic_program: Any, coefficients: Union[ndarray, spmatrix, List[List[float]], Dict[Tuple[Union[int, str], Union[int, str]], float]]) -> None:
        super().__init__(quadratic_program)
        self.coefficients = coefficients

    def __getitem__(self, key: Tuple[Union[int, str], Union[int, str]]) -> float:
        i, j = key
        if isinstance(i, str):
            i = self.quadratic_program.variables_index[i]
        if isinstance(j, str):
            j = self.quadratic_program.variables_index[j]
        return self.coefficients[min(i, j), max(i, j)]

    def __setitem__(self, key: Tuple[Union[int, str], Union[int, str]], value: float) -> None:
        i, j = key
        if isinstance(i, str):
            i = self.quadratic_program.variables_index[i]
        if isinstance(j, str):
            j = self.quadratic_program.variables_index[j]
        self.coefficients[min(i, j), max(i, j)] = value

    def _coeffs_to_dok_matrix(self, coefficients: Union[ndarray, spmatrix, List[List[float]], Dict[Tuple[Union[int, str], Union[int, str]], float]]) -> dok_matrix:
        if isinstance(coefficients, (list, ndarray, spmatrix)):
            coefficients = dok_matrix(coefficients, dtype=float)
        elif isinstance(coefficients, dict):
            n = self.quadratic_program.get_num_vars()
            coeffs = dok_matrix((n, n))
            for (i, j), value in coefficients.items():
                if isinstance(i, str):
                    i = self.quadratic_program.variables_index[i]
                if isinstance(j, str):
                    j = self.quadratic_program.variables_index[j]
                coeffs[i, j] = value
            coefficients = coeffs
        else:
            raise QiskitOptimizationError('Unsupported format for coefficients: {}'.format(coefficients))
        return self._triangle_matrix(coefficients)

    @staticmethod
    def _triangle_matrix(mat: dok_matrix) -> dok_matrix:
        lower = tril(mat, -1, format='dok')
        return (mat + lower.transpose() - lower).todok()

    @staticmethod
    def _symmetric_matrix(mat: dok_matrix) -> dok_matrix:
        upper = triu(mat, 1, format='dok') / 2
        return (mat + upper.transpose() - upper).todok()

    @property
    def coefficients(self) -> dok_matrix:
        num_vars = self.quadratic_program.get_num_vars()
        if self._coefficients.shape[0] < num_vars:
            self._coefficients.resize(num_vars, num_vars)
        return self._coefficients

    @coefficients.setter
    def coefficients(self, coefficients: Union[ndarray, spmatrix, List[List[float]], Dict[Tuple[Union[int, str], Union[int, str]], float]]) -> None:
        self._coefficients = self._coeffs_to_dok_matrix(coefficients)

    def to_array(self, symmetric: bool=False) -> ndarray:
        coeffs = self._symmetric_matrix(self.coefficients) if symmetric else self.coefficients
        return coeffs.toarray()

    def to_dict(self, symmetric: bool=False, use_name: bool=False) -> Dict[Union[Tuple[int, int], Tuple[str, str]], float]:
        coeffs = self._symmetric_matrix(self.coefficients) if symmetric else self.coefficients
        if use_name:
            return {(self.quadratic_program.variables[i].name, self.quadratic_program.variables[j].name): v for (i, j), v in coeffs.items()}
        else:
            return {(int(i), int(j)): v for (i, j), v in coeffs.items()}

    def evaluate(self, x: Union[ndarray, List, Dict[Union[int, str], float]]) -> float:
        x = self._cast_as_array(x)
        val = x @ self.coefficients @ x
        return val

    def evaluate_gradient(self, x: Union[ndarray, List, Dict[Union[int, str], float]]) -> ndarray:
        x = self._cast_as_array(x)
        val = (self.coefficients.transpose() + self.coefficients) @ x
        return val

    def _cast_as_array(self, x: Union[ndarray, List, Dict[Union[int, str], float]]) -> Union[dok_matrix, np.ndarray]:
        if isinstance(x, dict):
            x_aux = np.zeros(self.quadratic_program.get_num_vars())
            for i, v in x.items():
                if isinstance(i, str):
                    i = self.quadratic_program.variables_index[i]
                x_aux[i] = v
            x = x_aux
        if isinstance(x, list):
            x = np.array(x)
        return x
