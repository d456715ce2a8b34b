import logging
from copy import deepcopy
from enum import Enum
from typing import Optional, Union, List, Tuple, Dict, cast
import numpy as np
from qiskit.algorithms import NumPyMinimumEigensolver
from qiskit.utils.validation import validate_min
from .minimum_eigen_optimizer import MinimumEigenOptimizer, MinimumEigenOptimizationResult
from .optimization_algorithm import OptimizationResultStatus, OptimizationAlgorithm, OptimizationResult
from ..converters.quadratic_program_to_qubo import QuadraticProgramToQubo, QuadraticProgramConverter
from ..exceptions import QiskitOptimizationError
from ..problems import Variable
from ..problems.quadratic_program import QuadraticProgram
logger = logging.getLogger(__name__)

class IntermediateResult(Enum):
    NO_ITERATIONS = 0
    'No intermediate results are stored.'
    LAST_ITERATION = 1
    'Only results from the last iteration are stored.'
    ALL_ITERATIONS = 2
    'All intermediate results are stored.'

class RecursiveMinimumEigenOptimizationResult(OptimizationResult):

    def __init__(self, x: Union[List[float], np.ndarray], fval: float, variables: List[Variable], status: OptimizationResultStatus, replacements: Dict[str, Tuple[str, int]], history: Tuple[List[MinimumEigenOptimizationResult], OptimizationResult]) -> None:
        super().__init__(x, fval, variables, status, None)
        self._replacements = replacements
        self._history = history

    @property
    def replacements(self) -> Dict[str, Tuple[str, int]]:
        return self._replacements

    @property
    def history(self) -> Tuple[List[MinimumEigenOptimizationResult], OptimizationResult]:
        return self._history

class RecursiveMinimumEigenOptimizer(OptimizationAlgorithm):

    def __init__(self, optimizer: OptimizationAlgorithm, min_num_vars: int=1, min_num_vars_optimizer: Optional[OptimizationAlgorithm]=None, penalty: Optional[float]=None, history: Optional[IntermediateResult]=IntermediateResult.LAST_ITERATION, converters: Optional[Union[QuadraticProgramConverter, List[QuadraticProgramConverter]]]=None) -> None:
        validate_min('min_num_vars', min_num_vars, 1)
        self._optimizer = optimizer
        self._min_num_vars = min_num_vars
        if min_num_vars_optimizer:
            self._min_num_vars_optimizer = min_num_vars_optimizer
        else:
            self._min_num_vars_optimizer = MinimumEigenOptimizer(NumPyMinimumEigensolver())
        self._penalty = penalty
        self._history = history
        self._converters = self._prepare_converters(converters, penalty)

    def get_compatibility_msg(self, problem: QuadraticProgram) -> str:
        return QuadraticProgramToQubo.get_compatibility_msg(problem)

    def solve(self, problem: QuadraticProgram) -> OptimizationResult:
        self._verify_compatibility(problem)
        problem_ref = self._convert(problem, self._converters)
        problem_ = deepcopy(problem_ref)
        replacements = {}
        optimization_results = []
        while problem_.get_num_vars() > self._min_num_vars:
            res = self._optimizer.solve(problem_)
            if self._history == IntermediateResult.ALL_ITERATIONS:
                optimization_results.append(res)
            correlations = res.get_correlations()
            i, j = self._find_strongest_correlation(correlations)
            x_i = problem_.variables[i].name
            x_j = problem_.variables[j].name
            if correlations[i, j] > 0:
                problem_ = problem_.substitute_variables(variables={i: (j, 1)})
                if problem_.status == QuadraticProgram.Status.INFEASIBLE:
                    raise QiskitOptimizationError('Infeasible due to variable substitution')
                replacements[x_i] = (x_j, 1)
            else:
                constant = problem_.objective.constant
                constant += problem_.objective.linear[i]
                constant += problem_.objective.quadratic[i, i]
                problem_.objective.constant = constant
                for k in range(problem_.get_num_vars()):
                    coeff = problem_.objective.linear[k]
                    if k == i:
                        coeff += 2 * problem_.objective.quadratic[i, k]
                    else:
                        coeff += problem_.objective.quadratic[i, k]
                    if np.abs(coeff) > 1e-10:
                        problem_.objective.linear[k] = coeff
                    else:
                        problem_.objective.linear[k] = 0
                problem_ = problem_.substitute_variables(variables={i: (j, -1)})
                if problem_.status == QuadraticProgram.Status.INFEASIBLE:
                    raise QiskitOptimizationError('Infeasible due to variable substitution')
                replacements[x_i] = (x_j, -1)
        result = self._min_num_vars_optimizer.solve(problem_)
        var_values = {}
        for i, x in enumerate(problem_.variables):
            var_values[x.name] = result.x[i]

        def find_value(x, replacements, var_values):
            if x in var_values:
                return var_values[x]
            elif x in replacements:
                y, sgn = replacements[x]
                value = find_value(y, replacements, var_values)
                var_values[x] = value if sgn == 1 else 1 - value
                return var_values[x]
            else:
                raise QiskitOptimizationError('Invalid values!')
        for x_i in problem_ref.variables:
            if x_i.name not in var_values:
                find_value(x_i.name, replacements, var_values)
        history = (optimization_results, None if self._history == IntermediateResult.NO_ITERATIONS else result)
        x_v = np.array([var_values[x_aux.name] for x_aux in problem_ref.variables])
        return cast(RecursiveMinimumEigenOptimizationResult, self._interpret(x=x_v, converters=self._converters, problem=problem, result_class=RecursiveMinimumEigenOptimizationResult, replacements=replacements, history=history))

    @staticmethod
    def _find_strongest_correlation(correlations):
        abs_correlations = np.abs(correlations)
        for i in range(len(correlations)):
            abs_correlations[i, i] = -1
        m_max = np.argmax(abs_correlations.flatten())
        i = int(m_max // len(correlations))
        j = int(m_max - i * len(correlations))
        return (i, j)
