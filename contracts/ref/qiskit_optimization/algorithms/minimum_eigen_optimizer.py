from typing import Optional, Any, Union, List, cast
import numpy as np
from qiskit.algorithms import MinimumEigensolver, MinimumEigensolverResult
from qiskit.opflow import OperatorBase
from .optimization_algorithm import OptimizationResultStatus, OptimizationAlgorithm, OptimizationResult, SolutionSample
from ..exceptions import QiskitOptimizationError
from ..converters.quadratic_program_to_qubo import QuadraticProgramToQubo, QuadraticProgramConverter
from ..problems.quadratic_program import QuadraticProgram, Variable

class MinimumEigenOptimizationResult(OptimizationResult):

    def __init__(self, x: Union[List[float], np.ndarray], fval: float, variables: List[Variable], status: OptimizationResultStatus, samples: Optional[List[SolutionSample]]=None, min_eigen_solver_result: Optional[MinimumEigensolverResult]=None, raw_samples: Optional[List[SolutionSample]]=None) -> None:
        super().__init__(x=x, fval=fval, variables=variables, status=status, raw_results=None, samples=samples)
        self._min_eigen_solver_result = min_eigen_solver_result
        self._raw_samples = raw_samples

    @property
    def min_eigen_solver_result(self) -> MinimumEigensolverResult:
        return self._min_eigen_solver_result

    @property
    def raw_samples(self) -> Optional[List[SolutionSample]]:
        return self._raw_samples

class MinimumEigenOptimizer(OptimizationAlgorithm):

    def __init__(self, min_eigen_solver: MinimumEigensolver, penalty: Optional[float]=None, converters: Optional[Union[QuadraticProgramConverter, List[QuadraticProgramConverter]]]=None) -> None:
        if not min_eigen_solver.supports_aux_operators():
            raise QiskitOptimizationError('Given MinimumEigensolver does not return the eigenstate ' + 'and is not supported by the MinimumEigenOptimizer.')
        self._min_eigen_solver = min_eigen_solver
        self._penalty = penalty
        self._converters = self._prepare_converters(converters, penalty)

    def get_compatibility_msg(self, problem: QuadraticProgram) -> str:
        return QuadraticProgramToQubo.get_compatibility_msg(problem)

    @property
    def min_eigen_solver(self) -> MinimumEigensolver:
        return self._min_eigen_solver

    @min_eigen_solver.setter
    def min_eigen_solver(self, min_eigen_solver: MinimumEigensolver) -> None:
        self._min_eigen_solver = min_eigen_solver

    def solve(self, problem: QuadraticProgram) -> MinimumEigenOptimizationResult:
        self._verify_compatibility(problem)
        problem_ = self._convert(problem, self._converters)
        operator, offset = problem_.to_ising()
        return self._solve_internal(operator, offset, problem_, problem)

    def _solve_internal(self, operator: OperatorBase, offset: float, converted_problem: QuadraticProgram, original_problem: QuadraticProgram):
        x = None
        eigen_result = None
        if operator.num_qubits > 0:
            eigen_result = self._min_eigen_solver.compute_minimum_eigenvalue(operator)
            fval = None
            x = None
            raw_samples = None
            if eigen_result.eigenstate is not None:
                raw_samples = self._eigenvector_to_solutions(eigen_result.eigenstate, converted_problem)
                raw_samples.sort(key=lambda x: converted_problem.objective.sense.value * x.fval)
                x = raw_samples[0].x
                fval = raw_samples[0].fval
        else:
            x = np.zeros(converted_problem.get_num_binary_vars())
            fval = offset
            raw_samples = [SolutionSample(x, fval, 1.0, OptimizationResultStatus.SUCCESS)]
        if fval is None or x is None:
            return MinimumEigenOptimizationResult(x=None, fval=None, variables=original_problem.variables, status=OptimizationResultStatus.FAILURE, samples=None, raw_samples=None, min_eigen_solver_result=eigen_result)
        samples = self._interpret_samples(original_problem, raw_samples, self._converters)
        return cast(MinimumEigenOptimizationResult, self._interpret(x=x, converters=self._converters, problem=original_problem, result_class=MinimumEigenOptimizationResult, samples=samples, raw_samples=raw_samples, min_eigen_solver_result=eigen_result))
