import copy
from abc import ABC, abstractmethod
from typing import Optional, List, Union, Dict, Tuple, cast
import numpy as np
from qiskit import QuantumCircuit
from qiskit.algorithms import QAOA
from qiskit.circuit import Parameter
from .minimum_eigen_optimizer import MinimumEigenOptimizer, MinimumEigenOptimizationResult
from .optimization_algorithm import OptimizationAlgorithm, OptimizationResultStatus, SolutionSample
from ..converters.quadratic_program_converter import QuadraticProgramConverter
from ..exceptions import QiskitOptimizationError
from ..problems.quadratic_program import QuadraticProgram
from ..problems.variable import VarType

class BaseAggregator(ABC):

    @abstractmethod
    def aggregate(self, results: List[MinimumEigenOptimizationResult]) -> List[SolutionSample]:
        raise NotImplementedError

class MeanAggregator(BaseAggregator):

    def aggregate(self, results: List[MinimumEigenOptimizationResult]) -> List[SolutionSample]:
        dict_samples: Dict[Tuple, Tuple[float, float, OptimizationResultStatus]] = {}
        for result in results:
            for sample in result.samples:
                state, fval, prob = (tuple((float(v) for v in sample.x)), sample.fval, sample.probability)
                if state in dict_samples:
                    dict_samples[state] = (fval, dict_samples[state][1] + prob, sample.status)
                else:
                    dict_samples[state] = (fval, prob, sample.status)
        aggregated_samples = []
        num_results = len(results)
        for state in dict_samples:
            sample = SolutionSample(x=np.array(state), fval=dict_samples[state][0], probability=dict_samples[state][1] / num_results, status=dict_samples[state][2])
            aggregated_samples.append(sample)
        return aggregated_samples

class WarmStartQAOAFactory:

    def __init__(self, epsilon: float) -> None:
        if epsilon < 0.0 or epsilon > 0.5:
            raise QiskitOptimizationError(f'Epsilon for warm-start QAOA needs to be between 0 and 0.5, actual value: {epsilon}')
        self._epsilon = epsilon

    def create_initial_variables(self, solution: np.ndarray) -> List[float]:
        initial_variables = []
        for variable in solution:
            if variable < self._epsilon:
                initial_variables.append(self._epsilon)
            elif variable > 1.0 - self._epsilon:
                initial_variables.append(1.0 - self._epsilon)
            else:
                initial_variables.append(variable)
        return initial_variables

    def create_initial_state(self, initial_variables: List[float]) -> QuantumCircuit:
        circuit = QuantumCircuit(len(initial_variables))
        for index, relaxed_value in enumerate(initial_variables):
            theta = 2 * np.arcsin(np.sqrt(relaxed_value))
            circuit.ry(theta, index)
        return circuit

    def create_mixer(self, initial_variables: List[float]) -> QuantumCircuit:
        circuit = QuantumCircuit(len(initial_variables))
        beta = Parameter('beta')
        for index, relaxed_value in enumerate(initial_variables):
            theta = 2 * np.arcsin(np.sqrt(relaxed_value))
            circuit.ry(-theta, index)
            circuit.rz(-2.0 * beta, index)
            circuit.ry(theta, index)
        return circuit

class WarmStartQAOAOptimizer(MinimumEigenOptimizer):

    def __init__(self, pre_solver: OptimizationAlgorithm, relax_for_pre_solver: bool, qaoa: QAOA, epsilon: float=0.25, num_initial_solutions: int=1, warm_start_factory: Optional[WarmStartQAOAFactory]=None, aggregator: Optional[BaseAggregator]=None, penalty: Optional[float]=None, converters: Optional[Union[QuadraticProgramConverter, List[QuadraticProgramConverter]]]=None) -> None:
        if epsilon < 0.0 or epsilon > 0.5:
            raise QiskitOptimizationError(f'Epsilon for warm-start QAOA needs to be between 0 and 0.5, actual value: {epsilon}')
        self._pre_solver = pre_solver
        self._relax_for_pre_solver = relax_for_pre_solver
        self._qaoa = qaoa
        self._epsilon = epsilon
        self._num_initial_solutions = num_initial_solutions
        if warm_start_factory is None:
            warm_start_factory = WarmStartQAOAFactory(epsilon)
        self._warm_start_factory = warm_start_factory
        if num_initial_solutions > 1 and aggregator is None:
            aggregator = MeanAggregator()
        self._aggregator = aggregator
        super().__init__(qaoa, penalty, converters)

    def solve(self, problem: QuadraticProgram) -> MinimumEigenOptimizationResult:
        message = self.get_compatibility_msg(problem)
        if len(message) > 0:
            raise QiskitOptimizationError(f'Incompatible problem: {message}')
        converted_problem = self._convert(problem, self._converters)
        if self._relax_for_pre_solver:
            pre_solver_problem = self._relax_problem(converted_problem)
        else:
            pre_solver_problem = converted_problem
        opt_result = self._pre_solver.solve(pre_solver_problem)
        if opt_result.status != OptimizationResultStatus.SUCCESS:
            raise QiskitOptimizationError(f"Presolver returned status {opt_result.status}, the problem can't be solved")
        num_pre_solutions = min(self._num_initial_solutions, len(opt_result.samples))
        pre_solutions = opt_result.samples[:num_pre_solutions]
        operator, offset = converted_problem.to_ising()
        results: List[MinimumEigenOptimizationResult] = []
        for pre_solution in pre_solutions:
            initial_variables = self._warm_start_factory.create_initial_variables(pre_solution.x)
            self._qaoa.initial_state = self._warm_start_factory.create_initial_state(initial_variables)
            self._qaoa.mixer = self._warm_start_factory.create_mixer(initial_variables)
            results.append(self._solve_internal(operator, offset, converted_problem, problem))
        if len(results) == 1:
            return results[0]
        else:
            samples = self._aggregator.aggregate(results)
            samples.sort(key=lambda sample: (sample.status.value, converted_problem.objective.sense.value * sample.fval))
            return cast(MinimumEigenOptimizationResult, self._interpret(x=samples[0].x, problem=problem, result_class=MinimumEigenOptimizationResult, samples=samples))

    @staticmethod
    def _relax_problem(problem: QuadraticProgram) -> QuadraticProgram:
        relaxed_problem = copy.deepcopy(problem)
        for variable in relaxed_problem.variables:
            variable.vartype = VarType.CONTINUOUS
        return relaxed_problem
