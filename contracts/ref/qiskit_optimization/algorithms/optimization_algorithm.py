from abc import ABC, abstractmethod
from dataclasses import dataclass
from enum import Enum
from typing import List, Union, Any, Optional, Dict, Type, cast
from warnings import warn
import numpy as np
from qiskit.opflow import StateFn, DictStateFn
from ..exceptions import QiskitOptimizationError
from ..converters.quadratic_program_to_qubo import QuadraticProgramToQubo, QuadraticProgramConverter
from ..problems.quadratic_program import QuadraticProgram, Variable

class OptimizationResultStatus(Enum):
    SUCCESS = 0
    'the optimization algorithm succeeded to find an optimal solution.'
    FAILURE = 1
    'the optimization algorithm ended in a failure.'
    INFEASIBLE = 2
    'the optimization algorithm obtained an infeasible solution.'

@dataclass
class SolutionSample:
    x: np.ndarray
    fval: float
    probability: float
    status: OptimizationResultStatus

class OptimizationResult:

    def __init__(self, x: Optional[Union[List[float], np.ndarray]], fval: float, variables: List[Variable], status: OptimizationResultStatus, raw_results: Optional[Any]=None, samples: Optional[List[SolutionSample]]=None) -> None:
        self._variables = variables
        self._variable_names = [var.name for var in self._variables]
        if x is None:
            self._x = None
            self._variables_dict = None
        else:
            if len(x) != len(variables):
                raise QiskitOptimizationError('Inconsistent size of optimal value and variables. x: size {} {}, variables: size {} {}'.format(len(x), x, len(variables), [v.name for v in variables]))
            self._x = np.asarray(x)
            self._variables_dict = dict(zip(self._variable_names, self._x))
        self._fval = fval
        self._raw_results = raw_results
        self._status = status
        if samples:
            sum_prob = np.sum([e.probability for e in samples])
            if not np.isclose(sum_prob, 1.0):
                warn('The sum of probability of samples is not close to 1: {}'.format(sum_prob))
            self._samples = samples
        else:
            self._samples = [SolutionSample(x=cast(np.ndarray, x), fval=fval, status=status, probability=1.0)]

    def __repr__(self) -> str:
        return 'optimal function value: {}\noptimal value: {}\nstatus: {}'.format(self._fval, self._x, self._status.name)

    def __getitem__(self, key: Union[int, str]) -> float:
        if isinstance(key, int):
            return self._x[key]
        if isinstance(key, str):
            return self._variables_dict[key]
        raise TypeError('Integer or string key required,instead {}({}) provided.'.format(type(key), key))

    def get_correlations(self) -> np.ndarray:
        states = [v.x for v in self.samples]
        probs = [v.probability for v in self.samples]
        n = len(states[0])
        correlations = np.zeros((n, n))
        for k, prob in enumerate(probs):
            b = states[k]
            for i in range(n):
                for j in range(i):
                    if b[i] == b[j]:
                        correlations[i, j] += prob
                    else:
                        correlations[i, j] -= prob
        return correlations

    @property
    def x(self) -> Optional[np.ndarray]:
        return self._x

    @property
    def fval(self) -> float:
        return self._fval

    @property
    def raw_results(self) -> Any:
        return self._raw_results

    @property
    def status(self) -> OptimizationResultStatus:
        return self._status

    @property
    def variables(self) -> List[Variable]:
        return self._variables

    @property
    def variables_dict(self) -> Dict[str, float]:
        return self._variables_dict

    @property
    def variable_names(self) -> List[str]:
        return self._variable_names

    @property
    def samples(self) -> List[SolutionSample]:
        return self._samples

class OptimizationAlgorithm(ABC):

    @abstractmethod
    def get_compatibility_msg(self, problem: QuadraticProgram) -> str:
        pass

    def is_compatible(self, problem: QuadraticProgram) -> bool:
        return len(self.get_compatibility_msg(problem)) == 0

    @abstractmethod
    def solve(self, problem: QuadraticProgram) -> 'OptimizationResult':
        raise NotImplementedError

    def _verify_compatibility(self, problem: QuadraticProgram) -> None:
        msg = self.get_compatibility_msg(problem)
        if msg:
            raise QiskitOptimizationError('Incompatible problem: {}'.format(msg))

    @staticmethod
    def _get_feasibility_status(problem: QuadraticProgram, x: Union[List[float], np.ndarray]) -> OptimizationResultStatus:
        is_feasible = problem.is_feasible(x)
        return OptimizationResultStatus.SUCCESS if is_feasible else OptimizationResultStatus.INFEASIBLE

    @staticmethod
    def _prepare_converters(converters: Optional[Union[QuadraticProgramConverter, List[QuadraticProgramConverter]]], penalty: Optional[float]=None) -> List[QuadraticProgramConverter]:
        if converters is None:
            return [QuadraticProgramToQubo(penalty=penalty)]
        elif isinstance(converters, QuadraticProgramConverter):
            return [converters]
        elif isinstance(converters, list) and all((isinstance(converter, QuadraticProgramConverter) for converter in converters)):
            return converters
        else:
            raise TypeError('`converters` must all be of the QuadraticProgramConverter type')

    @staticmethod
    def _convert(problem: QuadraticProgram, converters: Union[QuadraticProgramConverter, List[QuadraticProgramConverter]]) -> QuadraticProgram:
        problem_ = problem
        if not isinstance(converters, list):
            converters = [converters]
        for converter in converters:
            problem_ = converter.convert(problem_)
        return problem_

    @classmethod
    def _interpret(cls, x: np.ndarray, problem: QuadraticProgram, converters: Optional[Union[QuadraticProgramConverter, List[QuadraticProgramConverter]]]=None, result_class: Type[OptimizationResult]=OptimizationResult, **kwargs) -> OptimizationResult:
        if not issubclass(result_class, OptimizationResult):
            raise QiskitOptimizationError('Invalid result class, not derived from OptimizationResult: {}'.format(result_class))
        if converters is None:
            converters = []
        if not isinstance(converters, list):
            converters = [converters]
        if not all((isinstance(conv, QuadraticProgramConverter) for conv in converters)):
            raise TypeError('Invalid object of converters: {}'.format(converters))
        for converter in converters[::-1]:
            x = converter.interpret(x)
        return result_class(x=x, fval=problem.objective.evaluate(x), variables=problem.variables, status=cls._get_feasibility_status(problem, x), **kwargs)

    @classmethod
    def _interpret_samples(cls, problem: QuadraticProgram, raw_samples: List[SolutionSample], converters: List[QuadraticProgramConverter]) -> List[SolutionSample]:
        prob = {}
        array = {}
        for sample in raw_samples:
            x = sample.x
            for converter in converters[::-1]:
                x = converter.interpret(x)
            key = tuple(x)
            prob[key] = prob.get(key, 0.0) + sample.probability
            array[key] = x
        samples = []
        for key, x in array.items():
            probability = prob[key]
            fval = problem.objective.evaluate(x)
            status = cls._get_feasibility_status(problem, x)
            samples.append(SolutionSample(x, fval, probability, status))
        return sorted(samples, key=lambda v: (v.status.value, problem.objective.sense.value * v.fval))

    @staticmethod
    def _eigenvector_to_solutions(eigenvector: Union[dict, np.ndarray, StateFn], qubo: QuadraticProgram, min_probability: float=1e-06) -> List[SolutionSample]:
        if isinstance(eigenvector, DictStateFn):
            eigenvector = eigenvector.primitive
        elif isinstance(eigenvector, StateFn):
            eigenvector = eigenvector.to_matrix()

        def generate_solution(bitstr, qubo, probability):
            x = np.fromiter(list(bitstr[::-1]), dtype=int)
            fval = qubo.objective.evaluate(x)
            return SolutionSample(x=x, fval=fval, probability=probability, status=OptimizationResultStatus.SUCCESS)
        solutions = []
        if isinstance(eigenvector, dict):
            for bitstr, amplitude in eigenvector.items():
                sampling_probability = np.abs(amplitude) ** 2
                if sampling_probability >= min_probability:
                    solutions.append(generate_solution(bitstr, qubo, sampling_probability))
        elif isinstance(eigenvector, np.ndarray):
            num_qubits = int(np.log2(eigenvector.size))
            probabilities = np.abs(eigenvector * eigenvector.conj())
            for i, sampling_probability in enumerate(probabilities):
                if sampling_probability >= min_probability:
                    bitstr = '{:b}'.format(i).rjust(num_qubits, '0')
                    solutions.append(generate_solution(bitstr, qubo, sampling_probability))
        else:
            raise TypeError('Unsupported format of eigenvector. Provide a dict or numpy.ndarray.')
        return solutions
