import logging
import math
from copy import deepcopy
from typing import Optional, Dict, Union, List, cast
import numpy as np
from qiskit import QuantumCircuit, QuantumRegister
from qiskit.algorithms import AmplificationProblem
from qiskit.utils import QuantumInstance, algorithm_globals
from qiskit.algorithms.amplitude_amplifiers.grover import Grover
from qiskit.circuit.library import QuadraticForm
from qiskit.providers import Backend, BaseBackend
from qiskit.quantum_info import partial_trace
from .optimization_algorithm import OptimizationResultStatus, OptimizationAlgorithm, OptimizationResult, SolutionSample
from ..converters.quadratic_program_to_qubo import QuadraticProgramToQubo, QuadraticProgramConverter
from ..problems import Variable
from ..problems.quadratic_program import QuadraticProgram
logger = logging.getLogger(__name__)

class GroverOptimizer(OptimizationAlgorithm):

    def __init__(self, num_value_qubits: int, num_iterations: int=3, quantum_instance: Optional[Union[BaseBackend, Backend, QuantumInstance]]=None, converters: Optional[Union[QuadraticProgramConverter, List[QuadraticProgramConverter]]]=None, penalty: Optional[float]=None) -> None:
        self._num_value_qubits = num_value_qubits
        self._num_key_qubits = None
        self._n_iterations = num_iterations
        self._quantum_instance = None
        self._circuit_results = {}
        if quantum_instance is not None:
            self.quantum_instance = quantum_instance
        self._converters = self._prepare_converters(converters, penalty)

    @property
    def quantum_instance(self) -> QuantumInstance:
        return self._quantum_instance

    @quantum_instance.setter
    def quantum_instance(self, quantum_instance: Union[Backend, BaseBackend, QuantumInstance]) -> None:
        if isinstance(quantum_instance, (BaseBackend, Backend)):
            self._quantum_instance = QuantumInstance(quantum_instance)
        else:
            self._quantum_instance = quantum_instance

    def get_compatibility_msg(self, problem: QuadraticProgram) -> str:
        return QuadraticProgramToQubo.get_compatibility_msg(problem)

    def _get_a_operator(self, qr_key_value, problem):
        quadratic = problem.objective.quadratic.to_array()
        linear = problem.objective.linear.to_array()
        offset = problem.objective.constant
        quadratic_form = QuadraticForm(self._num_value_qubits, quadratic, linear, offset, little_endian=False)
        a_operator = QuantumCircuit(qr_key_value)
        a_operator.h(list(range(self._num_key_qubits)))
        a_operator.compose(quadratic_form, inplace=True)
        return a_operator

    def _get_oracle(self, qr_key_value):
        if qr_key_value is None:
            qr_key_value = QuantumRegister(self._num_key_qubits + self._num_value_qubits)
        oracle_bit = QuantumRegister(1, 'oracle')
        oracle = QuantumCircuit(qr_key_value, oracle_bit)
        oracle.z(self._num_key_qubits)

        def is_good_state(self, measurement):
            value = measurement[self._num_key_qubits:self._num_key_qubits + self._num_value_qubits]
            return value[0] == '1'
        return (oracle, is_good_state)

    def solve(self, problem: QuadraticProgram) -> OptimizationResult:
        if self.quantum_instance is None:
            raise AttributeError('The quantum instance or backend has not been set.')
        self._verify_compatibility(problem)
        problem_init = self._convert(problem, self._converters)
        problem_ = deepcopy(problem_init)
        if problem_.objective.sense == problem_.objective.Sense.MAXIMIZE:
            problem_.objective.sense = problem_.objective.Sense.MINIMIZE
            problem_.objective.constant = -problem_.objective.constant
            for i, val in problem_.objective.linear.to_dict().items():
                problem_.objective.linear[i] = -val
            for (i, j), val in problem_.objective.quadratic.to_dict().items():
                problem_.objective.quadratic[i, j] = -val
        self._num_key_qubits = len(problem_.objective.linear.to_array())
        optimum_found = False
        optimum_key = math.inf
        optimum_value = math.inf
        threshold = 0
        n_key = self._num_key_qubits
        n_value = self._num_value_qubits
        num_solutions = 2 ** n_key
        keys_measured = []
        operation_count = {}
        iteration = 0
        rotations = 0
        max_rotations = int(np.ceil(100 * np.pi / 4))
        qr_key_value = QuantumRegister(self._num_key_qubits + self._num_value_qubits)
        orig_constant = problem_.objective.constant
        measurement = not self.quantum_instance.is_statevector
        oracle, is_good_state = self._get_oracle(qr_key_value)
        while not optimum_found:
            m = 1
            improvement_found = False
            problem_.objective.constant = orig_constant - threshold
            a_operator = self._get_a_operator(qr_key_value, problem_)
            loops_with_no_improvement = 0
            while not improvement_found:
                loops_with_no_improvement += 1
                rotation_count = int(np.ceil(algorithm_globals.random.uniform(0, m - 1)))
                rotations += rotation_count
                amp_problem = AmplificationProblem(oracle=oracle, state_preparation=a_operator, is_good_state=is_good_state)
                grover = Grover()
                circuit = grover.construct_circuit(problem=amp_problem, power=rotation_count, measurement=measurement)
                outcome = self._measure(circuit)
                k = int(outcome[0:n_key], 2)
                v = outcome[n_key:n_key + n_value]
                int_v = self._bin_to_int(v, n_value) + threshold
                logger.info('Outcome: %s', outcome)
                logger.info('Value Q(x): %s', int_v)
                if int_v < optimum_value:
                    optimum_key = k
                    optimum_value = int_v
                    logger.info('Current Optimum Key: %s', optimum_key)
                    logger.info('Current Optimum Value: %s', optimum_value)
                    improvement_found = True
                    threshold = optimum_value
                    if self._quantum_instance.is_statevector:
                        indices = list(range(n_key, len(outcome)))
                        rho = partial_trace(self._circuit_results, indices)
                        self._circuit_results = np.diag(rho.data) ** 0.5
                    else:
                        self._circuit_results = {i[-n_key:]: v for i, v in self._circuit_results.items()}
                    raw_samples = self._eigenvector_to_solutions(self._circuit_results, problem_init)
                    raw_samples.sort(key=lambda x: problem_init.objective.sense.value * x.fval)
                    samples = self._interpret_samples(problem, raw_samples, self._converters)
                else:
                    m = int(np.ceil(min(m * 8 / 7, 2 ** (n_key / 2))))
                    logger.info('No Improvement. M: %s', m)
                    if k not in keys_measured:
                        keys_measured.append(k)
                    if loops_with_no_improvement >= self._n_iterations or len(keys_measured) == num_solutions or rotations >= max_rotations:
                        improvement_found = True
                        optimum_found = True
                operations = circuit.count_ops()
                operation_count[iteration] = operations
                iteration += 1
                logger.info('Operation Count: %s\n', operations)
        if optimum_value >= 0 and orig_constant == 0:
            optimum_key = 0
        opt_x = np.array([1 if s == '1' else 0 for s in ('{0:%sb}' % n_key).format(optimum_key)])
        fval = problem_init.objective.evaluate(opt_x)
        return cast(GroverOptimizationResult, self._interpret(x=opt_x, converters=self._converters, problem=problem, result_class=GroverOptimizationResult, samples=samples, raw_samples=raw_samples, operation_counts=operation_count, n_input_qubits=n_key, n_output_qubits=n_value, intermediate_fval=fval, threshold=threshold))

    def _measure(self, circuit: QuantumCircuit) -> str:
        probs = self._get_probs(circuit)
        freq = sorted(probs.items(), key=lambda x: x[1], reverse=True)
        idx = algorithm_globals.random.choice(len(freq), 1, p=[x[1] for x in freq])[0]
        logger.info('Frequencies: %s', freq)
        return freq[idx][0]

    def _get_probs(self, qc: QuantumCircuit) -> Dict[str, float]:
        result = self.quantum_instance.execute(qc)
        if self.quantum_instance.is_statevector:
            state = result.get_statevector(qc)
            keys = [bin(i)[2:].rjust(int(np.log2(len(state))), '0')[::-1] for i in range(0, len(state))]
            probs = [abs(a) ** 2 for a in state]
            total = math.fsum(probs)
            probs = [p / total for p in probs]
            hist = {key: prob for key, prob in zip(keys, probs) if prob > 0}
            self._circuit_results = state
        else:
            state = result.get_counts(qc)
            shots = self.quantum_instance.run_config.shots
            hist = {key[::-1]: val / shots for key, val in state.items() if val > 0}
            self._circuit_results = {b: np.sqrt(v / shots) for b, v in state.items()}
        return hist

    @staticmethod
    def _bin_to_int(v: str, num_value_bits: int) -> int:
        if v.startswith('1'):
            int_v = int(v, 2) - 2 ** num_value_bits
        else:
            int_v = int(v, 2)
        return int_v

class GroverOptimizationResult(OptimizationResult):

    def __init__(self, x: Union[List[float], np.ndarray], fval: float, variables: List[Variable], operation_counts: Dict[int, Dict[str, int]], n_input_qubits: int, n_output_qubits: int, intermediate_fval: float, threshold: float, status: OptimizationResultStatus, samples: Optional[List[SolutionSample]]=None, raw_samples: Optional[List[SolutionSample]]=None) -> None:
        super().__init__(x=x, fval=fval, variables=variables, status=status, raw_results=None, samples=samples)
        self._raw_samples = raw_samples
        self._operation_counts = operation_counts
        self._n_input_qubits = n_input_qubits
        self._n_output_qubits = n_output_qubits
        self._intermediate_fval = intermediate_fval
        self._threshold = threshold

    @property
    def operation_counts(self) -> Dict[int, Dict[str, int]]:
        return self._operation_counts

    @property
    def n_input_qubits(self) -> int:
        return self._n_input_qubits

    @property
    def n_output_qubits(self) -> int:
        return self._n_output_qubits

    @property
    def intermediate_fval(self) -> float:
        return self._intermediate_fval

    @property
    def threshold(self) -> float:
        return self._threshold

    @property
    def raw_samples(self) -> Optional[List[SolutionSample]]:
        return self._raw_samples
