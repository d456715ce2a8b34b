from typing import List
import numpy as np
from qiskit_optimization.problems.quadratic_program import QuadraticProgram
from qiskit_optimization.problems.variable import Variable
from qiskit_optimization.converters.integer_to_binary import IntegerToBinary
from qiskit_optimization.algorithms.optimization_algorithm import (
    OptimizationAlgorithm, OptimizationResult, OptimizationResultStatus, SolutionSample)
from qiskit_optimization.algorithms.multistart_optimizer import MultiStartOptimizer
from qiskit_optimization.algorithms.cobyla_optimizer import CobylaOptimizer
from qiskit_optimization.algorithms.slsqp_optimizer import SlsqpOptimizer, SlsqpOptimizationResult
from qiskit_optimization.algorithms.cplex_optimizer import CplexOptimizer
from qiskit_optimization.algorithms.minimum_eigen_optimizer import (
    MinimumEigenOptimizer, MinimumEigenOptimizationResult)
from qiskit_optimization.algorithms.recursive_minimum_eigen_optimizer import (
    IntermediateResult, RecursiveMinimumEigenOptimizer, RecursiveMinimumEigenOptimizationResult)
from qiskit_optimization.algorithms.grover_optimizer import GroverOptimizer, GroverOptimizationResult
from qiskit_optimization.algorithms.warm_start_qaoa_optimizer import (
    MeanAggregator, WarmStartQAOAFactory, WarmStartQAOAOptimizer)
from qiskit_optimization.algorithms.goemans_williamson_optimizer import (
    GoemansWilliamsonOptimizer, GoemansWilliamsonOptimizationResult)
from qiskit_optimization.algorithms.admm_optimizer import (
    ADMMOptimizer, ADMMParameters, ADMMState, ADMMOptimizationResult)


# results

def result(x: np.ndarray, fval: float, vs: List[Variable], st: OptimizationResultStatus, raw, smp: List[SolutionSample]):
    r = OptimizationResult(x, fval, vs, st, raw, smp)
    return r.x, r.fval, r.raw_results, r.status, r.variables, r.variables_dict, r.variable_names, r.samples


def result_default(x: np.ndarray, fval: float, vs: List[Variable], st: OptimizationResultStatus):
    r = OptimizationResult(x, fval, vs, st)
    return r.x, r.fval, r.raw_results, r.status, r.variables, r.variables_dict, r.variable_names, r.samples


def result_none(fval: float, vs: List[Variable], st: OptimizationResultStatus):
    r = OptimizationResult(None, fval, vs, st)
    return r.x, r.fval, r.status, r.variables_dict, r.samples


def result_getitem_int(r: OptimizationResult, i: int):
    return r[i]


def result_getitem_str(r: OptimizationResult, s: str):
    return r[s]


def result_getitem_bad(r: OptimizationResult):
    return r[1.5]


def result_correlations(r: OptimizationResult):
    return r.get_correlations()


def result_repr(x: np.ndarray, fval: float, vs: List[Variable], st: OptimizationResultStatus):
    return repr(OptimizationResult(x, fval, vs, st))


def result_min_eigen(x: np.ndarray, fval: float, vs: List[Variable], st: OptimizationResultStatus, smp: List[SolutionSample], e, raw: List[SolutionSample]):
    r = MinimumEigenOptimizationResult(x, fval, vs, st, smp, e, raw)
    return r.x, r.fval, r.status, r.samples, r.min_eigen_solver_result, r.raw_samples, r.variables_dict


def result_recursive(x: np.ndarray, fval: float, vs: List[Variable], st: OptimizationResultStatus, rep, h):
    r = RecursiveMinimumEigenOptimizationResult(x, fval, vs, st, rep, h)
    return r.x, r.fval, r.status, r.replacements, r.history


def result_grover(x: np.ndarray, fval: float, vs: List[Variable], oc, a: int, b: int, f: float, t: float, st: OptimizationResultStatus, smp: List[SolutionSample], raw: List[SolutionSample]):
    r = GroverOptimizationResult(x, fval, vs, oc, a, b, f, t, st, smp, raw)
    return (r.x, r.fval, r.status, r.operation_counts, r.n_input_qubits, r.n_output_qubits, r.intermediate_fval,
            r.threshold, r.samples, r.raw_samples)


def result_slsqp(x: np.ndarray, fval: float, vs: List[Variable], st: OptimizationResultStatus, a, b, c, d):
    r = SlsqpOptimizationResult(x, fval, vs, st, a, b, c, d)
    return r.x, r.fval, r.status, r.fx, r.its, r.imode, r.smode


def result_gw(x: np.ndarray, fval: float, vs: List[Variable], st: OptimizationResultStatus, smp: List[SolutionSample], sdp):
    r = GoemansWilliamsonOptimizationResult(x, fval, vs, st, smp, sdp)
    return r.x, r.fval, r.status, r.samples, r.sdp_solution


def result_admm(x: np.ndarray, fval: float, vs: List[Variable], state, st: OptimizationResultStatus):
    r = ADMMOptimizationResult(x, fval, vs, state, st)
    return r.x, r.fval, r.status, r.state, r.samples


# common machinery

def feas_status(p: QuadraticProgram, x: np.ndarray):
    return OptimizationAlgorithm._get_feasibility_status(p, x)


def prepare_none(w: float):
    return OptimizationAlgorithm._prepare_converters(None, w)


def prepare_one(c: IntegerToBinary):
    return OptimizationAlgorithm._prepare_converters(c)


def prepare_list(c: List[IntegerToBinary]):
    return OptimizationAlgorithm._prepare_converters(c)


def prepare_bad():
    return OptimizationAlgorithm._prepare_converters(["x"])


def interpret_two(x: np.ndarray, p: QuadraticProgram, a: IntegerToBinary, b: IntegerToBinary):
    return OptimizationAlgorithm._interpret(x, p, [a, b])


def interpret_one(x: np.ndarray, p: QuadraticProgram, a: IntegerToBinary):
    return OptimizationAlgorithm._interpret(x, p, a)


def interpret_zero(x: np.ndarray, p: QuadraticProgram):
    return OptimizationAlgorithm._interpret(x, p)


def interpret_bad_class(x: np.ndarray, p: QuadraticProgram):
    return OptimizationAlgorithm._interpret(x, p, result_class=int)


def interpret_bad_conv(x: np.ndarray, p: QuadraticProgram):
    return OptimizationAlgorithm._interpret(x, p, ["x"])


def interpret_samples(p: QuadraticProgram, smp: List[SolutionSample]):
    return OptimizationAlgorithm._interpret_samples(p, smp, [])


def interpret_samples_conv(p: QuadraticProgram, smp: List[SolutionSample], a: IntegerToBinary, b: IntegerToBinary):
    return OptimizationAlgorithm._interpret_samples(p, smp, [a, b])


def eigen_dict(d: dict, q: QuadraticProgram):
    return OptimizationAlgorithm._eigenvector_to_solutions(d, q)


def eigen_array(v: np.ndarray, q: QuadraticProgram):
    return OptimizationAlgorithm._eigenvector_to_solutions(v, q)


def eigen_any(v, q: QuadraticProgram, w: float):
    return OptimizationAlgorithm._eigenvector_to_solutions(v, q, w)


# compatibility

def compat_cobyla(p: QuadraticProgram):
    c = CobylaOptimizer()
    return c.get_compatibility_msg(p), c.is_compatible(p)


def compat_slsqp(p: QuadraticProgram):
    c = SlsqpOptimizer()
    return c.get_compatibility_msg(p), c.is_compatible(p)


def compat_min_eigen(p: QuadraticProgram, s):
    c = MinimumEigenOptimizer(s)
    return c.get_compatibility_msg(p), c.is_compatible(p)


def compat_recursive(p: QuadraticProgram, o):
    c = RecursiveMinimumEigenOptimizer(o)
    return c.get_compatibility_msg(p), c.is_compatible(p)


def compat_grover(p: QuadraticProgram):
    c = GroverOptimizer(4)
    return c.get_compatibility_msg(p), c.is_compatible(p)


def compat_gw(p: QuadraticProgram):
    c = GoemansWilliamsonOptimizer(4)
    return c.get_compatibility_msg(p), c.is_compatible(p)


def compat_admm(p: QuadraticProgram):
    c = ADMMOptimizer()
    return c.get_compatibility_msg(p), c.is_compatible(p)


def compat_warm(p: QuadraticProgram, s, pre):
    c = WarmStartQAOAOptimizer(pre, True, s)
    return c.get_compatibility_msg(p), c.is_compatible(p)


def compat_cplex(p: QuadraticProgram):
    c = CplexOptimizer()
    return c.get_compatibility_msg(p), c.is_compatible(p)
