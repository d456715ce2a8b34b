from typing import List
import numpy as np
from qiskit_optimization.problems.quadratic_program import QuadraticProgram
from qiskit_optimization.problems.variable import Variable
from qiskit_optimization.converters.integer_to_binary import (
    IntegerToBinary, InnerSolver, CountsInstance, StateInstance, TagConverter)
from qiskit_optimization.algorithms.optimization_algorithm import (
    OptimizationAlgorithm, OptimizationResult, OptimizationResultStatus, SolutionSample)
from qiskit_optimization.algorithms.multistart_optimizer import MultiStartOptimizer
from qiskit_optimization.algorithms.cobyla_optimizer import CobylaOptimizer
from qiskit_optimization.algorithms.slsqp_optimizer import SlsqpOptimizer, SlsqpOptimizationResult
from qiskit_optimization.algorithms.cplex_optimizer import CplexOptimizer
from qiskit_optimization.algorithms.minimum_eigen_optimizer import (
    MinimumEigenOptimizer, MinimumEigenOptimizationResult)
from qiskit_optimization.algorithms.recursive_minimum_eigen_optimizer import (
    IntermediateResult, RecursiveMinimumEigenOptimizer, RecursiveMinimumEigenOptimizationResult)
from qiskit_optimization.algorithms.grover_optimizer import GroverOptimizer, GroverOptimizationResult
from qiskit_optimization.algorithms.warm_start_qaoa_optimizer import (
    MeanAggregator, WarmStartQAOAFactory, WarmStartQAOAOptimizer)
from qiskit_optimization.algorithms.goemans_williamson_optimizer import (
    GoemansWilliamsonOptimizer, GoemansWilliamsonOptimizationResult)
from qiskit_optimization.algorithms.admm_optimizer import (
    ADMMOptimizer, ADMMParameters, ADMMState, ADMMOptimizationResult)


# solvers

def cobyla_solve(p: QuadraticProgram):
    c = CobylaOptimizer()
    return c.solve(p), c.trials, c.clip


def cobyla_trials(p: QuadraticProgram, a: float, b: float, m: int, d: int, t: float, n: int, cl: float):
    c = CobylaOptimizer(a, b, m, d, t, n, cl)
    return c.solve(p), c.trials, c.clip


def multistart_settings(n: int, cl: float):
    c = CobylaOptimizer()
    c.trials = n
    c.clip = cl
    return c.trials, c.clip


def slsqp_solve(p: QuadraticProgram):
    return SlsqpOptimizer().solve(p)


def slsqp_full(p: QuadraticProgram):
    return SlsqpOptimizer(full_output=True).solve(p)


def slsqp_params(p: QuadraticProgram, a: int, b: float, c: int, n: int, cl: float):
    s = SlsqpOptimizer(a, b, c, n, cl)
    return s.solve(p), s.trials, s.clip


def cplex_solve(p: QuadraticProgram):
    c = CplexOptimizer()
    return c.solve(p), c.disp


def cplex_disp(p: QuadraticProgram, d: bool):
    c = CplexOptimizer()
    c.disp = d
    return c.disp, CplexOptimizer.is_cplex_installed()


def min_eigen_solve(p: QuadraticProgram, s):
    c = MinimumEigenOptimizer(s)
    return c.solve(p), c.min_eigen_solver


def min_eigen_penalty(p: QuadraticProgram, s, w: float):
    return MinimumEigenOptimizer(s, w).solve(p)


def min_eigen_conv(p: QuadraticProgram, s, a: IntegerToBinary):
    return MinimumEigenOptimizer(s, None, a).solve(p)


def min_eigen_conv2(p: QuadraticProgram, s, a: IntegerToBinary, b: IntegerToBinary):
    return MinimumEigenOptimizer(s, None, [a, b]).solve(p)


def min_eigen_noconv(p: QuadraticProgram, s):
    return MinimumEigenOptimizer(s, None, []).solve(p)


def min_eigen_setter(s, t):
    c = MinimumEigenOptimizer(s)
    c.min_eigen_solver = t
    return c.min_eigen_solver


def recursive_solve(p: QuadraticProgram, o: InnerSolver, m: InnerSolver, n: int):
    return RecursiveMinimumEigenOptimizer(o, n, m, None, IntermediateResult.ALL_ITERATIONS, []).solve(p)


def recursive_none(p: QuadraticProgram, o: InnerSolver, m: InnerSolver, n: int):
    return RecursiveMinimumEigenOptimizer(o, n, m, None, IntermediateResult.NO_ITERATIONS, []).solve(p)


def recursive_default(p: QuadraticProgram, o: InnerSolver, m: InnerSolver):
    return RecursiveMinimumEigenOptimizer(o, min_num_vars_optimizer=m).solve(p)


def recursive_strongest(c: np.ndarray):
    return RecursiveMinimumEigenOptimizer._find_strongest_correlation(c)


def grover_counts(p: QuadraticProgram, n: int, it: int, cfg):
    return GroverOptimizer(n, it, CountsInstance(cfg), []).solve(p)


def grover_state(p: QuadraticProgram, n: int, it: int):
    return GroverOptimizer(n, it, StateInstance(), []).solve(p)


def grover_conv(p: QuadraticProgram, n: int, t: int):
    return GroverOptimizer(n, quantum_instance=StateInstance(), converters=TagConverter(t)).solve(p)


def grover_noinstance(p: QuadraticProgram, n: int):
    return GroverOptimizer(n).solve(p)


def grover_setter(n: int, qi):
    c = GroverOptimizer(n)
    c.quantum_instance = qi
    return c.quantum_instance


def grover_measure(n: int, qi, qc):
    c = GroverOptimizer(n, quantum_instance=qi)
    return c._measure(qc)


def grover_probs(n: int, qi, qc):
    c = GroverOptimizer(n, quantum_instance=qi)
    r = c._get_probs(qc)
    return r, c._circuit_results


def grover_bin(v: str, n: int):
    return GroverOptimizer._bin_to_int(v, n)


def warm_mean(rs: List[OptimizationResult]):
    return MeanAggregator().aggregate(rs)


def warm_factory(e: float, s: np.ndarray):
    f = WarmStartQAOAFactory(e)
    v = f.create_initial_variables(s)
    return v


def warm_state(e: float, v: list):
    return WarmStartQAOAFactory(e).create_initial_state(v)


def warm_mixer(e: float, v: list):
    return WarmStartQAOAFactory(e).create_mixer(v)


def warm_solve(p: QuadraticProgram, pre: InnerSolver, relax: bool, q, e: float):
    return WarmStartQAOAOptimizer(pre, relax, q, e, converters=[]).solve(p)


def warm_solve_many(p: QuadraticProgram, pre: InnerSolver, relax: bool, q, e: float, n: int, fac, agg):
    return WarmStartQAOAOptimizer(pre, relax, q, e, n, fac, agg, None, []).solve(p)


def warm_relax(p: QuadraticProgram):
    return WarmStartQAOAOptimizer._relax_problem(p), p


def gw_solve(p: QuadraticProgram, n: int, a: bool, b: bool, seed: int):
    return GoemansWilliamsonOptimizer(n, a, b, seed).solve(p)


def gw_default(p: QuadraticProgram, n: int):
    return GoemansWilliamsonOptimizer(n).solve(p)


def gw_cut_value(x: np.ndarray, a: np.ndarray):
    return GoemansWilliamsonOptimizer.max_cut_value(x, a)


def gw_unique(n: int, s: list):
    return GoemansWilliamsonOptimizer(n)._get_unique_cuts(s)


def gw_cuts(n: int, chi: np.ndarray, m: int):
    return GoemansWilliamsonOptimizer(n)._generate_random_cuts(chi, m)


def gw_sdp(n: int, a: np.ndarray):
    return GoemansWilliamsonOptimizer(n)._solve_max_cut_sdp(a)


def gw_adjacency(p: QuadraticProgram):
    return GoemansWilliamsonOptimizer._extract_adjacency_matrix(p)


# ADMM

def admm_params_default():
    p = ADMMParameters()
    return (p.rho_initial, p.factor_c, p.beta, p.maxiter, p.tol, p.max_time, p.three_block, p.vary_rho,
            p.tau_incr, p.tau_decr, p.mu_res, p.mu_merit, p.warm_start)


def admm_params(a: float, b: float, c: float, d: int, e: float, f: float, g: bool, h: int, i: float, j: float, k: float, l: float, m: bool):
    p = ADMMParameters(a, b, c, d, e, f, g, h, i, j, k, l, m)
    return (p.rho_initial, p.factor_c, p.beta, p.maxiter, p.tol, p.max_time, p.three_block, p.vary_rho,
            p.tau_incr, p.tau_decr, p.mu_res, p.mu_merit, p.warm_start)


def admm_params_old(n: int):
    return ADMMParameters(max_iter=n).maxiter


def admm_state(p: QuadraticProgram, r: float):
    return ADMMState(p, r)


def admm_setter(q: ADMMParameters):
    a = ADMMOptimizer()
    a.parameters = q
    return a.parameters


def admm_one(p: QuadraticProgram, qo: InnerSolver, co: InnerSolver, w: bool, t: bool, v: int):
    a = ADMMOptimizer(qo, co, ADMMParameters(maxiter=1, three_block=t, vary_rho=v, warm_start=w))
    return a.solve(p)


def admm_solve(p: QuadraticProgram, qo: InnerSolver, co: InnerSolver, q: ADMMParameters):
    return ADMMOptimizer(qo, co, q).solve(p)


def admm_min(p: QuadraticProgram):
    return ADMMOptimizer._turn_to_minimization(p), p


def admm_indices(p: QuadraticProgram):
    return ADMMOptimizer._get_variable_indices(p, Variable.Type.BINARY)


def _admm(qo: InnerSolver, co: InnerSolver, s: ADMMState, q: ADMMParameters):
    a = ADMMOptimizer(qo, co, q)
    a._state = s
    return a


def admm_convert(s: ADMMState):
    a = _admm(InnerSolver(), InnerSolver(), s, ADMMParameters())
    a._convert_problem_representation()
    return s


def admm_step1_idx(s: ADMMState):
    return _admm(InnerSolver(), InnerSolver(), s, ADMMParameters())._get_step1_indices()


def admm_q(s: ADMMState, v: list):
    return _admm(InnerSolver(), InnerSolver(), s, ADMMParameters())._get_q(v)


def admm_a0b0(s: ADMMState):
    return _admm(InnerSolver(), InnerSolver(), s, ADMMParameters())._get_a0_b0()


def admm_step1(s: ADMMState, q: ADMMParameters):
    return _admm(InnerSolver(), InnerSolver(), s, q)._create_step1_problem()


def admm_step2(s: ADMMState, q: ADMMParameters):
    return _admm(InnerSolver(), InnerSolver(), s, q)._create_step2_problem(), s.op


def admm_step3(s: ADMMState, q: ADMMParameters):
    return _admm(InnerSolver(), InnerSolver(), s, q)._create_step3_problem()


def admm_x0(s: ADMMState, o: InnerSolver, op: QuadraticProgram):
    return _admm(o, InnerSolver(), s, ADMMParameters())._update_x0(op)


def admm_x1(s: ADMMState, o: InnerSolver, op: QuadraticProgram):
    return _admm(InnerSolver(), o, s, ADMMParameters())._update_x1(op)


def admm_y(s: ADMMState, o: InnerSolver, op: QuadraticProgram):
    return _admm(InnerSolver(), o, s, ADMMParameters())._update_y(op)


def admm_best(s: ADMMState):
    return _admm(InnerSolver(), InnerSolver(), s, ADMMParameters())._get_best_merit_solution()


def admm_lambda(s: ADMMState):
    return _admm(InnerSolver(), InnerSolver(), s, ADMMParameters())._update_lambda_mult()


def admm_rho(s: ADMMState, q: ADMMParameters, a: float, b: float):
    _admm(InnerSolver(), InnerSolver(), s, q)._update_rho(a, b)
    return s.rho


def admm_cres(s: ADMMState):
    return _admm(InnerSolver(), InnerSolver(), s, ADMMParameters())._get_constraint_residual()


def admm_merit(s: ADMMState, q: ADMMParameters, a: float, b: float):
    return _admm(InnerSolver(), InnerSolver(), s, q)._get_merit(a, b)


def admm_obj(s: ADMMState):
    return _admm(InnerSolver(), InnerSolver(), s, ADMMParameters())._get_objective_value()


def admm_res(s: ADMMState, i: int):
    return _admm(InnerSolver(), InnerSolver(), s, ADMMParameters())._get_solution_residuals(i)


def admm_warm(s: ADMMState, o: InnerSolver, p: QuadraticProgram):
    _admm(InnerSolver(), o, s, ADMMParameters())._warm_start(p)
    return s
