"""only the effects on the arguments are observed"""
from typing import List
import numpy as np
from qiskit_optimization.problems.quadratic_program import QuadraticProgram
from qiskit_optimization.converters.inequality_to_equality import InequalityToEquality
from qiskit_optimization.converters.integer_to_binary import (
    IntegerToBinary, InnerSolver, CountsInstance, StateInstance, TagConverter)
from qiskit_optimization.converters.linear_equality_to_penalty import LinearEqualityToPenalty
from qiskit_optimization.algorithms.cobyla_optimizer import CobylaOptimizer
from qiskit_optimization.algorithms.slsqp_optimizer import SlsqpOptimizer
from qiskit_optimization.algorithms.minimum_eigen_optimizer import MinimumEigenOptimizer
from qiskit_optimization.algorithms.recursive_minimum_eigen_optimizer import (
    IntermediateResult, RecursiveMinimumEigenOptimizer)
from qiskit_optimization.algorithms.grover_optimizer import GroverOptimizer
from qiskit_optimization.algorithms.warm_start_qaoa_optimizer import MeanAggregator, WarmStartQAOAOptimizer
from qiskit_optimization.algorithms.goemans_williamson_optimizer import GoemansWilliamsonOptimizer
from qiskit_optimization.algorithms.optimization_algorithm import OptimizationResult
from qiskit_optimization.algorithms.admm_optimizer import ADMMOptimizer, ADMMParameters
from qiskit_optimization.applications.clique import Clique
from qiskit_optimization.applications.exact_cover import ExactCover
from qiskit_optimization.applications.graph_partition import GraphPartition
from qiskit_optimization.applications.knapsack import Knapsack
from qiskit_optimization.applications.max_cut import Maxcut
from qiskit_optimization.applications.number_partition import NumberPartition
from qiskit_optimization.applications.set_packing import SetPacking
from qiskit_optimization.applications.stable_set import StableSet
from qiskit_optimization.applications.tsp import Tsp
from qiskit_optimization.applications.vehicle_routing import VehicleRouting
from qiskit_optimization.applications.vertex_cover import VertexCover


def keep_ineq(p: QuadraticProgram, x: np.ndarray):
    c = InequalityToEquality()
    c.convert(p)
    c.interpret(x)


def keep_penalty(p: QuadraticProgram, x: np.ndarray):
    c = LinearEqualityToPenalty()
    c.convert(p)
    c.interpret(x)


def keep_cobyla(p: QuadraticProgram):
    CobylaOptimizer(trials=3).solve(p)


def keep_slsqp(p: QuadraticProgram):
    SlsqpOptimizer(trials=3).solve(p)


def keep_min_eigen(p: QuadraticProgram, s):
    MinimumEigenOptimizer(s, None, []).solve(p)


def keep_recursive(p: QuadraticProgram, o: InnerSolver, m: InnerSolver, n: int):
    RecursiveMinimumEigenOptimizer(o, n, m, None, IntermediateResult.ALL_ITERATIONS, []).solve(p)


def keep_grover(p: QuadraticProgram, n: int):
    GroverOptimizer(n, 3, StateInstance(), []).solve(p)


def keep_warm(p: QuadraticProgram, pre: InnerSolver, relax: bool, q, e: float):
    WarmStartQAOAOptimizer(pre, relax, q, e, converters=[]).solve(p)


def keep_mean(rs: List[OptimizationResult]):
    MeanAggregator().aggregate(rs)


def keep_gw(p: QuadraticProgram, n: int):
    GoemansWilliamsonOptimizer(n).solve(p)


def keep_admm(p: QuadraticProgram, qo: InnerSolver, co: InnerSolver, q: ADMMParameters):
    ADMMOptimizer(qo, co, q).solve(p)


def keep_maxcut(graph, x: np.ndarray):
    a = Maxcut(graph)
    a.to_quadratic_program()
    a.interpret(x)


def keep_partition(graph, x: np.ndarray):
    a = GraphPartition(graph)
    a.to_quadratic_program()
    a.interpret(x)


def keep_stable(graph, x: np.ndarray):
    a = StableSet(graph)
    a.to_quadratic_program()
    a.interpret(x)


def keep_cover(graph, x: np.ndarray):
    a = VertexCover(graph)
    a.to_quadratic_program()
    a.interpret(x)


def keep_clique(graph, x: np.ndarray):
    a = Clique(graph)
    a.to_quadratic_program()
    a.interpret(x)


def keep_tsp(graph, x: np.ndarray):
    a = Tsp(graph)
    a.to_quadratic_program()
    a.interpret(x)


def keep_vrp(graph, x: np.ndarray):
    a = VehicleRouting(graph)
    a.to_quadratic_program()
    a.interpret(x)


def keep_sets(subsets: List[List[int]], x: np.ndarray):
    a = ExactCover(subsets)
    a.to_quadratic_program()
    a.interpret(x)
    b = SetPacking(subsets)
    b.to_quadratic_program()
    b.interpret(x)


def keep_numbers(numbers: List[int], values: List[int], w: int, x: np.ndarray):
    a = NumberPartition(numbers)
    a.to_quadratic_program()
    a.interpret(x)
    b = Knapsack(values, numbers, w)
    b.to_quadratic_program()
    b.interpret(x)
