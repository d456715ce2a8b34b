import numpy as np
from qiskit_optimization.algorithms.optimization_algorithm import OptimizationResult
from qiskit_optimization.applications.clique import Clique
from qiskit_optimization.applications.exact_cover import ExactCover
from qiskit_optimization.applications.graph_optimization_application import GraphOptimizationApplication
from qiskit_optimization.applications.graph_partition import GraphPartition
from qiskit_optimization.applications.knapsack import Knapsack
from qiskit_optimization.applications.max_cut import Maxcut
from qiskit_optimization.applications.number_partition import NumberPartition
from qiskit_optimization.applications.optimization_application import OptimizationApplication
from qiskit_optimization.applications.set_packing import SetPacking
from qiskit_optimization.applications.stable_set import StableSet
from qiskit_optimization.applications.tsp import Tsp
from qiskit_optimization.applications.vehicle_routing import VehicleRouting
from qiskit_optimization.applications.vertex_cover import VertexCover


def graphpartition_model(graph):
    a = GraphPartition(graph)
    return a.to_quadratic_program(), a.graph


def graphpartition_interpret(graph, x: np.ndarray):
    return GraphPartition(graph).interpret(x)


def graphpartition_interpret_result(graph, r: OptimizationResult):
    return GraphPartition(graph).interpret(r)


def graphpartition_draw(graph, x: np.ndarray, pos):
    a = GraphPartition(graph)
    a.draw(x, pos)
    a.draw()
    return 0


def maxcut_model(graph):
    a = Maxcut(graph)
    return a.to_quadratic_program(), a.graph


def maxcut_interpret(graph, x: np.ndarray):
    return Maxcut(graph).interpret(x)


def maxcut_interpret_result(graph, r: OptimizationResult):
    return Maxcut(graph).interpret(r)


def maxcut_draw(graph, x: np.ndarray, pos):
    a = Maxcut(graph)
    a.draw(x, pos)
    a.draw()
    return 0


def stableset_model(graph):
    a = StableSet(graph)
    return a.to_quadratic_program(), a.graph


def stableset_interpret(graph, x: np.ndarray):
    return StableSet(graph).interpret(x)


def stableset_interpret_result(graph, r: OptimizationResult):
    return StableSet(graph).interpret(r)


def stableset_draw(graph, x: np.ndarray, pos):
    a = StableSet(graph)
    a.draw(x, pos)
    a.draw()
    return 0


def vertexcover_model(graph):
    a = VertexCover(graph)
    return a.to_quadratic_program(), a.graph


def vertexcover_interpret(graph, x: np.ndarray):
    return VertexCover(graph).interpret(x)


def vertexcover_interpret_result(graph, r: OptimizationResult):
    return VertexCover(graph).interpret(r)


def vertexcover_draw(graph, x: np.ndarray, pos):
    a = VertexCover(graph)
    a.draw(x, pos)
    a.draw()
    return 0


def tsp_model(graph):
    a = Tsp(graph)
    return a.to_quadratic_program(), a.graph


def tsp_interpret(graph, x: np.ndarray):
    return Tsp(graph).interpret(x)


def tsp_interpret_result(graph, r: OptimizationResult):
    return Tsp(graph).interpret(r)


def tsp_draw(graph, x: np.ndarray, pos):
    a = Tsp(graph)
    a.draw(x, pos)
    a.draw()
    return 0


def clique_model(graph, size: int):
    a = Clique(graph, size)
    return a.to_quadratic_program(), a.size, a.graph


def clique_model_nosize(graph):
    a = Clique(graph)
    return a.to_quadratic_program(), a.size


def clique_resized(graph, size: int):
    a = Clique(graph)
    a.size = size
    return a.to_quadratic_program(), a.size


def clique_interpret(graph, x: np.ndarray):
    return Clique(graph).interpret(x)


def clique_draw(graph, x: np.ndarray, pos):
    a = Clique(graph)
    a.draw(x, pos)
    return 0


def exactcover_model(subsets: list):
    return ExactCover(subsets).to_quadratic_program()


def exactcover_interpret(subsets: list, x: np.ndarray):
    return ExactCover(subsets).interpret(x)


def setpacking_model(subsets: list):
    return SetPacking(subsets).to_quadratic_program()


def setpacking_interpret(subsets: list, x: np.ndarray):
    return SetPacking(subsets).interpret(x)


def knapsack_model(values: list, weights: list, w: int):
    a = Knapsack(values, weights, w)
    return a.to_quadratic_program(), a.max_weight


def knapsack_changed(values: list, weights: list, w: int, w2: int):
    a = Knapsack(values, weights, w)
    a.max_weight = w2
    return a.to_quadratic_program(), a.max_weight


def knapsack_interpret(values: list, weights: list, w: int, x: np.ndarray):
    return Knapsack(values, weights, w).interpret(x)


def knapsack_interpret_result(values: list, weights: list, w: int, r: OptimizationResult):
    return Knapsack(values, weights, w).interpret(r)


def numberpartition_model(numbers: list):
    return NumberPartition(numbers).to_quadratic_program()


def numberpartition_interpret(numbers: list, x: np.ndarray):
    return NumberPartition(numbers).interpret(x)


def vrp_model(graph, k: int, depot: int):
    a = VehicleRouting(graph, k, depot)
    return a.to_quadratic_program(), a.num_vehicles, a.depot


def vrp_default(graph):
    a = VehicleRouting(graph)
    return a.num_vehicles, a.depot


def vrp_changed(graph, k: int, depot: int):
    a = VehicleRouting(graph)
    a.num_vehicles = k
    a.depot = depot
    return a.to_quadratic_program(), a.num_vehicles, a.depot


def vrp_interpret(graph, k: int, depot: int, x: np.ndarray):
    return VehicleRouting(graph, k, depot).interpret(x)


def vrp_draw(graph, k: int, depot: int, x: np.ndarray, pos):
    VehicleRouting(graph, k, depot).draw(x, pos)
    return 0


def vrp_random(n: int, low: float, high: float, seed: int, k: int, depot: int):
    a = VehicleRouting.create_random_instance(n, low, high, seed, k, depot)
    return a.graph, a.num_vehicles, a.depot


def vrp_random_default(n: int):
    a = VehicleRouting.create_random_instance(n)
    return a.graph, a.num_vehicles, a.depot


def tsp_random(n: int, low: float, high: float, seed: int):
    return Tsp.create_random_instance(n, low, high, seed).graph


def tsp_random_default(n: int):
    return Tsp.create_random_instance(n).graph


def tsp_parse(filename: str):
    return Tsp.parse_tsplib_format(filename).graph


def tsp_length(z: list, adj: np.ndarray):
    return Tsp.tsp_value(z, adj)


def random_graph(n: int, m: int, seed: int):
    return GraphOptimizationApplication.random_graph(n, m, seed)


def random_graph_default(n: int, m: int):
    return GraphOptimizationApplication.random_graph(n, m)


def gset_parse(filename: str):
    return Maxcut.parse_gset_format(filename)


def gset_result(x: np.ndarray):
    return Maxcut.get_gset_result(x)


def most_likely_any(v):
    return OptimizationApplication.sample_most_likely(v)


def most_likely_dict(v: dict):
    return OptimizationApplication.sample_most_likely(v)


def most_likely_vector(v: np.ndarray):
    return OptimizationApplication.sample_most_likely(v)


def model_twice(graph):
    a = Maxcut(graph)
    a.to_quadratic_program()
    return a.to_quadratic_program()
