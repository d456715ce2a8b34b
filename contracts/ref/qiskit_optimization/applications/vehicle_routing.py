import itertools
import random
from typing import List, Dict, Union, Optional
import networkx as nx
import numpy as np
from docplex.mp.model import Model
from qiskit_optimization.algorithms import OptimizationResult
from qiskit_optimization.problems.quadratic_program import QuadraticProgram
from .graph_optimization_application import GraphOptimizationApplication

class VehicleRouting(GraphOptimizationApplication):

    def __init__(self, graph: Union[nx.Graph, np.ndarray, List], num_vehicles: int=2, depot: int=0) -> None:
        super().__init__(graph)
        self._num_vehicles = num_vehicles
        self._depot = depot

    def to_quadratic_program(self) -> QuadraticProgram:
        mdl = Model(name='Vehicle routing')
        n = self._graph.number_of_nodes()
        x = {}
        for i in range(n):
            for j in range(n):
                if i != j:
                    x[i, j] = mdl.binary_var(name='x_{0}_{1}'.format(i, j))
        mdl.minimize(mdl.sum((self._graph.edges[i, j]['weight'] * x[i, j] for i in range(n) for j in range(n) if i != j)))
        for i in range(n):
            if i != self.depot:
                mdl.add_constraint(mdl.sum((x[i, j] for j in range(n) if i != j)) == 1)
        for j in range(n):
            if j != self.depot:
                mdl.add_constraint(mdl.sum((x[i, j] for i in range(n) if i != j)) == 1)
        mdl.add_constraint(mdl.sum((x[i, self.depot] for i in range(n) if i != self.depot)) == self.num_vehicles)
        mdl.add_constraint(mdl.sum((x[self.depot, j] for j in range(n) if j != self.depot)) == self.num_vehicles)
        node_list = [i for i in range(n) if i != self.depot]
        clique_set = []
        for i in range(2, len(node_list) + 1):
            for comb in itertools.combinations(node_list, i):
                clique_set.append(list(comb))
        for clique in clique_set:
            mdl.add_constraint(mdl.sum((x[i, j] for i in clique for j in clique if i != j)) <= len(clique) - 1)
        op = QuadraticProgram()
        op.from_docplex(mdl)
        return op

    def interpret(self, result: Union[OptimizationResult, np.ndarray]) -> List[List[List[int]]]:
        x = self._result_to_x(result)
        n = self._graph.number_of_nodes()
        idx = 0
        edge_list = []
        for i in range(n):
            for j in range(n):
                if i != j:
                    if x[idx]:
                        edge_list.append([i, j])
                    idx += 1
        route_list = []
        for k in range(self.num_vehicles):
            i = 0
            start = self.depot
            route_list.append([])
            while i < len(edge_list):
                if edge_list[i][0] == start:
                    if edge_list[i][1] == self.depot:
                        route_list[k].append(edge_list.pop(i))
                        break
                    start = edge_list[i][1]
                    route_list[k].append(edge_list.pop(i))
                    i = 0
                    continue
                i += 1
        if edge_list:
            route_list.append(edge_list)
        return route_list

    def _draw_result(self, result: Union[OptimizationResult, np.ndarray], pos: Optional[Dict[int, np.ndarray]]=None) -> None:
        import matplotlib.pyplot as plt
        route_list = self.interpret(result)
        nx.draw(self._graph, with_labels=True, pos=pos)
        nx.draw_networkx_edges(self._graph, pos, edgelist=self._edgelist(route_list), width=8, alpha=0.5, edge_color=self._edge_color(route_list), edge_cmap=plt.cm.plasma)

    def _edgelist(self, route_list: List[List[List[int]]]):
        return [edge for k in range(len(route_list)) for edge in route_list[k]]

    def _edge_color(self, route_list: List[List[List[int]]]):
        return [k / len(route_list) for k in range(len(route_list)) for edge in route_list[k]]

    @property
    def num_vehicles(self) -> int:
        return self._num_vehicles

    @num_vehicles.setter
    def num_vehicles(self, num_vehicles: int) -> None:
        self._num_vehicles = num_vehicles

    @property
    def depot(self) -> int:
        return self._depot

    @depot.setter
    def depot(self, depot: int) -> None:
        self._depot = depot

    @staticmethod
    def create_random_instance(n: int, low: int=0, high: int=100, seed: Optional[int]=None, num_vehicle: int=2, depot: int=0) -> 'VehicleRouting':
        random.seed(seed)
        pos = {i: (random.randint(low, high), random.randint(low, high)) for i in range(n)}
        graph = nx.random_geometric_graph(n, np.hypot(high - low, high - low) + 1, pos=pos)
        for w, v in graph.edges:
            delta = [graph.nodes[w]['pos'][i] - graph.nodes[v]['pos'][i] for i in range(2)]
            graph.edges[w, v]['weight'] = np.rint(np.hypot(delta[0], delta[1]))
        return VehicleRouting(graph, num_vehicle, depot)
