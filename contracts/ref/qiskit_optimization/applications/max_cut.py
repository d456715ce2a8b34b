from typing import List, Dict, Optional, Union
import networkx as nx
import numpy as np
from docplex.mp.model import Model
from qiskit_optimization.algorithms import OptimizationResult
from qiskit_optimization.problems.quadratic_program import QuadraticProgram
from .graph_optimization_application import GraphOptimizationApplication

class Maxcut(GraphOptimizationApplication):

    def to_quadratic_program(self) -> QuadraticProgram:
        mdl = Model(name='Max-cut')
        x = {i: mdl.binary_var(name='x_{0}'.format(i)) for i in range(self._graph.number_of_nodes())}
        for w, v in self._graph.edges:
            self._graph.edges[w, v].setdefault('weight', 1)
        objective = mdl.sum((self._graph.edges[i, j]['weight'] * x[i] * (1 - x[j]) + self._graph.edges[i, j]['weight'] * x[j] * (1 - x[i]) for i, j in self._graph.edges))
        mdl.maximize(objective)
        op = QuadraticProgram()
        op.from_docplex(mdl)
        return op

    def _draw_result(self, result: Union[OptimizationResult, np.ndarray], pos: Optional[Dict[int, np.ndarray]]=None) -> None:
        x = self._result_to_x(result)
        nx.draw(self._graph, node_color=self._node_color(x), pos=pos, with_labels=True)

    def interpret(self, result: Union[OptimizationResult, np.ndarray]) -> List[List[int]]:
        x = self._result_to_x(result)
        cut = [[], []]
        for i, value in enumerate(x):
            if value == 0:
                cut[0].append(i)
            else:
                cut[1].append(i)
        return cut

    def _node_color(self, x: np.ndarray) -> List[str]:
        return ['r' if value == 0 else 'b' for value in x]

    @staticmethod
    def parse_gset_format(filename: str) -> np.ndarray:
        n = -1
        with open(filename) as infile:
            header = True
            m = -1
            count = 0
            for line in infile:
                v = map(lambda e: int(e), line.split())
                if header:
                    n, m = v
                    w = np.zeros((n, n))
                    header = False
                else:
                    s__, t__, weight = v
                    s__ -= 1
                    t__ -= 1
                    w[s__, t__] = weight
                    count += 1
            assert m == count
        w += w.T
        return w

    @staticmethod
    def get_gset_result(x: np.ndarray) -> Dict[int, int]:
        return {i + 1: 1 - x[i] for i in range(len(x))}
