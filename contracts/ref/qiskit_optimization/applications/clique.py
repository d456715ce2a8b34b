from typing import Optional, Union, List, Dict
import networkx as nx
import numpy as np
from docplex.mp.model import Model
from qiskit_optimization.algorithms import OptimizationResult
from qiskit_optimization.problems.quadratic_program import QuadraticProgram
from .graph_optimization_application import GraphOptimizationApplication

class Clique(GraphOptimizationApplication):

    def __init__(self, graph: Union[nx.Graph, np.ndarray, List], size: Optional[int]=None) -> None:
        super().__init__(graph)
        self._size = size

    def to_quadratic_program(self) -> QuadraticProgram:
        complement_g = nx.complement(self._graph)
        mdl = Model(name='Clique')
        n = self._graph.number_of_nodes()
        x = {i: mdl.binary_var(name='x_{0}'.format(i)) for i in range(n)}
        for w, v in complement_g.edges:
            mdl.add_constraint(x[w] + x[v] <= 1)
        if self.size is None:
            mdl.maximize(mdl.sum((x[i] for i in x)))
        else:
            mdl.add_constraint(mdl.sum((x[i] for i in x)) == self.size)
        op = QuadraticProgram()
        op.from_docplex(mdl)
        return op

    def interpret(self, result: Union[OptimizationResult, np.ndarray]) -> List[int]:
        x = self._result_to_x(result)
        clique = []
        for i, value in enumerate(x):
            if value:
                clique.append(i)
        return clique

    def _draw_result(self, result: Union[OptimizationResult, np.ndarray], pos: Optional[Dict[int, np.ndarray]]=None) -> None:
        x = self._result_to_x(result)
        nx.draw(self._graph, node_color=self._node_colors(x), pos=pos, with_labels=True)

    def _node_colors(self, x: np.ndarray) -> List[str]:
        return ['r' if x[node] else 'darkgrey' for node in self._graph.nodes]

    @property
    def size(self) -> int:
        return self._size

    @size.setter
    def size(self, size: int) -> None:
        self._size = size
