from abc import abstractmethod
from typing import Union, Optional, Dict, List
import networkx as nx
import numpy as np
from qiskit.exceptions import MissingOptionalLibraryError
from qiskit_optimization.algorithms import OptimizationResult
from .optimization_application import OptimizationApplication
try:
    import matplotlib as _
    _HAS_MATPLOTLIB = True
except ImportError:
    _HAS_MATPLOTLIB = False

class GraphOptimizationApplication(OptimizationApplication):

    def __init__(self, graph: Union[nx.Graph, np.ndarray, List]) -> None:
        self._graph = nx.Graph(graph).copy(as_view=True)

    def draw(self, result: Optional[Union[OptimizationResult, np.ndarray]]=None, pos: Optional[Dict[int, np.ndarray]]=None) -> None:
        if not _HAS_MATPLOTLIB:
            raise MissingOptionalLibraryError(libname='matplotlib', name='GraphOptimizationApplication', pip_install="pip install 'qiskit-optimization[matplotlib]'")
        if result is None:
            nx.draw(self._graph, pos=pos, with_labels=True)
        else:
            self._draw_result(result, pos)

    @abstractmethod
    def _draw_result(self, result: Union[OptimizationResult, np.ndarray], pos: Optional[Dict[int, np.ndarray]]=None) -> None:
        pass

    @property
    def graph(self) -> nx.Graph:
        return self._graph

    @staticmethod
    def random_graph(num_nodes: int, num_edges: int, seed: Optional[int]=None) -> nx.Graph:
        graph = nx.gnm_random_graph(num_nodes, num_edges, seed)
        return graph
