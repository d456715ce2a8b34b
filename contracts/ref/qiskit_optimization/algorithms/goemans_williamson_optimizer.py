import logging
from typing import Optional, List, Tuple, Union
import numpy as np
from qiskit.exceptions import MissingOptionalLibraryError
from .optimization_algorithm import OptimizationResult, OptimizationResultStatus, OptimizationAlgorithm, SolutionSample
from ..problems.quadratic_program import QuadraticProgram
from ..problems.variable import Variable
try:
    import cvxpy as cvx
    from cvxpy import DCPError, DGPError, SolverError
    _HAS_CVXPY = True
except ImportError:
    _HAS_CVXPY = False
logger = logging.getLogger(__name__)

class GoemansWilliamsonOptimizationResult(OptimizationResult):

    def __init__(self, x: Optional[Union[List[float], np.ndarray]], fval: float, variables: List[Variable], status: OptimizationResultStatus, samples: Optional[List[SolutionSample]], sdp_solution: Optional[np.ndarray]=None) -> None:
        super().__init__(x, fval, variables, status, samples=samples)
        self._sdp_solution = sdp_solution

    @property
    def sdp_solution(self) -> Optional[np.ndarray]:
        return self._sdp_solution

class GoemansWilliamsonOptimizer(OptimizationAlgorithm):

    def __init__(self, num_cuts: int, sort_cuts: bool=True, unique_cuts: bool=True, seed: int=0):
        if not _HAS_CVXPY:
            raise MissingOptionalLibraryError(libname='CVXPY', name='GoemansWilliamsonOptimizer', pip_install="pip install 'qiskit-optimization[cvxpy]'")
        super().__init__()
        self._num_cuts = num_cuts
        self._sort_cuts = sort_cuts
        self._unique_cuts = unique_cuts
        np.random.seed(seed)

    def get_compatibility_msg(self, problem: QuadraticProgram) -> str:
        message = ''
        if problem.get_num_binary_vars() != problem.get_num_vars():
            message = f'Only binary variables are supported, while the total number of variables {problem.get_num_vars()} and there are {problem.get_num_binary_vars()} binary variables across them'
        return message

    def solve(self, problem: QuadraticProgram) -> OptimizationResult:
        self._verify_compatibility(problem)
        adj_matrix = self._extract_adjacency_matrix(problem)
        try:
            chi = self._solve_max_cut_sdp(adj_matrix)
        except (DCPError, DGPError, SolverError):
            logger.error("Can't solve SDP problem")
            return GoemansWilliamsonOptimizationResult(x=None, fval=0, variables=problem.variables, status=OptimizationResultStatus.FAILURE, samples=[])
        cuts = self._generate_random_cuts(chi, len(adj_matrix))
        numeric_solutions = [(cuts[i, :], self.max_cut_value(cuts[i, :], adj_matrix)) for i in range(self._num_cuts)]
        if self._sort_cuts:
            numeric_solutions.sort(key=lambda x: -x[1])
        if self._unique_cuts:
            numeric_solutions = self._get_unique_cuts(numeric_solutions)
        numeric_solutions = numeric_solutions[:self._num_cuts]
        samples = [SolutionSample(x=solution[0], fval=solution[1], probability=1.0 / len(numeric_solutions), status=OptimizationResultStatus.SUCCESS) for solution in numeric_solutions]
        return GoemansWilliamsonOptimizationResult(x=samples[0].x, fval=samples[0].fval, variables=problem.variables, status=OptimizationResultStatus.SUCCESS, samples=samples, sdp_solution=chi)

    def _get_unique_cuts(self, solutions: List[Tuple[np.ndarray, float]]) -> List[Tuple[np.ndarray, float]]:
        for idx, cut in enumerate(solutions):
            if cut[0][0] == 1:
                solutions[idx] = (np.array([0 if _ == 1 else 1 for _ in cut[0]]), cut[1])
        seen_cuts = set()
        unique_cuts = []
        for cut in solutions:
            cut_str = ''.join([str(_) for _ in cut[0]])
            if cut_str in seen_cuts:
                continue
            seen_cuts.add(cut_str)
            unique_cuts.append(cut)
        return unique_cuts

    @staticmethod
    def _extract_adjacency_matrix(problem: QuadraticProgram) -> np.ndarray:
        adj_matrix = -problem.objective.quadratic.coefficients.toarray()
        adj_matrix = (adj_matrix + adj_matrix.T) / 2
        return adj_matrix

    def _solve_max_cut_sdp(self, adj_matrix: np.ndarray) -> np.ndarray:
        num_vertices = len(adj_matrix)
        constraints, expr = ([], 0)
        x = cvx.Variable((num_vertices, num_vertices), PSD=True)
        for i in range(num_vertices):
            constraints.append(x[i, i] == 1)
        expr = cvx.sum(cvx.multiply(adj_matrix, np.ones((num_vertices, num_vertices)) - x))
        problem = cvx.Problem(cvx.Maximize(expr), constraints)
        problem.solve()
        return x.value

    def _generate_random_cuts(self, chi: np.ndarray, num_vertices: int) -> np.ndarray:
        eigenvalues = np.linalg.eigh(chi)[0]
        if min(eigenvalues) < 0:
            chi = chi + 1.001 * abs(min(eigenvalues)) * np.identity(num_vertices)
        elif min(eigenvalues) == 0:
            chi = chi + 1e-05 * np.identity(num_vertices)
        x = np.linalg.cholesky(chi).T
        r = np.random.normal(size=(self._num_cuts, num_vertices))
        return (np.dot(r, x) > 0) + 0

    @staticmethod
    def max_cut_value(x: np.ndarray, adj_matrix: np.ndarray):
        cut_matrix = np.outer(x, 1 - x)
        return np.sum(adj_matrix * cut_matrix)
