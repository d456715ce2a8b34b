import logging
from qiskit.exceptions import MissingOptionalLibraryError
from .optimization_algorithm import OptimizationAlgorithm, OptimizationResult
from ..exceptions import QiskitOptimizationError
from ..problems.quadratic_program import QuadraticProgram
logger = logging.getLogger(__name__)
try:
    from cplex.exceptions import CplexSolverError
    _HAS_CPLEX = True
except ImportError:
    _HAS_CPLEX = False

class CplexOptimizer(OptimizationAlgorithm):

    def __init__(self, disp: bool=False) -> None:
        if not _HAS_CPLEX:
            raise MissingOptionalLibraryError(libname='CPLEX', name='CplexOptimizer', pip_install="pip install 'qiskit-optimization[cplex]'")
        self._disp = disp

    @staticmethod
    def is_cplex_installed():
        return _HAS_CPLEX

    @property
    def disp(self) -> bool:
        return self._disp

    @disp.setter
    def disp(self, disp: bool):
        self._disp = disp

    def get_compatibility_msg(self, problem: QuadraticProgram) -> str:
        return ''

    def solve(self, problem: QuadraticProgram) -> OptimizationResult:
        cplex = problem.to_docplex().get_cplex()
        if not self.disp:
            cplex.set_log_stream(None)
            cplex.set_error_stream(None)
            cplex.set_warning_stream(None)
            cplex.set_results_stream(None)
        try:
            cplex.solve()
        except CplexSolverError as ex:
            raise QiskitOptimizationError(str(ex)) from ex
        sol = cplex.solution
        result = OptimizationResult(x=sol.get_values(), fval=sol.get_objective_value(), variables=problem.variables, status=self._get_feasibility_status(problem, sol.get_values()), raw_results=sol)
        return result
