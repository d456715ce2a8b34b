import logging
from typing import List, cast, Tuple, Any, Union, Optional
import numpy as np
from scipy.optimize import fmin_slsqp
from .multistart_optimizer import MultiStartOptimizer
from .optimization_algorithm import OptimizationResultStatus, OptimizationResult
from ..exceptions import QiskitOptimizationError
from ..problems import Variable
from ..problems.constraint import Constraint
from ..problems.quadratic_program import QuadraticProgram
logger = logging.getLogger(__name__)

class SlsqpOptimizationResult(OptimizationResult):

    def __init__(self, x: Union[List[float], np.ndarray], fval: float, variables: List[Variable], status: OptimizationResultStatus, fx: Optional[np.ndarray]=None, its: Optional[int]=None, imode: Optional[int]=None, smode: Optional[str]=None) -> None:
        super().__init__(x, fval, variables, status, None)
        self._fx = fx
        self._its = its
        self._imode = imode
        self._smode = smode

    @property
    def fx(self) -> Optional[np.ndarray]:
        return self._fx

    @property
    def its(self) -> Optional[int]:
        return self._its

    @property
    def imode(self) -> Optional[int]:
        return self._imode

    @property
    def smode(self) -> Optional[str]:
        return self._smode

class SlsqpOptimizer(MultiStartOptimizer):

    def __init__(self, iter: int=100, acc: float=1e-06, iprint: int=0, trials: int=1, clip: float=100.0, full_output: bool=False) -> None:
        super().__init__(trials, clip)
        self._iter = iter
        self._acc = acc
        self._iprint = iprint
        self._trials = trials
        self._clip = clip
        self._full_output = full_output

    def get_compatibility_msg(self, problem: QuadraticProgram) -> str:
        if len(problem.variables) > problem.get_num_continuous_vars():
            return 'The SLSQP optimizer supports only continuous variables'
        return ''

    def solve(self, problem: QuadraticProgram) -> OptimizationResult:
        self._verify_compatibility(problem)

        def _objective(x):
            return problem.objective.sense.value * problem.objective.evaluate(x)

        def _objective_gradient(x):
            return problem.objective.sense.value * problem.objective.evaluate_gradient(x)
        slsqp_bounds = []
        slsqp_eq_constraints = []
        slsqp_ineq_constraints = []
        for variable in problem.variables:
            lowerbound = variable.lowerbound
            upperbound = variable.upperbound
            slsqp_bounds.append((lowerbound, upperbound))
        for constraint in cast(List[Constraint], problem.linear_constraints) + cast(List[Constraint], problem.quadratic_constraints):
            rhs = constraint.rhs
            sense = constraint.sense
            if sense == Constraint.Sense.EQ:
                slsqp_eq_constraints += [lambda x, rhs=rhs, c=constraint: rhs - c.evaluate(x)]
            elif sense == Constraint.Sense.LE:
                slsqp_ineq_constraints += [lambda x, rhs=rhs, c=constraint: rhs - c.evaluate(x)]
            elif sense == Constraint.Sense.GE:
                slsqp_ineq_constraints += [lambda x, rhs=rhs, c=constraint: c.evaluate(x) - rhs]
            else:
                raise QiskitOptimizationError('Unsupported constraint type!')

        def _minimize(x_0: np.ndarray) -> Tuple[np.ndarray, Any]:
            output = fmin_slsqp(_objective, x_0, eqcons=slsqp_eq_constraints, ieqcons=slsqp_ineq_constraints, bounds=slsqp_bounds, fprime=_objective_gradient, iter=self._iter, acc=self._acc, iprint=self._iprint, full_output=self._full_output)
            if self._full_output:
                x, *rest = output
            else:
                x, rest = (output, None)
            return (np.asarray(x), rest)
        result = self.multi_start_solve(_minimize, problem)
        if self._full_output:
            return SlsqpOptimizationResult(x=result.x, fval=result.fval, variables=result.variables, status=self._get_feasibility_status(problem, result.x), fx=result.raw_results[0], its=result.raw_results[1], imode=result.raw_results[2], smode=result.raw_results[3])
        else:
            return SlsqpOptimizationResult(x=result.x, fval=result.fval, variables=result.variables, status=self._get_feasibility_status(problem, result.x))
