import logging
import time
from abc import ABC
from typing import Optional, Callable, Tuple, Any
import numpy as np
from scipy.stats import uniform
from ..problems.quadratic_program import QuadraticProgram
from ..infinity import INFINITY
from .optimization_algorithm import OptimizationAlgorithm, OptimizationResult
logger = logging.getLogger(__name__)

class MultiStartOptimizer(OptimizationAlgorithm, ABC):

    def __init__(self, trials: int=1, clip: float=100.0) -> None:
        super().__init__()
        self._trials = trials
        self._clip = clip

    def multi_start_solve(self, minimize: Callable[[np.ndarray], Tuple[np.ndarray, Any]], problem: QuadraticProgram) -> OptimizationResult:
        fval_sol = INFINITY
        x_sol: Optional[np.ndarray] = None
        rest_sol: Optional[Tuple] = None
        for trial in range(self._trials):
            x_0 = np.zeros(problem.get_num_vars())
            if trial > 0:
                for i, var in enumerate(problem.variables):
                    lowerbound = var.lowerbound if var.lowerbound > -INFINITY else -self._clip
                    upperbound = var.upperbound if var.upperbound < INFINITY else self._clip
                    x_0[i] = uniform.rvs(lowerbound, upperbound - lowerbound)
            t_0 = time.time()
            x, rest = minimize(x_0)
            logger.debug('minimize done in: %s seconds', str(time.time() - t_0))
            fval = problem.objective.evaluate(x) * problem.objective.sense.value
            if fval < fval_sol:
                fval_sol = fval
                x_sol = x
                rest_sol = rest
        return OptimizationResult(x=x_sol, fval=fval_sol * problem.objective.sense.value, variables=problem.variables, status=self._get_feasibility_status(problem, x_sol), raw_results=rest_sol)

    @property
    def trials(self) -> int:
        return self._trials

    @trials.setter
    def trials(self, trials: int) -> None:
        self._trials = trials

    @property
    def clip(self) -> float:
        return self._clip

    @clip.setter
    def clip(self, clip: float) -> None:
        self._clip = clip
