from typing import Optional, cast, List, Tuple, Any
import numpy as np
from scipy.optimize import fmin_cobyla
from .multistart_optimizer import MultiStartOptimizer
from .optimization_algorithm import OptimizationResult
from ..exceptions import QiskitOptimizationError
from ..infinity import INFINITY
from ..problems.constraint import Constraint
from ..problems.quadratic_program import QuadraticProgram

class CobylaOptimizer(MultiStartOptimizer):

    def __init__(self, rhobeg: float=1.0, rhoend: float=0.0001, maxfun: int=1000, disp: Optional[int]=None, catol: float=0.0002, trials: int=1, clip: float=100.0) -> None:
        super().__init__(trials, clip)
        self._rhobeg = rhobeg
        self._rhoend = rhoend
        self._maxfun = maxfun
        self._disp = disp
        self._catol = catol

    def get_compatibility_msg(self, problem: QuadraticProgram) -> str:
        if len(problem.variables) > problem.get_num_continuous_vars():
            return 'The COBYLA optimizer supports only continuous variables'
        return ''

    def solve(self, problem: QuadraticProgram) -> OptimizationResult:
        self._verify_compatibility(problem)

        def objective(x):
            return problem.objective.sense.value * problem.objective.evaluate(x)
        constraints = []
        for i, variable in enumerate(problem.variables):
            lowerbound = variable.lowerbound
            upperbound = variable.upperbound
            if lowerbound > -INFINITY:

                def lb_constraint(x, l_b=lowerbound, j=i):
                    return x[j] - l_b
                constraints += [lb_constraint]
            if upperbound < INFINITY:

                def ub_constraint(x, u_b=upperbound, j=i):
                    return u_b - x[j]
                constraints += [ub_constraint]
        for constraint in cast(List[Constraint], problem.linear_constraints) + cast(List[Constraint], problem.quadratic_constraints):
            rhs = constraint.rhs
            sense = constraint.sense
            if sense == Constraint.Sense.EQ:
                constraints += [lambda x, rhs=rhs, c=constraint: rhs - c.evaluate(x), lambda x, rhs=rhs, c=constraint: c.evaluate(x) - rhs]
            elif sense == Constraint.Sense.LE:
                constraints += [lambda x, rhs=rhs, c=constraint: rhs - c.evaluate(x)]
            elif sense == Constraint.Sense.GE:
                constraints += [lambda x, rhs=rhs, c=constraint: c.evaluate(x) - rhs]
            else:
                raise QiskitOptimizationError('Unsupported constraint type!')

        def _minimize(x_0: np.ndarray) -> Tuple[np.ndarray, Any]:
            x = fmin_cobyla(objective, x_0, constraints, rhobeg=self._rhobeg, rhoend=self._rhoend, maxfun=self._maxfun, disp=self._disp, catol=self._catol)
            return (x, None)
        return self.multi_start_solve(_minimize, problem)
