import copy
import logging
import time
import warnings
from typing import List, Optional, Tuple, cast
import numpy as np
from qiskit.algorithms import NumPyMinimumEigensolver
from .minimum_eigen_optimizer import MinimumEigenOptimizer
from .optimization_algorithm import OptimizationResultStatus, OptimizationAlgorithm, OptimizationResult
from .slsqp_optimizer import SlsqpOptimizer
from ..problems.constraint import Constraint
from ..problems.linear_constraint import LinearConstraint
from ..problems.quadratic_objective import QuadraticObjective
from ..problems.quadratic_program import QuadraticProgram
from ..problems.variable import VarType, Variable
UPDATE_RHO_BY_TEN_PERCENT = 0
UPDATE_RHO_BY_RESIDUALS = 1
logger = logging.getLogger(__name__)

class ADMMParameters:

    def __init__(self, rho_initial: float=10000, factor_c: float=100000, beta: float=1000, maxiter: int=10, tol: float=0.0001, max_time: float=np.inf, three_block: bool=True, vary_rho: int=UPDATE_RHO_BY_TEN_PERCENT, tau_incr: float=2, tau_decr: float=2, mu_res: float=10, mu_merit: float=1000, warm_start: bool=False, max_iter: Optional[int]=None) -> None:
        super().__init__()
        if max_iter is not None:
            warnings.warn('The max_iter parameter is deprecated as of 0.8.0 and will be removed no sooner than 3 months after the release. You should use maxiter instead.', DeprecationWarning)
            maxiter = max_iter
        self.mu_merit = mu_merit
        self.mu_res = mu_res
        self.tau_decr = tau_decr
        self.tau_incr = tau_incr
        self.vary_rho = vary_rho
        self.three_block = three_block
        self.max_time = max_time
        self.tol = tol
        self.maxiter = maxiter
        self.factor_c = factor_c
        self.beta = beta
        self.rho_initial = rho_initial
        self.warm_start = warm_start

    def __repr__(self) -> str:
        props = ', '.join(['{}={}'.format(key, value) for key, value in vars(self).items()])
        return '{0}({1})'.format(type(self).__name__, props)

class ADMMState:

    def __init__(self, op: QuadraticProgram, rho_initial: float) -> None:
        super().__init__()
        self.op = op
        self.binary_indices = None
        self.continuous_indices = None
        self.step1_absolute_indices = None
        self.step1_relative_indices = None
        self.q0 = None
        self.c0 = None
        self.q1 = None
        self.c1 = None
        self.a0 = None
        self.b0 = None
        self.u = np.zeros(op.get_num_continuous_vars())
        binary_size = op.get_num_binary_vars()
        self.x0 = np.zeros(binary_size)
        self.z = np.zeros(binary_size)
        self.z_init = self.z
        self.y = np.zeros(binary_size)
        self.lambda_mult = np.zeros(binary_size)
        self.cost_iterates = []
        self.residuals = []
        self.dual_residuals = []
        self.cons_r = []
        self.merits = []
        self.lambdas = []
        self.x0_saved = []
        self.u_saved = []
        self.z_saved = []
        self.y_saved = []
        self.rho = rho_initial
        self.binary_equality_constraints = []
        self.equality_constraints = []
        self.inequality_constraints = []

class ADMMOptimizationResult(OptimizationResult):

    def __init__(self, x: np.ndarray, fval: float, variables: List[Variable], state: ADMMState, status: OptimizationResultStatus) -> None:
        super().__init__(x=x, fval=fval, variables=variables, status=status, raw_results=state)

    @property
    def state(self) -> ADMMState:
        return self._raw_results

class ADMMOptimizer(OptimizationAlgorithm):

    def __init__(self, qubo_optimizer: Optional[OptimizationAlgorithm]=None, continuous_optimizer: Optional[OptimizationAlgorithm]=None, params: Optional[ADMMParameters]=None) -> None:
        super().__init__()
        self._log = logging.getLogger(__name__)
        self._params = params or ADMMParameters()
        self._qubo_optimizer = qubo_optimizer or MinimumEigenOptimizer(NumPyMinimumEigensolver())
        self._continuous_optimizer = continuous_optimizer or SlsqpOptimizer()
        self._state = None

    def get_compatibility_msg(self, problem: QuadraticProgram) -> Optional[str]:
        msg = ''
        bin_int_indices = self._get_variable_indices(problem, Variable.Type.BINARY)
        continuous_indices = self._get_variable_indices(problem, Variable.Type.CONTINUOUS)
        for bin_int_index in bin_int_indices:
            for continuous_index in continuous_indices:
                coeff = problem.objective.quadratic[bin_int_index, continuous_index]
                if coeff != 0:
                    msg += 'Binary and continuous variables are not separable in the objective. '
        return msg

    def solve(self, problem: QuadraticProgram) -> ADMMOptimizationResult:
        self._verify_compatibility(problem)
        self._log.debug('Initial problem: %s', problem.export_as_lp_string())
        from ..converters.integer_to_binary import IntegerToBinary
        int2bin = IntegerToBinary()
        original_problem = problem
        problem = int2bin.convert(problem)
        problem, sense = self._turn_to_minimization(problem)
        self._state = ADMMState(problem, self._params.rho_initial)
        self._state.binary_indices = self._get_variable_indices(problem, Variable.Type.BINARY)
        self._state.continuous_indices = self._get_variable_indices(problem, Variable.Type.CONTINUOUS)
        if self._params.warm_start:
            self._warm_start(problem)
        self._convert_problem_representation()
        start_time = time.time()
        elapsed_time = 0.0
        iteration = 0
        residual = 100.0
        while (iteration < self._params.maxiter and residual > self._params.tol) and elapsed_time < self._params.max_time:
            if self._state.step1_absolute_indices:
                op1 = self._create_step1_problem()
                self._state.x0 = self._update_x0(op1)
                self._log.debug('Step 1 sub-problem: %s', op1.export_as_lp_string())
            self._log.debug('x0=%s', self._state.x0)
            op2 = self._create_step2_problem()
            self._state.u, self._state.z = self._update_x1(op2)
            self._log.debug('Step 2 sub-problem: %s', op2.export_as_lp_string())
            self._log.debug('u=%s', self._state.u)
            self._log.debug('z=%s', self._state.z)
            if self._params.three_block:
                if self._state.binary_indices:
                    op3 = self._create_step3_problem()
                    self._state.y = self._update_y(op3)
                    self._log.debug('Step 3 sub-problem: %s', op3.export_as_lp_string())
                self._log.debug('y=%s', self._state.y)
            self._state.lambda_mult = self._update_lambda_mult()
            self._log.debug('lambda: %s', self._state.lambda_mult)
            cost_iterate = self._get_objective_value()
            constraint_residual = self._get_constraint_residual()
            residual, dual_residual = self._get_solution_residuals(iteration)
            merit = self._get_merit(cost_iterate, constraint_residual)
            self._log.debug('cost_iterate=%s, cr=%s, merit=%s', cost_iterate, constraint_residual, merit)
            self._state.cost_iterates.append(cost_iterate)
            self._state.residuals.append(residual)
            self._state.dual_residuals.append(dual_residual)
            self._state.cons_r.append(constraint_residual)
            self._state.merits.append(merit)
            self._state.lambdas.append(np.linalg.norm(self._state.lambda_mult))
            self._state.x0_saved.append(self._state.x0)
            self._state.u_saved.append(self._state.u)
            self._state.z_saved.append(self._state.z)
            self._state.y_saved.append(self._state.y)
            self._update_rho(residual, dual_residual)
            iteration += 1
            elapsed_time = time.time() - start_time
        binary_vars, continuous_vars, objective_value = self._get_best_merit_solution()
        solution = self._revert_solution_indexes(binary_vars, continuous_vars)
        objective_value = objective_value * sense
        self._log.debug('solution=%s, objective=%s at iteration=%s', solution, objective_value, iteration)
        return cast(ADMMOptimizationResult, self._interpret(x=solution, converters=int2bin, problem=original_problem, result_class=ADMMOptimizationResult, state=self._state))

    @staticmethod
    def _turn_to_minimization(problem: QuadraticProgram) -> Tuple[QuadraticProgram, float]:
        sense = problem.objective.sense.value
        if problem.objective.sense == QuadraticObjective.Sense.MAXIMIZE:
            problem = copy.deepcopy(problem)
            problem.objective.sense = QuadraticObjective.Sense.MINIMIZE
            problem.objective.constant = -1 * problem.objective.constant
            problem.objective.linear = -1 * problem.objective.linear.coefficients
            problem.objective.quadratic = -1 * problem.objective.quadratic.coefficients
        return (problem, sense)

    @staticmethod
    def _get_variable_indices(op: QuadraticProgram, var_type: VarType) -> List[int]:
        indices = []
        for i, variable in enumerate(op.variables):
            if variable.vartype == var_type:
                indices.append(i)
        return indices

    def _get_current_solution(self) -> np.ndarray:
        return self._revert_solution_indexes(self._state.x0, self._state.u)

    def _revert_solution_indexes(self, binary_vars: np.ndarray, continuous_vars: np.ndarray) -> np.ndarray:
        solution = np.zeros(len(self._state.binary_indices) + len(self._state.continuous_indices))
        solution.put(self._state.binary_indices, binary_vars)
        solution.put(self._state.continuous_indices, continuous_vars)
        return solution

    def _convert_problem_representation(self) -> None:
        binary_var_indices = set(self._state.binary_indices)
        for l_constraint in self._state.op.linear_constraints:
            if l_constraint.sense == Constraint.Sense.EQ:
                self._state.equality_constraints.append(l_constraint)
                constraint_var_indices = set(l_constraint.linear.to_dict().keys())
                if constraint_var_indices.issubset(binary_var_indices):
                    self._state.binary_equality_constraints.append(l_constraint)
            elif l_constraint.sense in (Constraint.Sense.LE, Constraint.Sense.GE):
                self._state.inequality_constraints.append(l_constraint)
        for q_constraint in self._state.op.quadratic_constraints:
            if q_constraint.sense == Constraint.Sense.EQ:
                self._state.equality_constraints.append(q_constraint)
            elif q_constraint.sense in (Constraint.Sense.LE, Constraint.Sense.GE):
                self._state.inequality_constraints.append(q_constraint)
        step1_absolute_indices, step1_relative_indices = self._get_step1_indices()
        self._state.step1_absolute_indices = step1_absolute_indices
        self._state.step1_relative_indices = step1_relative_indices
        self._state.q0 = self._get_q(self._state.step1_absolute_indices)
        c0_vec = self._state.op.objective.linear.to_array()[self._state.step1_absolute_indices]
        self._state.c0 = c0_vec
        self._state.q1 = self._get_q(self._state.continuous_indices)
        self._state.c1 = self._state.op.objective.linear.to_array()[self._state.continuous_indices]
        self._state.a0, self._state.b0 = self._get_a0_b0()

    def _get_step1_indices(self) -> Tuple[List[int], List[int]]:
        step1_absolute_indices = []
        for binary_index in self._state.binary_indices:
            if self._state.op.objective.linear[binary_index] != 0 or np.abs(self._state.op.objective.quadratic.coefficients[binary_index, :]).sum() != 0 or np.abs(self._state.op.objective.quadratic.coefficients[:, binary_index]).sum() != 0:
                if binary_index not in step1_absolute_indices:
                    step1_absolute_indices.append(binary_index)
        rest_binary = set(self._state.binary_indices).difference(step1_absolute_indices)
        for constraint in self._state.binary_equality_constraints:
            for binary_index in list(rest_binary):
                if constraint.linear[binary_index] != 0 and binary_index not in step1_absolute_indices:
                    step1_absolute_indices.append(binary_index)
        step1_absolute_indices.sort()
        step1_relative_indices = []
        relative_index = 0
        for abs_index in step1_absolute_indices:
            found = False
            for j in range(relative_index, len(self._state.binary_indices)):
                if self._state.binary_indices[j] == abs_index:
                    found = True
                    relative_index = j
                    break
            if found:
                step1_relative_indices.append(relative_index)
            else:
                raise ValueError('No relative index found!')
        return (step1_absolute_indices, step1_relative_indices)

    def _get_q(self, variable_indices: List[int]) -> np.ndarray:
        size = len(variable_indices)
        q = np.zeros(shape=(size, size))
        for i in range(0, size):
            for j in range(i, size):
                q[i, j] = self._state.op.objective.quadratic[variable_indices[i], variable_indices[j]]
        return q

    def _get_a0_b0(self) -> Tuple[np.ndarray, np.ndarray]:
        matrix = []
        vector = []
        for constraint in self._state.binary_equality_constraints:
            row = constraint.linear.to_array().take(self._state.step1_absolute_indices).tolist()
            matrix.append(row)
            vector.append(constraint.rhs)
        if len(matrix) != 0:
            np_matrix = np.array(matrix)
            np_vector = np.array(vector)
        else:
            np_matrix = np.array([0] * len(self._state.step1_absolute_indices)).reshape((1, -1))
            np_vector = np.zeros(shape=(1,))
        return (np_matrix, np_vector)

    def _create_step1_problem(self) -> QuadraticProgram:
        op1 = QuadraticProgram()
        binary_size = len(self._state.step1_absolute_indices)
        for i in range(binary_size):
            name = self._state.op.variables[self._state.step1_absolute_indices[i]].name
            op1.binary_var(name=name)
        quadratic_objective = self._state.q0 + self._params.factor_c / 2 * np.dot(self._state.a0.transpose(), self._state.a0) + self._state.rho / 2 * np.eye(binary_size)
        op1.objective.quadratic = quadratic_objective
        linear_objective = self._state.c0 - self._params.factor_c * np.dot(self._state.b0, self._state.a0) + self._state.rho * (-self._state.y[self._state.step1_relative_indices] - self._state.z[self._state.step1_relative_indices]) + self._state.lambda_mult[self._state.step1_relative_indices]
        op1.objective.linear = linear_objective
        return op1

    def _create_step2_problem(self) -> QuadraticProgram:
        op2 = copy.deepcopy(self._state.op)
        for i, var_index in enumerate(self._state.binary_indices):
            variable = op2.variables[var_index]
            variable.vartype = Variable.Type.CONTINUOUS
            variable.upperbound = 1.0
            variable.lowerbound = 0.0
            op2.objective.quadratic[var_index, var_index] = self._state.rho / 2
            op2.objective.linear[var_index] = -1 * self._state.lambda_mult[i] - self._state.rho * (self._state.x0[i] - self._state.y[i])
        for constraint in self._state.binary_equality_constraints:
            op2.remove_linear_constraint(constraint.name)
        return op2

    def _create_step3_problem(self) -> QuadraticProgram:
        op3 = QuadraticProgram()
        binary_size = len(self._state.binary_indices)
        for i in range(binary_size):
            name = self._state.op.variables[self._state.binary_indices[i]].name
            op3.continuous_var(lowerbound=-np.inf, upperbound=np.inf, name=name)
        quadratic_y = self._params.beta / 2 * np.eye(binary_size) + self._state.rho / 2 * np.eye(binary_size)
        op3.objective.quadratic = quadratic_y
        linear_y = -self._state.lambda_mult - self._state.rho * (self._state.x0 - self._state.z)
        op3.objective.linear = linear_y
        return op3

    def _update_x0(self, op1: QuadraticProgram) -> np.ndarray:
        x0_all_binaries = np.zeros(len(self._state.binary_indices))
        x0_qubo = np.asarray(self._qubo_optimizer.solve(op1).x)
        x0_all_binaries[self._state.step1_relative_indices] = x0_qubo
        return x0_all_binaries

    def _update_x1(self, op2: QuadraticProgram) -> Tuple[np.ndarray, np.ndarray]:
        vars_op2 = np.asarray(self._continuous_optimizer.solve(op2).x)
        vars_u = vars_op2.take(self._state.continuous_indices)
        vars_z = vars_op2.take(self._state.binary_indices)
        return (vars_u, vars_z)

    def _update_y(self, op3: QuadraticProgram) -> np.ndarray:
        return np.asarray(self._continuous_optimizer.solve(op3).x)

    def _get_best_merit_solution(self) -> Tuple[np.ndarray, np.ndarray, float]:
        it_min_merits = self._state.merits.index(min(self._state.merits))
        binary_vars = self._state.x0_saved[it_min_merits]
        continuous_vars = self._state.u_saved[it_min_merits]
        sol_val = self._state.cost_iterates[it_min_merits]
        return (binary_vars, continuous_vars, sol_val)

    def _update_lambda_mult(self) -> np.ndarray:
        return self._state.lambda_mult + self._state.rho * (self._state.x0 - self._state.z - self._state.y)

    def _update_rho(self, primal_residual: float, dual_residual: float) -> None:
        if self._params.vary_rho == UPDATE_RHO_BY_TEN_PERCENT:
            if self._state.rho < 10000000000.0:
                self._state.rho *= 1.1
        elif self._params.vary_rho == UPDATE_RHO_BY_RESIDUALS:
            if primal_residual > self._params.mu_res * dual_residual:
                self._state.rho = self._params.tau_incr * self._state.rho
            elif dual_residual > self._params.mu_res * primal_residual:
                self._state.rho = self._state.rho / self._params.tau_decr

    def _get_constraint_residual(self) -> float:
        solution = self._get_current_solution()
        cr_eq = 0
        for constraint in self._state.equality_constraints:
            cr_eq += np.abs(constraint.evaluate(solution) - constraint.rhs)
        cr_ineq = 0.0
        for constraint in self._state.inequality_constraints:
            sense = -1.0 if constraint.sense == Constraint.Sense.GE else 1.0
            cr_ineq += max(sense * (constraint.evaluate(solution) - constraint.rhs), 0.0)
        return cr_eq + cr_ineq

    def _get_merit(self, cost_iterate: float, constraint_residual: float) -> float:
        return cost_iterate + self._params.mu_merit * constraint_residual

    def _get_objective_value(self) -> float:
        return self._state.op.objective.evaluate(self._get_current_solution())

    def _get_solution_residuals(self, iteration: int) -> Tuple[float, float]:
        elements = self._state.x0 - self._state.z - self._state.y
        primal_residual = np.linalg.norm(elements)
        if iteration > 0:
            elements_dual = self._state.z - self._state.z_saved[iteration - 1]
        else:
            elements_dual = self._state.z - self._state.z_init
        dual_residual = self._state.rho * np.linalg.norm(elements_dual)
        return (primal_residual, dual_residual)

    def _warm_start(self, problem: QuadraticProgram) -> None:
        qp_copy = copy.deepcopy(problem)
        for variable in qp_copy.variables:
            variable.vartype = VarType.CONTINUOUS
        cts_result = self._continuous_optimizer.solve(qp_copy)
        logger.debug('Continuous relaxation: %s', cts_result.x)
        self._state.x0 = cts_result.x[self._state.binary_indices]
        self._state.u = cts_result.x[self._state.continuous_indices]
        self._state.z = cts_result.x[self._state.binary_indices]

    @property
    def parameters(self) -> ADMMParameters:
        return self._params

    @parameters.setter
    def parameters(self, params: ADMMParameters) -> None:
        self._params = params
