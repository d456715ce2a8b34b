import logging
import warnings
from collections import defaultdict
from collections.abc import Sequence
from enum import Enum
from math import fsum, isclose
from typing import Dict, List, Optional, Tuple, Union, cast
import numpy as np
from docplex.mp.constr import LinearConstraint as DocplexLinearConstraint
from docplex.mp.constr import NotEqualConstraint
from docplex.mp.constr import QuadraticConstraint as DocplexQuadraticConstraint
try:
    from docplex.mp.dvar import Var
except ImportError:
    from docplex.mp.linear import Var
from docplex.mp.model import Model
from docplex.mp.model_reader import ModelReader
from docplex.mp.quad import QuadExpr
from docplex.mp.vartype import BinaryVarType, ContinuousVarType, IntegerVarType
from numpy import ndarray, zeros
from scipy.sparse import spmatrix
from qiskit.exceptions import MissingOptionalLibraryError
from qiskit.opflow import I, ListOp, OperatorBase, PauliOp, PauliSumOp, SummedOp
from qiskit.quantum_info import Pauli
from ..exceptions import QiskitOptimizationError
from ..infinity import INFINITY
from .constraint import Constraint, ConstraintSense
from .linear_constraint import LinearConstraint
from .linear_expression import LinearExpression
from .quadratic_constraint import QuadraticConstraint
from .quadratic_expression import QuadraticExpression
from .quadratic_objective import QuadraticObjective
from .variable import Variable, VarType
logger = logging.getLogger(__name__)

class QuadraticProgramStatus(Enum):
    VALID = 0
    INFEASIBLE = 1

class QuadraticProgram:
    Status = QuadraticProgramStatus

    def __init__(self, name: str='') -> None:
        self._name = name
        self._status = QuadraticProgram.Status.VALID
        self._variables = []
        self._variables_index = {}
        self._linear_constraints = []
        self._linear_constraints_index = {}
        self._quadratic_constraints = []
        self._quadratic_constraints_index = {}
        self._objective = QuadraticObjective(self)

    def __repr__(self) -> str:
        return self.to_docplex().export_as_lp_string()

    def clear(self) -> None:
        self._name = ''
        self._status = QuadraticProgram.Status.VALID
        self._variables.clear()
        self._variables_index.clear()
        self._linear_constraints.clear()
        self._linear_constraints_index.clear()
        self._quadratic_constraints.clear()
        self._quadratic_constraints_index.clear()
        self._objective = QuadraticObjective(self)

    @property
    def name(self) -> str:
        return self._name

    @name.setter
    def name(self, name: str) -> None:
        self._name = name

    @property
    def status(self) -> QuadraticProgramStatus:
        return self._status

    @property
    def variables(self) -> List[Variable]:
        return self._variables

    @property
    def variables_index(self) -> Dict[str, int]:
        return self._variables_index

    def _add_variable(self, lowerbound: Union[float, int], upperbound: Union[float, int], vartype: VarType, name: Optional[str]) -> Variable:
        if name is None:
            name = 'x'
            key_format = '{}'
        else:
            key_format = ''
        return self._add_variables(1, lowerbound, upperbound, vartype, name, key_format)[1][0]

    def _add_variables(self, keys: Union[int, Sequence], lowerbound: Union[float, int], upperbound: Union[float, int], vartype: VarType, name: Optional[str], key_format: str) -> Tuple[List[str], List[Variable]]:
        if isinstance(keys, int) and keys < 1:
            raise QiskitOptimizationError('Cannot create non-positive number of variables: {}'.format(keys))
        if name is None:
            name = 'x'
        if '{{}}' in key_format:
            raise QiskitOptimizationError('Formatter cannot contain nested substitutions: {}'.format(key_format))
        if key_format.count('{}') > 1:
            raise QiskitOptimizationError('Formatter cannot contain more than one substitution: {}'.format(key_format))

        def _find_name(name, key_format, k):
            prev = None
            while True:
                new_name = name + key_format.format(k)
                if new_name == prev:
                    raise QiskitOptimizationError('Variable name already exists: {}'.format(new_name))
                if new_name in self._variables_index:
                    k += 1
                    prev = new_name
                else:
                    break
            return (new_name, k + 1)
        names = []
        variables = []
        k = self.get_num_vars()
        lst = keys if isinstance(keys, Sequence) else range(keys)
        for key in lst:
            if isinstance(keys, Sequence):
                indexed_name = name + key_format.format(key)
            else:
                indexed_name, k = _find_name(name, key_format, k)
            if indexed_name in self._variables_index:
                raise QiskitOptimizationError('Variable name already exists: {}'.format(indexed_name))
            names.append(indexed_name)
            variable = Variable(self, indexed_name, lowerbound, upperbound, vartype)
            self._variables_index[indexed_name] = self.get_num_vars()
            self._variables.append(variable)
            variables.append(variable)
        return (names, variables)

    def _var_dict(self, keys: Union[int, Sequence], lowerbound: Union[float, int], upperbound: Union[float, int], vartype: VarType, name: Optional[str], key_format: str) -> Dict[str, Variable]:
        return dict(zip(*self._add_variables(keys, lowerbound, upperbound, vartype, name, key_format)))

    def _var_list(self, keys: Union[int, Sequence], lowerbound: Union[float, int], upperbound: Union[float, int], vartype: VarType, name: Optional[str], key_format: str) -> List[Variable]:
        return self._add_variables(keys, lowerbound, upperbound, vartype, name, key_format)[1]

    def continuous_var(self, lowerbound: Union[float, int]=0, upperbound: Union[float, int]=INFINITY, name: Optional[str]=None) -> Variable:
        return self._add_variable(lowerbound, upperbound, Variable.Type.CONTINUOUS, name)

    def continuous_var_dict(self, keys: Union[int, Sequence], lowerbound: Union[float, int]=0, upperbound: Union[float, int]=INFINITY, name: Optional[str]=None, key_format: str='{}') -> Dict[str, Variable]:
        return self._var_dict(keys, lowerbound, upperbound, Variable.Type.CONTINUOUS, name, key_format)

    def continuous_var_list(self, keys: Union[int, Sequence], lowerbound: Union[float, int]=0, upperbound: Union[float, int]=INFINITY, name: Optional[str]=None, key_format: str='{}') -> List[Variable]:
        return self._var_list(keys, lowerbound, upperbound, Variable.Type.CONTINUOUS, name, key_format)

    def binary_var(self, name: Optional[str]=None) -> Variable:
        return self._add_variable(0, 1, Variable.Type.BINARY, name)

    def binary_var_dict(self, keys: Union[int, Sequence], name: Optional[str]=None, key_format: str='{}') -> Dict[str, Variable]:
        return self._var_dict(keys, 0, 1, Variable.Type.BINARY, name, key_format)

    def binary_var_list(self, keys: Union[int, Sequence], name: Optional[str]=None, key_format: str='{}') -> List[Variable]:
        return self._var_list(keys, 0, 1, Variable.Type.BINARY, name, key_format)

    def integer_var(self, lowerbound: Union[float, int]=0, upperbound: Union[float, int]=INFINITY, name: Optional[str]=None) -> Variable:
        return self._add_variable(lowerbound, upperbound, Variable.Type.INTEGER, name)

    def integer_var_dict(self, keys: Union[int, Sequence], lowerbound: Union[float, int]=0, upperbound: Union[float, int]=INFINITY, name: Optional[str]=None, key_format: str='{}') -> Dict[str, Variable]:
        return self._var_dict(keys, lowerbound, upperbound, Variable.Type.INTEGER, name, key_format)

    def integer_var_list(self, keys: Union[int, Sequence], lowerbound: Union[float, int]=0, upperbound: Union[float, int]=INFINITY, name: Optional[str]=None, key_format: str='{}') -> List[Variable]:
        return self._var_list(keys, lowerbound, upperbound, Variable.Type.INTEGER, name, key_format)

    def get_variable(self, i: Union[int, str]) -> Variable:
        if isinstance(i, int):
            return self.variables[i]
        else:
            return self.variables[self._variables_index[i]]

    def get_num_vars(self, vartype: Optional[VarType]=None) -> int:
        if vartype:
            return sum((variable.vartype == vartype for variable in self._variables))
        else:
            return len(self._variables)

    def get_num_continuous_vars(self) -> int:
        return self.get_num_vars(Variable.Type.CONTINUOUS)

    def get_num_binary_vars(self) -> int:
        return self.get_num_vars(Variable.Type.BINARY)

    def get_num_integer_vars(self) -> int:
        return self.get_num_vars(Variable.Type.INTEGER)

    @property
    def linear_constraints(self) -> List[LinearConstraint]:
        return self._linear_constraints

    @property
    def linear_constraints_index(self) -> Dict[str, int]:
        return self._linear_constraints_index

    def linear_constraint(self, linear: Union[ndarray, spmatrix, List[float], Dict[Union[int, str], float]]=None, sense: Union[str, ConstraintSense]='<=', rhs: float=0.0, name: Optional[str]=None) -> LinearConstraint:
        if name:
            if name in self.linear_constraints_index:
                raise QiskitOptimizationError("Linear constraint's name already exists: {}".format(name))
        else:
            k = self.get_num_linear_constraints()
            while 'c{}'.format(k) in self.linear_constraints_index:
                k += 1
            name = 'c{}'.format(k)
        if linear is None:
            linear = {}
        constraint = LinearConstraint(self, name, linear, Constraint.Sense.convert(sense), rhs)
        self.linear_constraints_index[name] = len(self.linear_constraints)
        self.linear_constraints.append(constraint)
        return constraint

    def get_linear_constraint(self, i: Union[int, str]) -> LinearConstraint:
        if isinstance(i, int):
            return self._linear_constraints[i]
        else:
            return self._linear_constraints[self._linear_constraints_index[i]]

    def get_num_linear_constraints(self) -> int:
        return len(self._linear_constraints)

    @property
    def quadratic_constraints(self) -> List[QuadraticConstraint]:
        return self._quadratic_constraints

    @property
    def quadratic_constraints_index(self) -> Dict[str, int]:
        return self._quadratic_constraints_index

    def quadratic_constraint(self, linear: Union[ndarray, spmatrix, List[float], Dict[Union[int, str], float]]=None, quadratic: Union[ndarray, spmatrix, List[List[float]], Dict[Tuple[Union[int, str], Union[int, str]], float]]=None, sense: Union[str, ConstraintSense]='<=', rhs: float=0.0, name: Optional[str]=None) -> QuadraticConstraint:
        if name:
            if name in self.quadratic_constraints_index:
                raise QiskitOptimizationError('Quadratic constraint name already exists: {}'.format(name))
        else:
            k = self.get_num_quadratic_constraints()
            while 'q{}'.format(k) in self.quadratic_constraints_index:
                k += 1
            name = 'q{}'.format(k)
        if linear is None:
            linear = {}
        if quadratic is None:
            quadratic = {}
        constraint = QuadraticConstraint(self, name, linear, quadratic, Constraint.Sense.convert(sense), rhs)
        self.quadratic_constraints_index[name] = len(self.quadratic_constraints)
        self.quadratic_constraints.append(constraint)
        return constraint

    def get_quadratic_constraint(self, i: Union[int, str]) -> QuadraticConstraint:
        if isinstance(i, int):
            return self._quadratic_constraints[i]
        else:
            return self._quadratic_constraints[self._quadratic_constraints_index[i]]

    def get_num_quadratic_constraints(self) -> int:
        return len(self._quadratic_constraints)

    def remove_linear_constraint(self, i: Union[str, int]) -> None:
        if isinstance(i, str):
            i = self._linear_constraints_index[i]
        del self._linear_constraints[i]
        self._linear_constraints_index = {cst.name: j for j, cst in enumerate(self._linear_constraints)}

    def remove_quadratic_constraint(self, i: Union[str, int]) -> None:
        if isinstance(i, str):
            i = self._quadratic_constraints_index[i]
        del self._quadratic_constraints[i]
        self._quadratic_constraints_index = {cst.name: j for j, cst in enumerate(self._quadratic_constraints)}

    @property
    def objective(self) -> QuadraticObjective:
        return self._objective

    def minimize(self, constant: float=0.0, linear: Union[ndarray, spmatrix, List[float], Dict[Union[str, int], float]]=None, quadratic: Union[ndarray, spmatrix, List[List[float]], Dict[Tuple[Union[int, str], Union[int, str]], float]]=None) -> None:
        self._objective = QuadraticObjective(self, constant, linear, quadratic, QuadraticObjective.Sense.MINIMIZE)

    def maximize(self, constant: float=0.0, linear: Union[ndarray, spmatrix, List[float], Dict[Union[str, int], float]]=None, quadratic: Union[ndarray, spmatrix, List[List[float]], Dict[Tuple[Union[int, str], Union[int, str]], float]]=None) -> None:
        self._objective = QuadraticObjective(self, constant, linear, quadratic, QuadraticObjective.Sense.MAXIMIZE)

    def from_docplex(self, model: Model) -> None:
        self.clear()
        self.name = model.name
        var_names = {}
        for x in model.iter_variables():
            if isinstance(x.vartype, ContinuousVarType):
                x_new = self.continuous_var(x.lb, x.ub, x.name)
            elif isinstance(x.vartype, BinaryVarType):
                x_new = self.binary_var(x.name)
            elif isinstance(x.vartype, IntegerVarType):
                x_new = self.integer_var(x.lb, x.ub, x.name)
            else:
                raise QiskitOptimizationError('Unsupported variable type: {} {}'.format(x.name, x.vartype))
            var_names[x] = x_new.name
        minimize = model.objective_sense.is_minimize()
        if isinstance(model.objective_expr, Var):
            model.objective_expr = model.objective_expr + 0
        constant = model.objective_expr.constant
        linear = {}
        linear_part = model.objective_expr.get_linear_part()
        for x in linear_part.iter_variables():
            linear[var_names[x]] = linear_part.get_coef(x)
        quadratic = {}
        if isinstance(model.objective_expr, QuadExpr):
            for quad_triplet in model.objective_expr.iter_quad_triplets():
                i = var_names[quad_triplet[0]]
                j = var_names[quad_triplet[1]]
                v = quad_triplet[2]
                quadratic[i, j] = v
        if minimize:
            self.minimize(constant, linear, quadratic)
        else:
            self.maximize(constant, linear, quadratic)
        for constraint in model.iter_constraints():
            if isinstance(constraint, DocplexQuadraticConstraint):
                continue
            if not isinstance(constraint, DocplexLinearConstraint) or isinstance(constraint, NotEqualConstraint):
                raise QiskitOptimizationError('Unsupported constraint: {}'.format(constraint))
            name = constraint.name
            sense = constraint.sense
            left_expr = constraint.get_left_expr()
            right_expr = constraint.get_right_expr()
            if isinstance(left_expr, Var):
                left_expr = left_expr + 0
            if isinstance(right_expr, Var):
                right_expr = right_expr + 0
            rhs = right_expr.constant - left_expr.constant
            lhs = {}
            for x in left_expr.iter_variables():
                lhs[var_names[x]] = left_expr.get_coef(x)
            for x in right_expr.iter_variables():
                lhs[var_names[x]] = lhs.get(var_names[x], 0.0) - right_expr.get_coef(x)
            if sense == sense.EQ:
                self.linear_constraint(lhs, '==', rhs, name)
            elif sense == sense.GE:
                self.linear_constraint(lhs, '>=', rhs, name)
            elif sense == sense.LE:
                self.linear_constraint(lhs, '<=', rhs, name)
            else:
                raise QiskitOptimizationError('Unsupported constraint sense: {}'.format(constraint))
        for constraint in model.iter_quadratic_constraints():
            name = constraint.name
            sense = constraint.sense
            left_expr = constraint.get_left_expr()
            right_expr = constraint.get_right_expr()
            rhs = right_expr.constant - left_expr.constant
            linear = {}
            quadratic = {}
            if left_expr.is_quad_expr():
                for x in left_expr.linear_part.iter_variables():
                    linear[var_names[x]] = left_expr.linear_part.get_coef(x)
                for quad_triplet in left_expr.iter_quad_triplets():
                    i = var_names[quad_triplet[0]]
                    j = var_names[quad_triplet[1]]
                    v = quad_triplet[2]
                    quadratic[i, j] = v
            else:
                for x in left_expr.iter_variables():
                    linear[var_names[x]] = left_expr.get_coef(x)
            if right_expr.is_quad_expr():
                for x in right_expr.linear_part.iter_variables():
                    linear[var_names[x]] = linear.get(var_names[x], 0.0) - right_expr.linear_part.get_coef(x)
                for quad_triplet in right_expr.iter_quad_triplets():
                    i = var_names[quad_triplet[0]]
                    j = var_names[quad_triplet[1]]
                    v = quad_triplet[2]
                    quadratic[i, j] = quadratic.get((i, j), 0.0) - v
            else:
                for x in right_expr.iter_variables():
                    linear[var_names[x]] = linear.get(var_names[x], 0.0) - right_expr.get_coef(x)
            if sense == sense.EQ:
                self.quadratic_constraint(linear, quadratic, '==', rhs, name)
            elif sense == sense.GE:
                self.quadratic_constraint(linear, quadratic, '>=', rhs, name)
            elif sense == sense.LE:
                self.quadratic_constraint(linear, quadratic, '<=', rhs, name)
            else:
                raise QiskitOptimizationError('Unsupported constraint sense: {}'.format(constraint))

    def to_docplex(self) -> Model:
        mdl = Model(self.name)
        var = {}
        for idx, x in enumerate(self.variables):
            if x.vartype == Variable.Type.CONTINUOUS:
                var[idx] = mdl.continuous_var(lb=x.lowerbound, ub=x.upperbound, name=x.name)
            elif x.vartype == Variable.Type.BINARY:
                var[idx] = mdl.binary_var(name=x.name)
            elif x.vartype == Variable.Type.INTEGER:
                var[idx] = mdl.integer_var(lb=x.lowerbound, ub=x.upperbound, name=x.name)
            else:
                raise QiskitOptimizationError('Unsupported variable type: {}'.format(x.vartype))
        objective = self.objective.constant
        for i, v in self.objective.linear.to_dict().items():
            objective += v * var[cast(int, i)]
        for (i, j), v in self.objective.quadratic.to_dict().items():
            objective += v * var[cast(int, i)] * var[cast(int, j)]
        if self.objective.sense == QuadraticObjective.Sense.MINIMIZE:
            mdl.minimize(objective)
        else:
            mdl.maximize(objective)
        for i, l_constraint in enumerate(self.linear_constraints):
            name = l_constraint.name
            rhs = l_constraint.rhs
            if rhs == 0 and l_constraint.linear.coefficients.nnz == 0:
                continue
            linear_expr = 0
            for j, v in l_constraint.linear.to_dict().items():
                linear_expr += v * var[cast(int, j)]
            sense = l_constraint.sense
            if sense == Constraint.Sense.EQ:
                mdl.add_constraint(linear_expr == rhs, ctname=name)
            elif sense == Constraint.Sense.GE:
                mdl.add_constraint(linear_expr >= rhs, ctname=name)
            elif sense == Constraint.Sense.LE:
                mdl.add_constraint(linear_expr <= rhs, ctname=name)
            else:
                raise QiskitOptimizationError('Unsupported constraint sense: {}'.format(sense))
        for i, q_constraint in enumerate(self.quadratic_constraints):
            name = q_constraint.name
            rhs = q_constraint.rhs
            if rhs == 0 and q_constraint.linear.coefficients.nnz == 0 and (q_constraint.quadratic.coefficients.nnz == 0):
                continue
            quadratic_expr = 0
            for j, v in q_constraint.linear.to_dict().items():
                quadratic_expr += v * var[cast(int, j)]
            for (j, k), v in q_constraint.quadratic.to_dict().items():
                quadratic_expr += v * var[cast(int, j)] * var[cast(int, k)]
            sense = q_constraint.sense
            if sense == Constraint.Sense.EQ:
                mdl.add_constraint(quadratic_expr == rhs, ctname=name)
            elif sense == Constraint.Sense.GE:
                mdl.add_constraint(quadratic_expr >= rhs, ctname=name)
            elif sense == Constraint.Sense.LE:
                mdl.add_constraint(quadratic_expr <= rhs, ctname=name)
            else:
                raise QiskitOptimizationError('Unsupported constraint sense: {}'.format(sense))
        return mdl

    def export_as_lp_string(self) -> str:
        return self.to_docplex().export_as_lp_string()

    def pprint_as_string(self) -> str:
        warnings.warn('The pprint_as_string method is deprecated and will be removed in a future release. Instead use theto_docplex() method and run pprint_as_string() on that output', DeprecationWarning)
        return self.to_docplex().pprint_as_string()

    def prettyprint(self, out: Optional[str]=None) -> None:
        warnings.warn('The prettyprint method is deprecated and will be removed in a future release. Instead use theto_docplex() method and run prettyprint() on that output', DeprecationWarning)
        self.to_docplex().prettyprint(out)

    def read_from_lp_file(self, filename: str) -> None:
        try:
            import cplex
        except ImportError as ex:
            raise MissingOptionalLibraryError(libname='CPLEX', name='QuadraticProgram.read_from_lp_file', pip_install="pip install 'qiskit-optimization[cplex]'") from ex

        def _parse_problem_name(filename: str) -> str:
            prefix = '\\Problem name:'
            model_name = ''
            with open(filename) as file:
                for line in file:
                    if line.startswith(prefix):
                        model_name = line[len(prefix):].strip()
                    if not line.startswith('\\'):
                        break
            return model_name
        model_reader = ModelReader()
        model = model_reader.read(filename, model_name=_parse_problem_name(filename))
        self.from_docplex(model)

    def write_to_lp_file(self, filename: str) -> None:
        self.to_docplex().export_as_lp(filename)

    def substitute_variables(self, constants: Optional[Dict[Union[str, int], float]]=None, variables: Optional[Dict[Union[str, int], Tuple[Union[str, int], float]]]=None) -> 'QuadraticProgram':
        return SubstituteVariables().substitute_variables(self, constants, variables)

    def to_ising(self) -> Tuple[OperatorBase, float]:
        if self.get_num_vars() > self.get_num_binary_vars():
            raise QiskitOptimizationError('The type of variable must be a binary variable. Use a QuadraticProgramToQubo converter to convert integer variables to binary variables. If the problem contains continuous variables, currently we can not apply VQE/QAOA directly. you might want to use an ADMM optimizer for the problem. ')
        if self.linear_constraints or self.quadratic_constraints:
            raise QiskitOptimizationError('An constraint exists. The method supports only model with no constraints. Use a QuadraticProgramToQubo converter. It converts inequality constraints to equality constraints, and then, it converters equality constraints to penalty terms of the object function.')
        num_nodes = self.get_num_vars()
        pauli_list = []
        offset = 0.0
        zero = zeros(num_nodes, dtype=bool)
        sense = self.objective.sense.value
        offset += self.objective.constant * sense
        for idx, coef in self.objective.linear.to_dict().items():
            z_p = zeros(num_nodes, dtype=bool)
            weight = coef * sense / 2
            z_p[idx] = True
            pauli_list.append([-weight, Pauli((z_p, zero))])
            offset += weight
        coeffs = {}
        for (i, j), coeff in self.objective.quadratic.to_dict().items():
            if j < i:
                coeffs[j, i] = coeffs.get((j, i), 0.0) + coeff
            else:
                coeffs[i, j] = coeffs.get((i, j), 0.0) + coeff
        for (i, j), coeff in coeffs.items():
            weight = coeff * sense / 4
            if i == j:
                offset += weight
            else:
                z_p = zeros(num_nodes, dtype=bool)
                z_p[i] = True
                z_p[j] = True
                pauli_list.append([weight, Pauli((z_p, zero))])
            z_p = zeros(num_nodes, dtype=bool)
            z_p[i] = True
            pauli_list.append([-weight, Pauli((z_p, zero))])
            z_p = zeros(num_nodes, dtype=bool)
            z_p[j] = True
            pauli_list.append([-weight, Pauli((z_p, zero))])
            offset += weight
        qubit_op = sum((PauliOp(pauli, coeff=coeff) for coeff, pauli in pauli_list))
        if isinstance(qubit_op, OperatorBase):
            qubit_op = qubit_op.reduce()
        else:
            qubit_op = 0 * I ^ num_nodes
        return (qubit_op, offset)

    def from_ising(self, qubit_op: Union[OperatorBase, PauliSumOp], offset: float=0.0, linear: bool=False) -> None:
        if isinstance(qubit_op, PauliSumOp):
            qubit_op = qubit_op.to_pauli_op()
        if type(qubit_op) == ListOp:
            raise NotImplementedError('Conversion of a ListOp is not supported, convert each operator in the ListOp separately.')
        self.clear()
        for i in range(qubit_op.num_qubits):
            self.binary_var(name='x_{0}'.format(i))
        qubo_matrix = zeros((qubit_op.num_qubits, qubit_op.num_qubits))
        if not isinstance(qubit_op, SummedOp):
            pauli_list = [qubit_op.to_pauli_op()]
        else:
            pauli_list = qubit_op.to_pauli_op()
        for pauli_op in pauli_list:
            pauli_op = pauli_op.to_pauli_op()
            pauli = pauli_op.primitive
            coeff = pauli_op.coeff
            lst_z = pauli.z.tolist()
            z_index = [i for i, z in enumerate(lst_z) if z is True]
            num_z = len(z_index)
            if num_z == 0:
                offset += coeff.real
            elif num_z == 1:
                qubo_matrix[z_index[0], z_index[0]] += coeff.real
            elif num_z == 2:
                qubo_matrix[z_index[0], z_index[1]] += coeff.real
            else:
                raise QiskitOptimizationError('There are more than 2 Pauli Zs in the Pauli term {}'.format(pauli.z))
            lst_x = pauli.x.tolist()
            x_index = [i for i, x in enumerate(lst_x) if x is True]
            if len(x_index) > 0:
                raise QiskitOptimizationError('Pauli Xs exist in the Pauli {}'.format(pauli.x))
        linear_terms = {}
        quadratic_terms = {}
        for i, row in enumerate(qubo_matrix):
            for j, weight in enumerate(row):
                if j <= i:
                    continue
                coef = weight * 4
                quadratic_terms[i, j] = coef
                qubo_matrix[i, j] -= weight
                qubo_matrix[i, i] += weight
                qubo_matrix[j, j] += weight
                offset -= weight
        for i in range(qubit_op.num_qubits):
            weight = qubo_matrix[i, i]
            coef = weight * 2
            if linear:
                linear_terms[i] = -coef
            else:
                quadratic_terms[i, i] = -coef
            qubo_matrix[i, i] -= weight
            offset += weight
        self.minimize(constant=offset, linear=linear_terms, quadratic=quadratic_terms)
        offset -= offset

    def get_feasibility_info(self, x: Union[List[float], np.ndarray]) -> Tuple[bool, List[Variable], List[Constraint]]:
        if len(x) != self.get_num_vars():
            raise QiskitOptimizationError('The size of solution `x`: {}, does not match the number of problem variables: {}'.format(len(x), self.get_num_vars()))
        violated_variables = []
        for i, val in enumerate(x):
            variable = self.get_variable(i)
            if val < variable.lowerbound or variable.upperbound < val:
                violated_variables.append(variable)
        violated_constraints = []
        for constraint in cast(List[Constraint], self._linear_constraints) + cast(List[Constraint], self._quadratic_constraints):
            lhs = constraint.evaluate(x)
            if constraint.sense == ConstraintSense.LE and lhs > constraint.rhs:
                violated_constraints.append(constraint)
            elif constraint.sense == ConstraintSense.GE and lhs < constraint.rhs:
                violated_constraints.append(constraint)
            elif constraint.sense == ConstraintSense.EQ and (not isclose(lhs, constraint.rhs)):
                violated_constraints.append(constraint)
        feasible = not violated_variables and (not violated_constraints)
        return (feasible, violated_variables, violated_constraints)

    def is_feasible(self, x: Union[List[float], np.ndarray]) -> bool:
        feasible, _, _ = self.get_feasibility_info(x)
        return feasible

class SubstituteVariables:
    CONST = '__CONSTANT__'

    def __init__(self):
        self._src = None
        self._dst = None
        self._subs = {}

    def substitute_variables(self, src: QuadraticProgram, constants: Optional[Dict[Union[str, int], float]]=None, variables: Optional[Dict[Union[str, int], Tuple[Union[str, int], float]]]=None) -> QuadraticProgram:
        self._src = src
        self._dst = QuadraticProgram(src.name)
        self._subs_dict(constants, variables)
        results = [self._variables(), self._objective(), self._linear_constraints(), self._quadratic_constraints()]
        if any((not r for r in results)):
            self._dst._status = QuadraticProgram.Status.INFEASIBLE
        return self._dst

    @staticmethod
    def _feasible(sense: ConstraintSense, rhs: float) -> bool:
        if sense == Constraint.Sense.EQ:
            if 0 == rhs:
                return True
        elif sense == Constraint.Sense.LE:
            if 0 <= rhs:
                return True
        elif sense == Constraint.Sense.GE:
            if 0 >= rhs:
                return True
        return False

    @staticmethod
    def _replace_dict_keys_with_names(op, dic):
        key = []
        val = []
        for k in sorted(dic.keys()):
            key.append(op.variables.get_names(k))
            val.append(dic[k])
        return (key, val)

    def _subs_dict(self, constants, variables):
        subs = {}
        if constants is not None:
            for i, v in constants.items():
                i_2 = self._src.get_variable(i).name
                if i_2 in subs:
                    raise QiskitOptimizationError('Cannot substitute the same variable twice: {} <- {}'.format(i, v))
                subs[i_2] = (self.CONST, v)
        if variables is not None:
            for i, (j, v) in variables.items():
                if v == 0:
                    raise QiskitOptimizationError('coefficient must be non-zero: {} {} {}'.format(i, j, v))
                i_2 = self._src.get_variable(i).name
                j_2 = self._src.get_variable(j).name
                if i_2 == j_2:
                    raise QiskitOptimizationError('Cannot substitute the same variable: {} <- {} {}'.format(i, j, v))
                if i_2 in subs:
                    raise QiskitOptimizationError('Cannot substitute the same variable twice: {} <- {} {}'.format(i, j, v))
                subs[i_2] = (j_2, v)
            for i_2, (j_2, v) in subs.items():
                if j_2 in subs:
                    raise QiskitOptimizationError('Cannot substitute by variable that gets substituted itself: {} <- {} {}'.format(i_2, j_2, v))
        self._subs = subs

    def _variables(self) -> bool:
        feasible = True
        for var in self._src.variables:
            name = var.name
            vartype = var.vartype
            lowerbound = var.lowerbound
            upperbound = var.upperbound
            if name not in self._subs:
                self._dst._add_variable(lowerbound, upperbound, vartype, name)
        for i, (j, v) in self._subs.items():
            lb_i = self._src.get_variable(i).lowerbound
            ub_i = self._src.get_variable(i).upperbound
            if j == self.CONST:
                if not lb_i <= v <= ub_i:
                    logger.warning('Infeasible substitution for variable: %s', i)
                    feasible = False
            else:
                if v == 0:
                    raise QiskitOptimizationError('Coefficient of variable substitution should be nonzero: {} {} {}'.format(i, j, v))
                if abs(lb_i) < INFINITY:
                    new_lb_i = lb_i / v
                else:
                    new_lb_i = lb_i if v > 0 else -lb_i
                if abs(ub_i) < INFINITY:
                    new_ub_i = ub_i / v
                else:
                    new_ub_i = ub_i if v > 0 else -ub_i
                var_j = self._dst.get_variable(j)
                lb_j = var_j.lowerbound
                ub_j = var_j.upperbound
                if v > 0:
                    lb_j = max(lb_j, new_lb_i)
                    ub_j = min(ub_j, new_ub_i)
                else:
                    lb_j = max(lb_j, new_ub_i)
                    ub_j = min(ub_j, new_lb_i)
                if lb_j > ub_j:
                    logger.warning('Infeasible lower and upper bound: %s %f %f', var_j.name, lb_j, ub_j)
                    feasible = False
                else:
                    var_j.lowerbound = lb_j
                    var_j.upperbound = ub_j
        return feasible

    def _linear_expression(self, lin_expr: LinearExpression) -> Tuple[List[float], LinearExpression]:
        const = []
        lin_dict = defaultdict(float)
        for i, w_i in lin_expr.to_dict(use_name=True).items():
            repl_i = self._subs[i] if i in self._subs else (i, 1)
            prod = w_i * repl_i[1]
            if repl_i[0] == self.CONST:
                const.append(prod)
            else:
                k = repl_i[0]
                lin_dict[k] += prod
        new_lin = LinearExpression(quadratic_program=self._dst, coefficients=lin_dict if lin_dict else {})
        return (const, new_lin)

    def _quadratic_expression(self, quad_expr: QuadraticExpression) -> Tuple[List[float], Optional[LinearExpression], Optional[QuadraticExpression]]:
        const = []
        lin_dict = defaultdict(float)
        quad_dict = defaultdict(float)
        for (i, j), w_ij in quad_expr.to_dict(use_name=True).items():
            repl_i = self._subs[i] if i in self._subs else (i, 1)
            repl_j = self._subs[j] if j in self._subs else (j, 1)
            idx = tuple((x for x, _ in [repl_i, repl_j] if x != self.CONST))
            prod = w_ij * repl_i[1] * repl_j[1]
            if len(idx) == 2:
                quad_dict[idx] += prod
            elif len(idx) == 1:
                lin_dict[idx[0]] += prod
            else:
                const.append(prod)
        new_lin = LinearExpression(quadratic_program=self._dst, coefficients=lin_dict if lin_dict else {})
        new_quad = QuadraticExpression(quadratic_program=self._dst, coefficients=quad_dict if quad_dict else {})
        return (const, new_lin, new_quad)

    def _objective(self) -> bool:
        obj = self._src.objective
        const1, lin1 = self._linear_expression(obj.linear)
        const2, lin2, quadratic = self._quadratic_expression(obj.quadratic)
        constant = fsum([obj.constant] + const1 + const2)
        linear = lin1.coefficients + lin2.coefficients
        if obj.sense == obj.sense.MINIMIZE:
            self._dst.minimize(constant=constant, linear=linear, quadratic=quadratic.coefficients)
        else:
            self._dst.maximize(constant=constant, linear=linear, quadratic=quadratic.coefficients)
        return True

    def _linear_constraints(self) -> bool:
        feasible = True
        for lin_cst in self._src.linear_constraints:
            constant, linear = self._linear_expression(lin_cst.linear)
            rhs = -fsum([-lin_cst.rhs] + constant)
            if linear.coefficients.nnz > 0:
                self._dst.linear_constraint(name=lin_cst.name, linear=linear.coefficients, sense=lin_cst.sense, rhs=rhs)
            elif not self._feasible(lin_cst.sense, rhs):
                logger.warning('constraint %s is infeasible due to substitution', lin_cst.name)
                feasible = False
        return feasible

    def _quadratic_constraints(self) -> bool:
        feasible = True
        for quad_cst in self._src.quadratic_constraints:
            const1, lin1 = self._linear_expression(quad_cst.linear)
            const2, lin2, quadratic = self._quadratic_expression(quad_cst.quadratic)
            rhs = -fsum([-quad_cst.rhs] + const1 + const2)
            linear = lin1.coefficients + lin2.coefficients
            if quadratic.coefficients.nnz > 0:
                self._dst.quadratic_constraint(name=quad_cst.name, linear=linear, quadratic=quadratic.coefficients, sense=quad_cst.sense, rhs=rhs)
            elif linear.nnz > 0:
                name = quad_cst.name
                lin_names = set((lin.name for lin in self._dst.linear_constraints))
                while name in lin_names:
                    name = '_' + name
                self._dst.linear_constraint(name=name, linear=linear, sense=quad_cst.sense, rhs=rhs)
            elif not self._feasible(quad_cst.sense, rhs):
                logger.warning('constraint %s is infeasible due to substitution', quad_cst.name)
                feasible = False
        return feasible
