from .constraint import Constraint
from .linear_constraint import LinearConstraint
from .linear_expression import LinearExpression
from .quadratic_constraint import QuadraticConstraint
from .quadratic_expression import QuadraticExpression
from .quadratic_objective import QuadraticObjective
from .quadratic_program import QuadraticProgram
from .quadratic_program_element import QuadraticProgramElement
from .variable import Variable, VarType
__all__ = ['Constraint', 'LinearExpression', 'LinearConstraint', 'QuadraticExpression', 'QuadraticConstraint', 'QuadraticObjective', 'QuadraticProgram', 'QuadraticProgramElement', 'Variable', 'VarType']
