from .integer_to_binary import IntegerToBinary
from .inequality_to_equality import InequalityToEquality
from .linear_equality_to_penalty import LinearEqualityToPenalty
from .quadratic_program_to_qubo import QuadraticProgramToQubo
from .quadratic_program_converter import QuadraticProgramConverter
__all__ = ['InequalityToEquality', 'IntegerToBinary', 'LinearEqualityToPenalty', 'QuadraticProgramConverter', 'QuadraticProgramToQubo']
