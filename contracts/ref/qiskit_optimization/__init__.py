from .version import __version__
from .infinity import INFINITY
from .exceptions import QiskitOptimizationError
from .problems.quadratic_program import QuadraticProgram
__all__ = ['__version__', 'QuadraticProgram', 'QiskitOptimizationError', 'INFINITY']
