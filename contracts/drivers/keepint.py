"""only the effects on the arguments are observed"""
import numpy as np
from qiskit_optimization.problems.quadratic_program import QuadraticProgram
from qiskit_optimization.converters.integer_to_binary import IntegerToBinary


def keep_int_to_bin(p: QuadraticProgram, x: np.ndarray):
    c = IntegerToBinary()
    c.convert(p)
    c.interpret(x)
