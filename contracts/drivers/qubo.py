import numpy as np
from qiskit_optimization.problems.quadratic_program import QuadraticProgram
from qiskit_optimization.converters.quadratic_program_to_qubo import QuadraticProgramToQubo


def qubo_convert(p: QuadraticProgram):
    return QuadraticProgramToQubo().convert(p)


def qubo_penalty(p: QuadraticProgram, w: float):
    c = QuadraticProgramToQubo(w)
    return c.convert(p), c.penalty


def qubo_interpret(p: QuadraticProgram, w: float, x: np.ndarray):
    c = QuadraticProgramToQubo(w)
    c.convert(p)
    return c.interpret(x)


def qubo_setter(p: QuadraticProgram, w: float):
    c = QuadraticProgramToQubo()
    c.penalty = w
    return c.penalty, c.convert(p)


def qubo_msg(p: QuadraticProgram):
    c = QuadraticProgramToQubo()
    return c.get_compatibility_msg(p), c.is_compatible(p)
