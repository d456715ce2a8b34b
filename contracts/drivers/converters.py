import numpy as np
from qiskit_optimization.problems.quadratic_program import QuadraticProgram
from qiskit_optimization.converters.inequality_to_equality import InequalityToEquality
from qiskit_optimization.converters.integer_to_binary import IntegerToBinary
from qiskit_optimization.converters.linear_equality_to_penalty import LinearEqualityToPenalty
from qiskit_optimization.converters.quadratic_program_to_qubo import QuadraticProgramToQubo


def int_to_bin(p: QuadraticProgram, x: np.ndarray):
    c = IntegerToBinary()
    q = c.convert(p)
    return q, c.interpret(x)


def ineq_to_eq(p: QuadraticProgram, mode: str, x: np.ndarray):
    c = InequalityToEquality(mode)
    q = c.convert(p)
    return q, c.interpret(x)


def penalty_auto(p: QuadraticProgram, x: np.ndarray):
    c = LinearEqualityToPenalty()
    q = c.convert(p)
    return q, c.penalty, c.interpret(x)


def penalty_given(p: QuadraticProgram, w: float, x: np.ndarray):
    c = LinearEqualityToPenalty(w)
    q = c.convert(p)
    return q, c.penalty, c.interpret(x)


def ineq_default(p: QuadraticProgram):
    return InequalityToEquality()


def ineq_mode_setter(p: QuadraticProgram, m: str):
    c = InequalityToEquality()
    c.mode = m
    return c.mode


def penalty_setter(p: QuadraticProgram, w: float):
    c = LinearEqualityToPenalty()
    c.penalty = w
    return c.penalty, c.convert(p)


def penalty_twice(p: QuadraticProgram, p2: QuadraticProgram):
    c = LinearEqualityToPenalty()
    c.convert(p)
    return c.convert(p2), c.penalty


def int_to_bin_twice(p: QuadraticProgram, p2: QuadraticProgram, x: np.ndarray):
    c = IntegerToBinary()
    c.convert(p)
    q = c.convert(p2)
    return q, c.interpret(x)


def ineq_twice(p: QuadraticProgram, p2: QuadraticProgram, x: np.ndarray):
    c = InequalityToEquality("integer")
    c.convert(p)
    q = c.convert(p2)
    return q, c.interpret(x)
