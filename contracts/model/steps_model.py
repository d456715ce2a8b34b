"""Interface model of the single conversion steps, used when the pipeline that chains them is
analysed (mode "pipe")."""
from vg import app
from qiskit_optimization.converters.quadratic_program_converter import QuadraticProgramConverter
from qiskit_optimization.problems.quadratic_program import QuadraticProgram


def _ineq(p, m) -> QuadraticProgram:
    return app("ineq_to_eq", p, m)


def _bin(p) -> QuadraticProgram:
    return app("int_to_bin", p)


def _pen(p, w) -> QuadraticProgram:
    return app("penalize", p, w)


class InequalityToEquality(QuadraticProgramConverter):
    def __init__(self, mode="auto"):
        self.mode = mode
        self.src = None

    def convert(self, problem):
        self.src = problem
        return _ineq(problem, self.mode)

    def interpret(self, x):
        return app("ineq_to_eq.interpret", self.src, x)


class IntegerToBinary(QuadraticProgramConverter):
    def __init__(self):
        self.src = None

    def convert(self, problem):
        self.src = problem
        return _bin(problem)

    def interpret(self, x):
        return app("int_to_bin.interpret", self.src, x)


class LinearEqualityToPenalty(QuadraticProgramConverter):
    def __init__(self, penalty=None):
        self.penalty = penalty
        self.src = None

    def convert(self, problem):
        self.src = problem
        return _pen(problem, self.penalty)

    def interpret(self, x):
        return app("penalize.interpret", self.src, x)
