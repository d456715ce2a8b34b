"""Interface model of the converters used when the optimizers built on them are analysed (mode
"algo").  The converters' own behaviour is decided by the converter properties (P11-P14)."""
from typing import List

from vg import app
from qiskit_optimization.converters.quadratic_program_converter import QuadraticProgramConverter
from qiskit_optimization.problems.quadratic_program import QuadraticProgram
from qiskit_optimization.algorithms.optimization_algorithm import OptimizationResult


def _to_qubo(p, w) -> QuadraticProgram:
    return app("to_qubo", p, w)


def _to_bin(p) -> QuadraticProgram:
    return app("int_to_bin", p)


def _solve(s, p) -> OptimizationResult:
    return app("inner.solve", s, p)


class QuadraticProgramToQubo(QuadraticProgramConverter):
    def __init__(self, penalty=None):
        self.penalty = penalty
        self.src = None

    def convert(self, problem):
        self.src = problem
        return _to_qubo(problem, self.penalty)

    def interpret(self, x):
        return app("to_qubo.interpret", self.src, self.penalty, x)

    @staticmethod
    def get_compatibility_msg(problem):
        return app("to_qubo.msg", problem)

    def is_compatible(self, problem):
        return len(app("to_qubo.msg", problem)) == 0


class IntegerToBinary(QuadraticProgramConverter):
    def __init__(self):
        self.src = None

    def convert(self, problem):
        self.src = problem
        return _to_bin(problem)

    def interpret(self, x):
        return app("int_to_bin.interpret", self.src, x)


class InnerSolver:
    """any optimizer handed in by the caller"""

    def solve(self, problem):
        return _solve(self, problem)


class CountsInstance:
    """a quantum instance on a sampling backend"""

    is_statevector = False

    def __init__(self, run_config):
        self.run_config = run_config

    def execute(self, circuit):
        return app("execute", self.run_config, circuit)


class StateInstance:
    """a quantum instance on a statevector backend"""

    is_statevector = True

    def execute(self, circuit):
        return app("execute.sv", circuit)


class TagConverter(QuadraticProgramConverter):
    """a converter that keeps the problem and relabels solutions"""

    def __init__(self, tag):
        self.tag = tag

    def convert(self, problem):
        return problem

    def interpret(self, x):
        return app("tagged", self.tag, x)
