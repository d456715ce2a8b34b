"""only the effects on the arguments are observed"""
import numpy as np
from qiskit_optimization.problems.quadratic_program import QuadraticProgram


def keep_to_docplex(p: QuadraticProgram):
    p.to_docplex()


def keep_to_ising(p: QuadraticProgram):
    p.to_ising()


def keep_substitute(p: QuadraticProgram, i: int, v: float):
    p.substitute_variables(constants={i: v})


def keep_substitute_pair(p: QuadraticProgram, i: int, j: int, v: float):
    p.substitute_variables(variables={i: (j, v)})


def keep_feasible(p: QuadraticProgram, x: np.ndarray):
    p.get_feasibility_info(x)


def keep_lp(p: QuadraticProgram):
    p.export_as_lp_string()
