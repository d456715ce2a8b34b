"""the two source trees compared by a check"""
import os
from .repo import World

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CON = os.path.join(HERE, "contracts")
REPO = os.environ.get("VG_REPO", "/repo")
PROB = "qiskit_optimization.problems"
MODEL = {PROB + m: os.path.join(CON, "model", "problems.py") for m in (
    "", ".quadratic_program", ".variable", ".constraint", ".linear_constraint", ".quadratic_constraint",
    ".quadratic_objective", ".linear_expression", ".quadratic_expression", ".quadratic_program_element")}


CONV = {"qiskit_optimization.converters." + m: os.path.join(CON, "model", "converters_model.py") for m in (
    "quadratic_program_to_qubo", "integer_to_binary")}
STEP = {"qiskit_optimization.converters." + m: os.path.join(CON, "model", "steps_model.py") for m in (
    "inequality_to_equality", "integer_to_binary", "linear_equality_to_penalty")}
MODES = {"core": False, "client": True, "algo": "algo", "pipe": "pipe"}


def worlds(client, drivers):
    """(implementation world, reference world) for one driver file"""
    over = dict(MODEL) if client else {}
    if client == "algo":
        over.update(CONV)
    if client == "pipe":
        over.update(STEP)
    extra = {"vgdrv": drivers}
    if client:
        extra["docplex.mp.model"] = os.path.join(CON, "model", "docplex_model.py")
    a = World("impl", REPO, over, extra)
    b = World("spec", os.path.join(CON, "ref"), dict(over), dict(extra))
    return a, b
