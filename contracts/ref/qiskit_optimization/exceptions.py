from qiskit.exceptions import QiskitError

class QiskitOptimizationError(QiskitError):
    pass
