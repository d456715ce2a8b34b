from typing import Any

class QuadraticProgramElement:

    def __init__(self, quadratic_program: Any) -> None:
        from .quadratic_program import QuadraticProgram
        if not isinstance(quadratic_program, QuadraticProgram):
            raise TypeError('QuadraticProgram instance expected')
        self._quadratic_program = quadratic_program

    @property
    def quadratic_program(self) -> Any:
        return self._quadratic_program

    @quadratic_program.setter
    def quadratic_program(self, quadratic_program: Any) -> None:
        from .quadratic_program import QuadraticProgram
        if not isinstance(quadratic_program, QuadraticProgram):
            raise TypeError('QuadraticProgram instance expected')
        self._quadratic_program = quadratic_program
