From e404973e97b631d7679eddadd45d653f4e1f5725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:36 +0000
Subject: [PATCH 01/23] fix: register variable and constraint names only after
 the object was built

A call that failed (bad bounds, unknown sense, bad coefficients) left a dangling
name in the index of the quadratic program.
---
 qiskit_optimization/problems/quadratic_program.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index 6c88b2f..a2b2e01 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -224,8 +224,8 @@ class QuadraticProgram:
                     "Variable name already exists: {}".format(indexed_name)
                 )
             names.append(indexed_name)
-            self._variables_index[indexed_name] = self.get_num_vars()
             variable = Variable(self, indexed_name, lowerbound, upperbound, vartype)
+            self._variables_index[indexed_name] = self.get_num_vars()
             self._variables.append(variable)
             variables.append(variable)
         return names, variables
@@ -646,10 +646,10 @@ class QuadraticProgram:
             while "c{}".format(k) in self.linear_constraints_index:
                 k += 1
             name = "c{}".format(k)
-        self.linear_constraints_index[name] = len(self.linear_constraints)
         if linear is None:
             linear = {}
         constraint = LinearConstraint(self, name, linear, Constraint.Sense.convert(sense), rhs)
+        self.linear_constraints_index[name] = len(self.linear_constraints)
         self.linear_constraints.append(constraint)
         return constraint
 
@@ -739,7 +739,6 @@ class QuadraticProgram:
             while "q{}".format(k) in self.quadratic_constraints_index:
                 k += 1
             name = "q{}".format(k)
-        self.quadratic_constraints_index[name] = len(self.quadratic_constraints)
         if linear is None:
             linear = {}
         if quadratic is None:
@@ -747,6 +746,7 @@ class QuadraticProgram:
         constraint = QuadraticConstraint(
             self, name, linear, quadratic, Constraint.Sense.convert(sense), rhs
         )
+        self.quadratic_constraints_index[name] = len(self.quadratic_constraints)
         self.quadratic_constraints.append(constraint)
         return constraint
 
-- 
2.43.0


From d02b1142593752d6959e3696ac13ffd96aa32f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:24 +0000
Subject: [PATCH 02/23] fix: to_ising returns a zero operator for a constant
 objective

The operator returned for an objective without variables was the identity with
coefficient one, so operator plus offset was off by one.
---
 qiskit_optimization/problems/quadratic_program.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index a2b2e01..69dbcc4 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1322,12 +1322,12 @@ class QuadraticProgram:
         # Remove paulis whose coefficients are zeros.
         qubit_op = sum(PauliOp(pauli, coeff=coeff) for coeff, pauli in pauli_list)
 
-        # qubit_op could be the integer 0, in this case return an identity operator of
+        # qubit_op could be the integer 0, in this case return a zero operator of
         # appropriate size
         if isinstance(qubit_op, OperatorBase):
             qubit_op = qubit_op.reduce()
         else:
-            qubit_op = I ^ num_nodes
+            qubit_op = 0 * I ^ num_nodes
 
         return qubit_op, offset
 
-- 
2.43.0


From ec07f822ad261566276deaaa43c73e4da07a03b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:09 +0000
Subject: [PATCH 03/23] fix: from_ising replaces the program and sums all Pauli
 terms

Terms on the same qubits overwrote each other, an identity term was rejected instead
of shifting the constant, and variables present before the call shifted the indices.
---
 qiskit_optimization/problems/quadratic_program.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index 69dbcc4..af34daf 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1363,6 +1363,9 @@ class QuadraticProgram:
                 "operator in the ListOp separately."
             )
 
+        # clear
+        self.clear()
+
         # add binary variables
         for i in range(qubit_op.num_qubits):
             self.binary_var(name="x_{0}".format(i))
@@ -1388,10 +1391,12 @@ class QuadraticProgram:
             num_z = len(z_index)
 
             # Add its weight of the Pauli term to the corresponding element of QUBO matrix
-            if num_z == 1:
-                qubo_matrix[z_index[0], z_index[0]] = coeff.real
+            if num_z == 0:
+                offset += coeff.real
+            elif num_z == 1:
+                qubo_matrix[z_index[0], z_index[0]] += coeff.real
             elif num_z == 2:
-                qubo_matrix[z_index[0], z_index[1]] = coeff.real
+                qubo_matrix[z_index[0], z_index[1]] += coeff.real
             else:
                 raise QiskitOptimizationError(
                     "There are more than 2 Pauli Zs in the Pauli term {}".format(pauli.z)
-- 
2.43.0


From bed50916879a63298e4c2d2495205af62d5940e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:36 +0000
Subject: [PATCH 04/23] fix: substitute_variables reports conflicting bounds as
 INFEASIBLE

Bounds that exclude each other after a substitution raised an error from the
variable instead of setting the documented status.
---
 .../problems/quadratic_program.py             | 26 +++++++++----------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index af34daf..150242d 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1673,21 +1673,19 @@ class SubstituteVariables:
                 lb_j = var_j.lowerbound
                 ub_j = var_j.upperbound
                 if v > 0:
-                    var_j.lowerbound = max(lb_j, new_lb_i)
-                    var_j.upperbound = min(ub_j, new_ub_i)
+                    lb_j = max(lb_j, new_lb_i)
+                    ub_j = min(ub_j, new_ub_i)
                 else:
-                    var_j.lowerbound = max(lb_j, new_ub_i)
-                    var_j.upperbound = min(ub_j, new_lb_i)
-
-        for var in self._dst.variables:
-            if var.lowerbound > var.upperbound:
-                logger.warning(
-                    "Infeasible lower and upper bound: %s %f %f",
-                    var,
-                    var.lowerbound,
-                    var.upperbound,
-                )
-                feasible = False
+                    lb_j = max(lb_j, new_ub_i)
+                    ub_j = min(ub_j, new_lb_i)
+                if lb_j > ub_j:
+                    logger.warning(
+                        "Infeasible lower and upper bound: %s %f %f", var_j.name, lb_j, ub_j
+                    )
+                    feasible = False
+                else:
+                    var_j.lowerbound = lb_j
+                    var_j.upperbound = ub_j
 
         return feasible
 
-- 
2.43.0


From 0f48c23ac13992f5592058f8252c34a406956813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:37 +0000
Subject: [PATCH 05/23] fix: substitute_variables rejects chained substitutions
 in any order

A variable substituted after it had been used as a replacement ended in a KeyError.
---
 qiskit_optimization/problems/quadratic_program.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index 150242d..e71a213 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1625,12 +1625,14 @@ class SubstituteVariables:
                     raise QiskitOptimizationError(
                         "Cannot substitute the same variable twice: {} <- {} {}".format(i, j, v)
                     )
+                subs[i_2] = (j_2, v)
+
+            for i_2, (j_2, v) in subs.items():
                 if j_2 in subs:
                     raise QiskitOptimizationError(
                         "Cannot substitute by variable that gets substituted itself: "
-                        "{} <- {} {}".format(i, j, v)
+                        "{} <- {} {}".format(i_2, j_2, v)
                     )
-                subs[i_2] = (j_2, v)
 
         self._subs = subs
 
-- 
2.43.0


From 36903ad235d56451cb5b56cfcabf3f8ebef1e606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:46 +0000
Subject: [PATCH 06/23] fix: IntegerToBinary handles an integer variable fixed
 by its bounds

log2 of an empty range raised an OverflowError.
---
 qiskit_optimization/converters/integer_to_binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/converters/integer_to_binary.py b/qiskit_optimization/converters/integer_to_binary.py
index b4e19db..348de8c 100644
--- a/qiskit_optimization/converters/integer_to_binary.py
+++ b/qiskit_optimization/converters/integer_to_binary.py
@@ -104,7 +104,7 @@ class IntegerToBinary(QuadraticProgramConverter):
         self, name: str, lowerbound: float, upperbound: float
     ) -> List[Tuple[str, int]]:
         var_range = upperbound - lowerbound
-        power = int(np.log2(var_range))
+        power = int(np.log2(var_range)) if var_range > 0 else 0
         bounded_coef = var_range - (2 ** power - 1)
 
         coeffs = [2 ** i for i in range(power)] + [bounded_coef]
-- 
2.43.0


From 3856db0b42ed9c7c864db15be568b0f7aefcfe98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:03 +0000
Subject: [PATCH 07/23] fix: IntegerToBinary weighs the linear terms of integer
 products

The cross terms of a product of two integer variables with non-zero lower bounds
missed the coefficient of the binary digit.
---
 qiskit_optimization/converters/integer_to_binary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/converters/integer_to_binary.py b/qiskit_optimization/converters/integer_to_binary.py
index 348de8c..a1e47c1 100644
--- a/qiskit_optimization/converters/integer_to_binary.py
+++ b/qiskit_optimization/converters/integer_to_binary.py
@@ -152,9 +152,9 @@ class IntegerToBinary(QuadraticProgramConverter):
                         quadratic[z_x, z_y] = v * coeff_x * coeff_y
 
                 for z_x, coeff_x in self._conv[x]:
-                    linear[z_x] = linear.get(z_x, 0.0) + v * y.lowerbound
+                    linear[z_x] = linear.get(z_x, 0.0) + v * coeff_x * y.lowerbound
                 for z_y, coeff_y in self._conv[y]:
-                    linear[z_y] = linear.get(z_y, 0.0) + v * x.lowerbound
+                    linear[z_y] = linear.get(z_y, 0.0) + v * coeff_y * x.lowerbound
 
                 constant += v * x.lowerbound * y.lowerbound
 
-- 
2.43.0


From 4594a6a08ddc42aeb46cff0cb73aa6e76260ff7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:31 +0000
Subject: [PATCH 08/23] fix: InequalityToEquality uses continuous slack for
 continuous variables

In mode 'auto' a constraint with integer coefficients on continuous variables got an
integer slack variable, which cut off feasible points.
---
 .../converters/inequality_to_equality.py      | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/qiskit_optimization/converters/inequality_to_equality.py b/qiskit_optimization/converters/inequality_to_equality.py
index a59cafb..101bb5c 100644
--- a/qiskit_optimization/converters/inequality_to_equality.py
+++ b/qiskit_optimization/converters/inequality_to_equality.py
@@ -248,8 +248,11 @@ class InequalityToEquality(QuadraticProgramConverter):
         self._dst.linear_constraint(new_linear, "==", rhs, name)
 
     def _add_auto_slack_var_linear_constraint(self, linear, sense, rhs, name):
-        # If a coefficient that is not integer exist, use a continuous slack variable
-        if self._contains_any_float_value(list(linear.values())):
+        # If a coefficient that is not integer or a continuous variable exist,
+        # use a continuous slack variable
+        if self._contains_any_float_value(
+            list(linear.values())
+        ) or self._contains_any_continuous_var(linear):
             self._add_continuous_slack_var_linear_constraint(linear, sense, rhs, name)
         # Else use an integer slack variable
         else:
@@ -330,15 +333,24 @@ class InequalityToEquality(QuadraticProgramConverter):
         self._dst.quadratic_constraint(new_linear, quadratic, "==", rhs, name)
 
     def _add_auto_slack_var_quadratic_constraint(self, linear, quadratic, sense, rhs, name):
-        # If a coefficient that is not integer exist, use a continuous slack variable
-        if self._contains_any_float_value(list(linear.values())) or self._contains_any_float_value(
-            list(quadratic.values())
+        # If a coefficient that is not integer or a continuous variable exist,
+        # use a continuous slack variable
+        if (
+            self._contains_any_float_value(list(linear.values()))
+            or self._contains_any_float_value(list(quadratic.values()))
+            or self._contains_any_continuous_var(linear)
+            or self._contains_any_continuous_var(name_i for pair in quadratic for name_i in pair)
         ):
             self._add_continuous_slack_var_quadratic_constraint(linear, quadratic, sense, rhs, name)
         # Else use an integer slack variable
         else:
             self._add_integer_slack_var_quadratic_constraint(linear, quadratic, sense, rhs, name)
 
+    def _contains_any_continuous_var(self, names):
+        return any(
+            self._src.get_variable(name).vartype == Variable.Type.CONTINUOUS for name in names
+        )
+
     def _calc_linear_bounds(self, linear):
         lhs_lb, lhs_ub = 0, 0
         for var_name, v in linear.items():
-- 
2.43.0


From 25d4a49ecf759e32660bef6553c0c9383e4db293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:31 +0000
Subject: [PATCH 09/23] fix: LinearEqualityToPenalty keeps quadratic
 constraints

They were dropped silently, so the converted problem accepted infeasible points.
---
 .../converters/linear_equality_to_penalty.py           | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/qiskit_optimization/converters/linear_equality_to_penalty.py b/qiskit_optimization/converters/linear_equality_to_penalty.py
index 17cce7a..a6ac58e 100644
--- a/qiskit_optimization/converters/linear_equality_to_penalty.py
+++ b/qiskit_optimization/converters/linear_equality_to_penalty.py
@@ -121,6 +121,16 @@ class LinearEqualityToPenalty(QuadraticProgramConverter):
         else:
             self._dst.maximize(offset, linear, quadratic)
 
+        # Quadratic constraints are not penalized but kept
+        for q_constraint in self._src.quadratic_constraints:
+            self._dst.quadratic_constraint(
+                q_constraint.linear.to_dict(),
+                q_constraint.quadratic.to_dict(),
+                q_constraint.sense,
+                q_constraint.rhs,
+                q_constraint.name,
+            )
+
         # Update the penalty to the one just used
         self._penalty = penalty  # type: float
 
-- 
2.43.0


From dcbbbc2b2527be1fad49170b0195f305d6036f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:14 +0000
Subject: [PATCH 10/23] fix: store expression coefficients as floats

Coefficients given as integer lists or matrices kept an integer type, so that a
fractional value assigned later was truncated.
---
 qiskit_optimization/problems/linear_expression.py    | 4 ++--
 qiskit_optimization/problems/quadratic_expression.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/qiskit_optimization/problems/linear_expression.py b/qiskit_optimization/problems/linear_expression.py
index 5ff5468..cbd8f72 100644
--- a/qiskit_optimization/problems/linear_expression.py
+++ b/qiskit_optimization/problems/linear_expression.py
@@ -80,9 +80,9 @@ class LinearExpression(QuadraticProgramElement):
             or isinstance(coefficients, ndarray)
             and len(coefficients.shape) == 1
         ):
-            coefficients = dok_matrix([coefficients])
+            coefficients = dok_matrix([coefficients], dtype=float)
         elif isinstance(coefficients, spmatrix):
-            coefficients = dok_matrix(coefficients)
+            coefficients = dok_matrix(coefficients, dtype=float)
         elif isinstance(coefficients, dict):
             coeffs = dok_matrix((1, self.quadratic_program.get_num_vars()))
             for index, value in coefficients.items():
diff --git a/qiskit_optimization/problems/quadratic_expression.py b/qiskit_optimization/problems/quadratic_expression.py
index e968264..a060227 100644
--- a/qiskit_optimization/problems/quadratic_expression.py
+++ b/qiskit_optimization/problems/quadratic_expression.py
@@ -101,7 +101,7 @@ class QuadraticExpression(QuadraticProgramElement):
             QiskitOptimizationError: if coefficients are given in unsupported format.
         """
         if isinstance(coefficients, (list, ndarray, spmatrix)):
-            coefficients = dok_matrix(coefficients)
+            coefficients = dok_matrix(coefficients, dtype=float)
         elif isinstance(coefficients, dict):
             n = self.quadratic_program.get_num_vars()
             coeffs = dok_matrix((n, n))
-- 
2.43.0


From 4fd9a463967d73a4ebdbbe1f2be74e0a6bb86ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:32 +0000
Subject: [PATCH 11/23] fix: multi start keeps the best trial of a maximization
 problem

The value of the best trial was stored with the sign of the problem but compared
with values to be minimized.
---
 qiskit_optimization/algorithms/multistart_optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/algorithms/multistart_optimizer.py b/qiskit_optimization/algorithms/multistart_optimizer.py
index 57ed263..d555062 100644
--- a/qiskit_optimization/algorithms/multistart_optimizer.py
+++ b/qiskit_optimization/algorithms/multistart_optimizer.py
@@ -91,13 +91,13 @@ class MultiStartOptimizer(OptimizationAlgorithm, ABC):
             # we minimize the objective
             if fval < fval_sol:
                 # here we get back to the original sense of the problem
-                fval_sol = fval * problem.objective.sense.value
+                fval_sol = fval
                 x_sol = x
                 rest_sol = rest
 
         return OptimizationResult(
             x=x_sol,
-            fval=fval_sol,
+            fval=fval_sol * problem.objective.sense.value,
             variables=problem.variables,
             status=self._get_feasibility_status(problem, x_sol),
             raw_results=rest_sol,
-- 
2.43.0


From d392dc282c0858ca0ea837e041de2b346785e345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:34 +0000
Subject: [PATCH 12/23] fix: decode sampled eigenstates with the right bit
 order and probability

A dictionary eigenstate maps bit strings (first qubit rightmost) to amplitudes; the
samples took them from left to right and as counts.
---
 .../algorithms/grover_optimizer.py            |  4 ++--
 .../algorithms/optimization_algorithm.py      | 20 +++++++++----------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/qiskit_optimization/algorithms/grover_optimizer.py b/qiskit_optimization/algorithms/grover_optimizer.py
index 749f540..96027c5 100644
--- a/qiskit_optimization/algorithms/grover_optimizer.py
+++ b/qiskit_optimization/algorithms/grover_optimizer.py
@@ -262,7 +262,7 @@ class GroverOptimizer(OptimizationAlgorithm):
                         self._circuit_results = np.diag(rho.data) ** 0.5
                     else:
                         self._circuit_results = {
-                            i[0:n_key]: v for i, v in self._circuit_results.items()
+                            i[-n_key:]: v for i, v in self._circuit_results.items()
                         }
 
                     raw_samples = self._eigenvector_to_solutions(
@@ -347,7 +347,7 @@ class GroverOptimizer(OptimizationAlgorithm):
             state = result.get_counts(qc)
             shots = self.quantum_instance.run_config.shots
             hist = {key[::-1]: val / shots for key, val in state.items() if val > 0}
-            self._circuit_results = {b[::-1]: np.sqrt(v / shots) for (b, v) in state.items()}
+            self._circuit_results = {b: np.sqrt(v / shots) for (b, v) in state.items()}
         return hist
 
     @staticmethod
diff --git a/qiskit_optimization/algorithms/optimization_algorithm.py b/qiskit_optimization/algorithms/optimization_algorithm.py
index 41174e4..e12a68a 100644
--- a/qiskit_optimization/algorithms/optimization_algorithm.py
+++ b/qiskit_optimization/algorithms/optimization_algorithm.py
@@ -520,10 +520,10 @@ class OptimizationAlgorithm(ABC):
 
         Examples:
             >>> op = MatrixOp(numpy.array([[1, 1], [1, -1]]) / numpy.sqrt(2))
-            >>> eigenvectors = {'0': 12, '1': 1}
+            >>> eigenvectors = {'0': 0.6, '1': 0.8}
             >>> print(eigenvector_to_solutions(eigenvectors, op))
-            [('0', 0.7071067811865475, 0.9230769230769231),
-            ('1', -0.7071067811865475, 0.07692307692307693)]
+            [('0', 0.7071067811865475, 0.36),
+            ('1', -0.7071067811865475, 0.64)]
 
             >>> op = MatrixOp(numpy.array([[1, 1], [1, -1]]) / numpy.sqrt(2))
             >>> eigenvectors = numpy.array([1, 1] / numpy.sqrt(2), dtype=complex)
@@ -535,12 +535,13 @@ class OptimizationAlgorithm(ABC):
             TypeError: If the type of eigenvector is not supported.
         """
         if isinstance(eigenvector, DictStateFn):
-            eigenvector = {bitstr: val ** 2 for (bitstr, val) in eigenvector.primitive.items()}
+            eigenvector = eigenvector.primitive
         elif isinstance(eigenvector, StateFn):
             eigenvector = eigenvector.to_matrix()
 
         def generate_solution(bitstr, qubo, probability):
-            x = np.fromiter(list(bitstr), dtype=int)
+            # the first qubit is the rightmost bit
+            x = np.fromiter(list(bitstr[::-1]), dtype=int)
             fval = qubo.objective.evaluate(x)
             return SolutionSample(
                 x=x,
@@ -551,10 +552,9 @@ class OptimizationAlgorithm(ABC):
 
         solutions = []
         if isinstance(eigenvector, dict):
-            all_counts = sum(eigenvector.values())
-            # iterate over all samples
-            for bitstr, count in eigenvector.items():
-                sampling_probability = count / all_counts
+            # iterate over all samples, the values are amplitudes
+            for bitstr, amplitude in eigenvector.items():
+                sampling_probability = np.abs(amplitude) ** 2
                 # add the bitstring, if the sampling probability exceeds the threshold
                 if sampling_probability >= min_probability:
                     solutions.append(generate_solution(bitstr, qubo, sampling_probability))
@@ -567,7 +567,7 @@ class OptimizationAlgorithm(ABC):
             for i, sampling_probability in enumerate(probabilities):
                 # add the i-th state if the sampling probability exceeds the threshold
                 if sampling_probability >= min_probability:
-                    bitstr = "{:b}".format(i).rjust(num_qubits, "0")[::-1]
+                    bitstr = "{:b}".format(i).rjust(num_qubits, "0")
                     solutions.append(generate_solution(bitstr, qubo, sampling_probability))
 
         else:
-- 
2.43.0


From de7e8c1a14ea4ca1fbf007047ad44f6b97fa8028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:34 +0000
Subject: [PATCH 13/23] fix: Grover and recursive optimizers leave the given
 problem unchanged

Without converters they flipped or shifted the objective of the caller's problem and
evaluated the result with it.
---
 qiskit_optimization/algorithms/grover_optimizer.py            | 4 ++--
 .../algorithms/recursive_minimum_eigen_optimizer.py           | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/qiskit_optimization/algorithms/grover_optimizer.py b/qiskit_optimization/algorithms/grover_optimizer.py
index 96027c5..bc44034 100644
--- a/qiskit_optimization/algorithms/grover_optimizer.py
+++ b/qiskit_optimization/algorithms/grover_optimizer.py
@@ -173,8 +173,8 @@ class GroverOptimizer(OptimizationAlgorithm):
         self._verify_compatibility(problem)
 
         # convert problem to QUBO
-        problem_ = self._convert(problem, self._converters)
-        problem_init = deepcopy(problem_)
+        problem_init = self._convert(problem, self._converters)
+        problem_ = deepcopy(problem_init)
 
         # convert to minimization problem
         if problem_.objective.sense == problem_.objective.Sense.MAXIMIZE:
diff --git a/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py b/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py
index f9487eb..fde647c 100644
--- a/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py
+++ b/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py
@@ -224,8 +224,8 @@ class RecursiveMinimumEigenOptimizer(OptimizationAlgorithm):
         self._verify_compatibility(problem)
 
         # convert problem to QUBO, this implicitly checks if the problem is compatible
-        problem_ = self._convert(problem, self._converters)
-        problem_ref = deepcopy(problem_)
+        problem_ref = self._convert(problem, self._converters)
+        problem_ = deepcopy(problem_ref)
 
         # run recursive optimization until the resulting problem is small enough
         replacements = {}  # type: Dict[str, Tuple[str, int]]
-- 
2.43.0


From 120ddb822e2d17334a1d358f59e929a67f358d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:34 +0000
Subject: [PATCH 14/23] fix: Grover sorts the raw samples by the sense of the
 converted problem

The sense used was the one of the negated problem, so the samples of a maximization
problem were listed worst first.
---
 qiskit_optimization/algorithms/grover_optimizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qiskit_optimization/algorithms/grover_optimizer.py b/qiskit_optimization/algorithms/grover_optimizer.py
index bc44034..4d4c494 100644
--- a/qiskit_optimization/algorithms/grover_optimizer.py
+++ b/qiskit_optimization/algorithms/grover_optimizer.py
@@ -268,7 +268,9 @@ class GroverOptimizer(OptimizationAlgorithm):
                     raw_samples = self._eigenvector_to_solutions(
                         self._circuit_results, problem_init
                     )
-                    raw_samples.sort(key=lambda x: problem_.objective.sense.value * x.fval)
+                    raw_samples.sort(
+                        key=lambda x: problem_init.objective.sense.value * x.fval
+                    )
                     samples = self._interpret_samples(problem, raw_samples, self._converters)
                 else:
                     # Using Durr and Hoyer method, increase m.
-- 
2.43.0


From d7966ffc71461125757c9de12b65c85ffffeed9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:37 +0000
Subject: [PATCH 15/23] fix: Goemans-Williamson returns a failure result
 without a solution

When the SDP could not be solved the empty solution did not match the variables and an
error was raised instead of the FAILURE status.
---
 qiskit_optimization/algorithms/goemans_williamson_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/algorithms/goemans_williamson_optimizer.py b/qiskit_optimization/algorithms/goemans_williamson_optimizer.py
index 1cf06bd..a0a0e13 100644
--- a/qiskit_optimization/algorithms/goemans_williamson_optimizer.py
+++ b/qiskit_optimization/algorithms/goemans_williamson_optimizer.py
@@ -156,7 +156,7 @@ class GoemansWilliamsonOptimizer(OptimizationAlgorithm):
         except (DCPError, DGPError, SolverError):
             logger.error("Can't solve SDP problem")
             return GoemansWilliamsonOptimizationResult(
-                x=[],
+                x=None,
                 fval=0,
                 variables=problem.variables,
                 status=OptimizationResultStatus.FAILURE,
-- 
2.43.0


From 9cd2233575dc6014864a84104f0ad6372bf26622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:31 +0000
Subject: [PATCH 16/23] fix: aggregated warm start samples are not translated a
 second time

The samples of the single runs are already solutions of the original problem; they
lost their status, integers above nine were split into digits, and the best sample
was interpreted again with the converters.
---
 .../algorithms/warm_start_qaoa_optimizer.py   | 30 +++++++++----------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py b/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py
index 53148fe..b4128c2 100644
--- a/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py
+++ b/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py
@@ -66,28 +66,22 @@ class MeanAggregator(BaseAggregator):
         """
 
         # Use a dict for fast solution look-up
-        # Key: sample code, value: tuple of fval, probability
-        dict_samples: Dict[str, Tuple[float, float]] = {}
-
-        def _to_string(x: np.ndarray) -> str:
-            return "".join(str(int(v)) for v in x)
-
-        def _from_string(string) -> np.ndarray:
-            return np.array([float(c) for c in string])
+        # Key: values of the sample, value: tuple of fval, probability, status
+        dict_samples: Dict[Tuple, Tuple[float, float, OptimizationResultStatus]] = {}
 
         # Sum up all the probabilities in the results
         for result in results:
             for sample in result.samples:
                 # state, fval, prob = sample[0], sample[1], sample[2]
                 state, fval, prob = (
-                    _to_string(sample.x),
+                    tuple(float(v) for v in sample.x),
                     sample.fval,
                     sample.probability,
                 )
                 if state in dict_samples:
-                    dict_samples[state] = (fval, dict_samples[state][1] + prob)
+                    dict_samples[state] = (fval, dict_samples[state][1] + prob, sample.status)
                 else:
-                    dict_samples[state] = (fval, prob)
+                    dict_samples[state] = (fval, prob, sample.status)
 
         # Divide by the number of results to normalize
         aggregated_samples = []
@@ -95,10 +89,10 @@ class MeanAggregator(BaseAggregator):
         for state in dict_samples:
             # sample = (state, dict_samples[state][0], dict_samples[state][1] / num_results)
             sample = SolutionSample(
-                x=_from_string(state),
+                x=np.array(state),
                 fval=dict_samples[state][0],
                 probability=dict_samples[state][1] / num_results,
-                status=OptimizationResultStatus.SUCCESS,
+                status=dict_samples[state][2],
             )
             aggregated_samples.append(sample)
 
@@ -336,15 +330,19 @@ class WarmStartQAOAOptimizer(MinimumEigenOptimizer):
             return results[0]
         else:
             samples = self._aggregator.aggregate(results)
-            samples.sort(key=lambda sample: converted_problem.objective.sense.value * sample.fval)
+            samples.sort(
+                key=lambda sample: (
+                    sample.status.value,
+                    converted_problem.objective.sense.value * sample.fval,
+                )
+            )
 
-            # translate result back to the original variables
+            # the samples are already in terms of the original variables
             return cast(
                 MinimumEigenOptimizationResult,
                 self._interpret(
                     x=samples[0].x,
                     problem=problem,
-                    converters=self._converters,
                     result_class=MinimumEigenOptimizationResult,
                     samples=samples,
                 ),
-- 
2.43.0


From 9deabbb1cf59486afcaf8f42e03342572e203fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:06 +0000
Subject: [PATCH 17/23] fix: ADMM stores the y iterates apart from the z
 iterates

The dual residual was computed against a y iterate from the second iteration on.
---
 qiskit_optimization/algorithms/admm_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/algorithms/admm_optimizer.py b/qiskit_optimization/algorithms/admm_optimizer.py
index 2b4694d..4ac543b 100644
--- a/qiskit_optimization/algorithms/admm_optimizer.py
+++ b/qiskit_optimization/algorithms/admm_optimizer.py
@@ -384,7 +384,7 @@ class ADMMOptimizer(OptimizationAlgorithm):
             self._state.x0_saved.append(self._state.x0)
             self._state.u_saved.append(self._state.u)
             self._state.z_saved.append(self._state.z)
-            self._state.z_saved.append(self._state.y)
+            self._state.y_saved.append(self._state.y)
 
             self._update_rho(residual, dual_residual)
 
-- 
2.43.0


From 4dde2dcc3f2b6eddd779d5ddf8cccf44dc76ffc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:06 +0000
Subject: [PATCH 18/23] fix: ADMM decreases rho when the dual residual
 dominates

The penalty was multiplied by tau_decr, i.e., increased in both cases.
---
 qiskit_optimization/algorithms/admm_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/algorithms/admm_optimizer.py b/qiskit_optimization/algorithms/admm_optimizer.py
index 4ac543b..0e1ae4d 100644
--- a/qiskit_optimization/algorithms/admm_optimizer.py
+++ b/qiskit_optimization/algorithms/admm_optimizer.py
@@ -822,7 +822,7 @@ class ADMMOptimizer(OptimizationAlgorithm):
             if primal_residual > self._params.mu_res * dual_residual:
                 self._state.rho = self._params.tau_incr * self._state.rho
             elif dual_residual > self._params.mu_res * primal_residual:
-                self._state.rho = self._params.tau_decr * self._state.rho
+                self._state.rho = self._state.rho / self._params.tau_decr
 
     def _get_constraint_residual(self) -> float:
         """Compute violation of the constraints of the original problem, as:
-- 
2.43.0


From 760be805ecc86b8ad660dcce1cbda6386f585c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:31 +0000
Subject: [PATCH 19/23] fix: ADMM's binary subproblem covers all binary
 variables it depends on

Variables that occur only as the second factor of a product of the objective, or with a
negative coefficient in an equality constraint, were left out and fixed to zero.
---
 qiskit_optimization/algorithms/admm_optimizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qiskit_optimization/algorithms/admm_optimizer.py b/qiskit_optimization/algorithms/admm_optimizer.py
index 0e1ae4d..0d36a4a 100644
--- a/qiskit_optimization/algorithms/admm_optimizer.py
+++ b/qiskit_optimization/algorithms/admm_optimizer.py
@@ -545,6 +545,8 @@ class ADMMOptimizer(OptimizationAlgorithm):
                 self._state.op.objective.linear[binary_index] != 0
                 or np.abs(self._state.op.objective.quadratic.coefficients[binary_index, :]).sum()
                 != 0
+                or np.abs(self._state.op.objective.quadratic.coefficients[:, binary_index]).sum()
+                != 0
             ):
                 # add the variable if it was not added before
                 if binary_index not in step1_absolute_indices:
@@ -559,7 +561,7 @@ class ADMMOptimizer(OptimizationAlgorithm):
         for constraint in self._state.binary_equality_constraints:
             for binary_index in list(rest_binary):
                 if (
-                    constraint.linear[binary_index] > 0
+                    constraint.linear[binary_index] != 0
                     and binary_index not in step1_absolute_indices
                 ):
                     # a binary variable with the binary_index is present in this constraint
-- 
2.43.0


From 0146a77812435b982f3d798d3095cb94de8ba2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:39 +0000
Subject: [PATCH 20/23] fix: parse_gset_format reads the weight of the edges

The index of the second node was stored as the weight.
---
 qiskit_optimization/applications/max_cut.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/applications/max_cut.py b/qiskit_optimization/applications/max_cut.py
index 3510773..d1d5bf5 100644
--- a/qiskit_optimization/applications/max_cut.py
+++ b/qiskit_optimization/applications/max_cut.py
@@ -116,10 +116,10 @@ class Maxcut(GraphOptimizationApplication):
                     w = np.zeros((n, n))
                     header = False
                 else:
-                    s__, t__, _ = v
+                    s__, t__, weight = v
                     s__ -= 1  # adjust 1-index
                     t__ -= 1  # ditto
-                    w[s__, t__] = t__
+                    w[s__, t__] = weight
                     count += 1
             assert m == count
         w += w.T
-- 
2.43.0


From c22c7ea5da2961d4fa705ba51e7cad7d01a7aa43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:15 +0000
Subject: [PATCH 21/23] fix: parse_tsplib_format accepts files in the TSPLIB
 format

The type was compared with its line break, the closing EOF line was read as a node,
and the coordinates were not passed as a mapping.
---
 qiskit_optimization/applications/tsp.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/qiskit_optimization/applications/tsp.py b/qiskit_optimization/applications/tsp.py
index 822f8a6..ac61ab3 100644
--- a/qiskit_optimization/applications/tsp.py
+++ b/qiskit_optimization/applications/tsp.py
@@ -160,11 +160,9 @@ class Tsp(GraphOptimizationApplication):
             coord_section = False
             for line in infile:
                 if line.startswith("NAME"):
-                    name = line.split(":")[1]
-                    name.strip()
+                    name = line.split(":")[1].strip()
                 elif line.startswith("TYPE"):
-                    typ = line.split(":")[1]
-                    typ.strip()
+                    typ = line.split(":")[1].strip()
                     if typ != "TSP":
                         raise QiskitOptimizationError(
                             'This supports only "TSP" type. Actual: {}'.format(typ)
@@ -173,14 +171,15 @@ class Tsp(GraphOptimizationApplication):
                     dim = int(line.split(":")[1])
                     coord = np.zeros((dim, 2))  # type: ignore
                 elif line.startswith("EDGE_WEIGHT_TYPE"):
-                    typ = line.split(":")[1]
-                    typ.strip()
+                    typ = line.split(":")[1].strip()
                     if typ != "EUC_2D":
                         raise QiskitOptimizationError(
                             'This supports only "EUC_2D" edge weight. Actual: {}'.format(typ)
                         )
                 elif line.startswith("NODE_COORD_SECTION"):
                     coord_section = True
+                elif line.startswith("EOF"):
+                    break
                 elif coord_section:
                     v = line.split()
                     index = int(v[0]) - 1
@@ -193,7 +192,7 @@ class Tsp(GraphOptimizationApplication):
         y_min = min(coord_[1] for coord_ in coord)
 
         graph = nx.random_geometric_graph(
-            len(coord), np.hypot(x_max - x_min, y_max - y_min) + 1, pos=coord
+            len(coord), np.hypot(x_max - x_min, y_max - y_min) + 1, pos=dict(enumerate(coord))
         )
         for w, v in graph.edges:
             delta = [graph.nodes[w]["pos"][i] - graph.nodes[v]["pos"][i] for i in range(2)]
-- 
2.43.0


From 2ab4155dad1a2c7647c710b536a94a9fc44368b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:15 +0000
Subject: [PATCH 22/23] fix: Tsp.create_random_instance honours the seed zero

---
 qiskit_optimization/applications/tsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/applications/tsp.py b/qiskit_optimization/applications/tsp.py
index ac61ab3..632c6f7 100644
--- a/qiskit_optimization/applications/tsp.py
+++ b/qiskit_optimization/applications/tsp.py
@@ -130,7 +130,7 @@ class Tsp(GraphOptimizationApplication):
         Returns:
              A Tsp instance created from the input information
         """
-        if seed:
+        if seed is not None:
             algorithm_globals.random_seed = seed
         coord = algorithm_globals.random.uniform(low, high, (n, 2))
         pos = {i: (coord_[0], coord_[1]) for i, coord_ in enumerate(coord)}
-- 
2.43.0


From d4f7c3f6d65bea94ee14534e4c98f8ef34893610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:15 +0000
Subject: [PATCH 23/23] fix: expressions span the variables added to the
 program later

Adding a variable after an objective or constraint was set (as the conversion of
inequality constraints does) made every evaluation fail with a dimension mismatch.
---
 qiskit_optimization/problems/linear_expression.py    | 8 ++++++--
 qiskit_optimization/problems/quadratic_expression.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/qiskit_optimization/problems/linear_expression.py b/qiskit_optimization/problems/linear_expression.py
index cbd8f72..56f654f 100644
--- a/qiskit_optimization/problems/linear_expression.py
+++ b/qiskit_optimization/problems/linear_expression.py
@@ -59,7 +59,7 @@ class LinearExpression(QuadraticProgramElement):
     def __setitem__(self, i: Union[int, str], value: float) -> None:
         if isinstance(i, str):
             i = self.quadratic_program.variables_index[i]
-        self._coefficients[0, i] = value
+        self.coefficients[0, i] = value
 
     def _coeffs_to_dok_matrix(
         self, coefficients: Union[ndarray, spmatrix, List, Dict[Union[int, str], float]]
@@ -101,6 +101,10 @@ class LinearExpression(QuadraticProgramElement):
         Returns:
             The coefficients of the linear expression.
         """
+        # variables added to the quadratic program later have zero coefficients
+        num_vars = self.quadratic_program.get_num_vars()
+        if self._coefficients.shape[1] < num_vars:
+            self._coefficients.resize(1, num_vars)
         return self._coefficients
 
     @coefficients.setter
@@ -121,7 +125,7 @@ class LinearExpression(QuadraticProgramElement):
         Returns:
             An array with the coefficients corresponding to the linear expression.
         """
-        return self._coefficients.toarray()[0]
+        return self.coefficients.toarray()[0]
 
     def to_dict(self, use_name: bool = False) -> Dict[Union[int, str], float]:
         """Returns the coefficients of the linear expression as dictionary, either using variable
diff --git a/qiskit_optimization/problems/quadratic_expression.py b/qiskit_optimization/problems/quadratic_expression.py
index a060227..7082f0b 100644
--- a/qiskit_optimization/problems/quadratic_expression.py
+++ b/qiskit_optimization/problems/quadratic_expression.py
@@ -137,6 +137,10 @@ class QuadraticExpression(QuadraticProgramElement):
         Returns:
             The coefficients of the quadratic expression.
         """
+        # variables added to the quadratic program later have zero coefficients
+        num_vars = self.quadratic_program.get_num_vars()
+        if self._coefficients.shape[0] < num_vars:
+            self._coefficients.resize(num_vars, num_vars)
         return self._coefficients
 
     @coefficients.setter
@@ -165,7 +169,7 @@ class QuadraticExpression(QuadraticProgramElement):
         Returns:
             An array with the coefficients corresponding to the quadratic expression.
         """
-        coeffs = self._symmetric_matrix(self._coefficients) if symmetric else self._coefficients
+        coeffs = self._symmetric_matrix(self.coefficients) if symmetric else self.coefficients
         return coeffs.toarray()
 
     def to_dict(
@@ -181,7 +185,7 @@ class QuadraticExpression(QuadraticProgramElement):
         Returns:
             An dictionary with the coefficients corresponding to the quadratic expression.
         """
-        coeffs = self._symmetric_matrix(self._coefficients) if symmetric else self._coefficients
+        coeffs = self._symmetric_matrix(self.coefficients) if symmetric else self.coefficients
         if use_name:
             return {
                 (
-- 
2.43.0

