"""Interface model of docplex.mp.model.Model (read by the analyser, never imported)."""
from vg import app, dvar


class Model:
    def __init__(self, name="", **kwargs):
        self.name = name
        self.vars = []
        self.objective = 0
        self.objective_sense = "min"
        self.constraints = []

    def binary_var(self, name=None):
        x = dvar(name)
        self.vars.append(("binary", 0, 1, name))
        return x

    def integer_var(self, lb=None, ub=None, name=None):
        x = dvar(name)
        self.vars.append(("integer", lb, ub, name))
        return x

    def continuous_var(self, lb=None, ub=None, name=None):
        x = dvar(name)
        self.vars.append(("continuous", lb, ub, name))
        return x

    def binary_var_list(self, keys, name=None):
        return [self.binary_var(name=key_name(name, k)) for k in as_keys(keys)]

    def binary_var_dict(self, keys, name=None):
        return {k: self.binary_var(name=key_name(name, k)) for k in as_keys(keys)}

    def integer_var_list(self, keys, lb=None, ub=None, name=None):
        return [self.integer_var(lb, ub, name=key_name(name, k)) for k in as_keys(keys)]

    def integer_var_dict(self, keys, lb=None, ub=None, name=None):
        return {k: self.integer_var(lb, ub, name=key_name(name, k)) for k in as_keys(keys)}

    def sum(self, xs):
        return sum(x for x in xs)

    def minimize(self, expr):
        self.objective = expr
        self.objective_sense = "min"

    def maximize(self, expr):
        self.objective = expr
        self.objective_sense = "max"

    def add_constraint(self, ct, ctname=None):
        self.constraints.append((ct, ctname))
        return ct

    def add_constraints(self, cts, names=None):
        for ct in cts:
            self.constraints.append((ct, None))


def as_keys(keys):
    if isinstance(keys, int):
        return range(keys)
    return keys


def key_name(name, key):
    if isinstance(key, tuple):
        return name + "_" + "_".join(str(x) for x in key)
    return name + "_" + str(key)
