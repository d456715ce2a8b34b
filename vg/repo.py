"""Source index: modules, classes, functions and imports of one source tree (never imported)."""
import ast
import os


class Fn:
    """a function definition (module level, method or nested)"""

    def __init__(self, mod, node, cls=None):
        self.mod, self.node, self.cls = mod, node, cls
        self.name = getattr(node, "name", "<lambda>")
        decs = []
        for d in getattr(node, "decorator_list", []):
            decs.append(ast.unparse(d))
        self.decs = decs
        self.static = "staticmethod" in decs
        self.classm = "classmethod" in decs
        self.prop = any(d in ("property", "abstractproperty", "functools.cached_property", "cached_property") for d in decs)
        self.setter = any(d.endswith(".setter") for d in decs)

    @property
    def where(self):
        return "%s:%s%s" % (self.mod.path, (self.cls.name + ".") if self.cls else "", self.name)


class Cls:
    def __init__(self, mod, node, outer=None):
        self.mod, self.node = mod, node
        self.name = node.name
        self.full = mod.name + "." + ((outer + ".") if outer else "") + node.name
        self.methods, self.props, self.setters, self.attrs, self.anns = {}, {}, {}, {}, {}
        for st in node.body:
            if isinstance(st, (ast.FunctionDef,)):
                f = Fn(mod, st, self)
                if f.setter:
                    self.setters[f.name] = f
                elif f.prop:
                    self.props[f.name] = f
                else:
                    self.methods[f.name] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.anns[st.target.id] = st.annotation
                if st.value is not None:
                    self.attrs[st.target.id] = st.value
        self.decs = [ast.unparse(d) for d in node.decorator_list]
        self.dataclass = any(d.split("(")[0].endswith("dataclass") for d in self.decs)
        self.bases = node.bases


class Mod:
    def __init__(self, world, name, path, ispkg):
        self.world, self.name, self.path, self.ispkg = world, name, path, ispkg
        with open(path, encoding="utf-8") as f:
            self.src = f.read()
        self.tree = ast.parse(self.src, path)
        self.names = {}
        self._scan(self.tree.body)

    def _scan(self, body):
        for st in body:
            if isinstance(st, ast.FunctionDef):
                self.names[st.name] = ("func", Fn(self, st))
            elif isinstance(st, ast.ClassDef):
                self.names[st.name] = ("class", Cls(self, st))
            elif isinstance(st, ast.Import):
                for al in st.names:
                    if al.asname:
                        self.names[al.asname] = ("import", al.name)
                    else:
                        self.names[al.name.split(".")[0]] = ("import", al.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                base = self.absname(st.module, st.level)
                for al in st.names:
                    self.names[al.asname or al.name] = ("from", base, al.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.names[t.id] = ("expr", st.value)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.names[st.target.id] = ("expr", st.value)
            elif isinstance(st, ast.Try):
                for h in st.handlers:
                    self._scan([x for x in h.body if not isinstance(x, (ast.Raise,))])
                flags = [x for x in st.body if isinstance(x, ast.Assign)]
                self._scan(st.body)
                for x in flags:
                    for t in x.targets:
                        if isinstance(t, ast.Name) and isinstance(x.value, ast.Constant):
                            self.names[t.id] = ("flag", t.id)
                self._scan(st.orelse)
            elif isinstance(st, ast.If):
                self._scan(st.body)
                self._scan(st.orelse)

    def absname(self, module, level):
        if not level:
            return module
        parts = self.name.split(".")
        if not self.ispkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[: -(level - 1)]
        return ".".join(parts + ([module] if module else []))


class World:
    """a tree rooted at ``root`` (directory that contains the package) plus replacement modules"""

    def __init__(self, name, root, overrides=None, extra=None):
        self.name, self.root = name, root
        self.overrides = overrides or {}
        self.extra = extra or {}
        self.mods = {}
        self._classes = {}

    def modpath(self, name):
        for table in (self.overrides, self.extra):
            if name in table:
                return table[name], False
        p = os.path.join(self.root, *name.split("."))
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.isfile(p + ".py"):
            return p + ".py", False
        return None, False

    def mod(self, name):
        if name not in self.mods:
            p, pk = self.modpath(name)
            if name in self.overrides:
                # every replaced module is one and the same model module
                first = min(k for k, v in self.overrides.items() if v == p)
                if first != name:
                    self.mods[name] = self.mod(first)
                    return self.mods[name]
            self.mods[name] = Mod(self, name, p, pk) if p else None
        return self.mods[name]

    def resolve(self, mod, name):
        """('func',Fn) ('class',Cls) ('mod',Mod) ('expr',Mod,node) ('ext',dotted) ('flag',..) or None"""
        ent = mod.names.get(name)
        if ent is None:
            return None
        return self._ent(mod, ent)

    def _ent(self, mod, ent):
        if ent[0] in ("func", "class"):
            return ent
        if ent[0] == "expr":
            return ("expr", mod, ent[1])
        if ent[0] == "flag":
            return ("ext", mod.name + "." + ent[1])
        if ent[0] == "import":
            m = self.mod(ent[1])
            return ("mod", m) if m else ("ext", ent[1])
        if ent[0] == "from":
            return self.from_(ent[1], ent[2])
        raise AssertionError(ent)

    def from_(self, base, name):
        m = self.mod(base)
        if m is None:
            return ("ext", base + "." + name)
        if name in m.names:
            return self._ent(m, m.names[name])
        s = self.mod(base + "." + name)
        if s is not None:
            return ("mod", s)
        if base.split(".")[0] == "qiskit_optimization":
            return ("missing", base + "." + name)
        return ("ext", base + "." + name)

    def cls(self, full):
        if full in self._classes:
            return self._classes[full]
        modn, _, c = full.rpartition(".")
        m = self.mod(modn)
        r = None
        if m is not None:
            e = m.names.get(c)
            if e is not None:
                e = self._ent(m, e)
                if e[0] == "class":
                    r = e[1]
        self._classes[full] = r
        return r

    def mro(self, cls):
        if not hasattr(cls, "_mro"):
            out = [cls]
            for b in cls.bases:
                n = self.basename(cls.mod, b)
                if isinstance(n, Cls):
                    for c in self.mro(n):
                        if c in out:
                            out.remove(c)
                        out.append(c)
            cls._mro = out
            self._classes[cls.full] = cls
        return cls._mro

    def extbases(self, cls):
        out = []
        for c in self.mro(cls):
            for b in c.bases:
                n = self.basename(c.mod, b)
                if not isinstance(n, Cls) and n:
                    out.append(n)
        return out

    def basename(self, mod, b):
        if isinstance(b, ast.Name):
            e = self.resolve(mod, b.id)
            if e is None:
                return b.id
            if e[0] == "class":
                return e[1]
            if e[0] == "ext":
                return e[1]
        elif isinstance(b, ast.Attribute):
            return ast.unparse(b)
        return None

    def find(self, cls, table, name):
        for c in self.mro(cls):
            f = getattr(c, table).get(name)
            if f is not None:
                return f, c
        return None, None

    def is_enum(self, cls):
        return any(n in ("Enum", "enum.Enum", "IntEnum", "enum.IntEnum") for n in self.extbases(cls))
