"""Gated-SSA abstract interpreter: maps source to value-graph terms.

Joins are merged (no path enumeration), loops are summarised by recurrences,
calls inside the package are inlined, calls outside it are uninterpreted terms.
"""
import ast
from fractions import Fraction as Fr

from . import terms as tm
from .terms import (T, C, raw, ite, band, bor, bnot, truth, cmp, add, sub, mul, div, neg, power,
                    NONE, TRUE, FALSE, ZERO, ONE, ABSENT, UNDEF, fresh, subst, ty, unopt,
                    length, idx, attr, get, keys, seqcat, mapcat, each, eachm, mkseq, spl, cat, tstr,
                    lit, lift, isnum, sym, exists, contains)
from .repo import Fn, Cls, Mod

BUILTINS = {
    "len", "range", "enumerate", "zip", "sum", "any", "all", "min", "max", "abs", "sorted", "reversed",
    "list", "dict", "tuple", "set", "frozenset", "int", "float", "str", "bool", "isinstance", "issubclass",
    "type", "map", "filter", "getattr", "setattr", "hasattr", "round", "print", "super", "object", "open", "id",
    "iter", "next", "callable", "repr", "complex", "pow", "divmod", "slice", "property", "vars", "format",
    "Exception", "ValueError", "TypeError", "KeyError", "IndexError", "NotImplementedError", "ImportError",
    "RuntimeError", "AttributeError", "StopIteration", "AssertionError", "DeprecationWarning", "UserWarning",
    "ArithmeticError", "ZeroDivisionError", "OverflowError", "LookupError", "NameError", "OSError", "Warning",
    "FileNotFoundError", "__name__", "bytes", "hash", "chr", "ord", "bin", "NotImplemented", "ModuleNotFoundError",
}

IGNORED_PREFIX = ("logging.", "warnings.warn", "builtins.print", "time.")


class State:
    __slots__ = ("cells", "pc", "ctx")

    def __init__(self, cells, pc=TRUE, ctx=TRUE):
        self.cells, self.pc, self.ctx = cells, pc, ctx

    def copy(self):
        return State(dict(self.cells), self.pc, self.ctx)


class Budget(Exception):
    pass


def constrain(f, c, memo=None):
    """generalised cofactor of diagram f by care set c (canonical on the care set)"""
    if memo is None:
        memo = {}
    if c is TRUE or f.op != "ite":
        return f
    if c is FALSE:
        return f
    key = (f, c)
    r = memo.get(key)
    if r is not None:
        return r
    top = f.a[0]
    if tm.okey(c.a[0]) < tm.okey(top):
        top = c.a[0]
    c1, c0 = tm._cofi(c, top)
    f1, f0 = tm._cofi(f, top)
    if c1 is FALSE:
        r = constrain(f0, c0, memo)
    elif c0 is FALSE:
        r = constrain(f1, c1, memo)
    else:
        r = tm.mkite(top, constrain(f1, c1, memo), constrain(f0, c0, memo))
    memo[key] = r
    return r


def restrict(f, c):
    """simplify diagram f where c is false without introducing atoms f does not test"""
    while c.op == "ite" and (f.op != "ite" or tm.okey(c.a[0]) < tm.okey(f.a[0])) and f.op == "ite":
        c1, c0 = tm._cofi(c, c.a[0])
        if group_in(f, c.a[0]):
            break
        c = bor(c1, c0)
    if c is TRUE or c is FALSE or f.op != "ite":
        return f
    top = f.a[0]
    if tm.okey(c.a[0]) < tm.okey(top):
        top = c.a[0]
    c1, c0 = tm._cofi(c, top)
    f1, f0 = tm._cofi(f, top)
    if c1 is FALSE:
        return restrict(f0, c0)
    if c0 is FALSE:
        return restrict(f1, c1)
    return tm.mkite(top, restrict(f1, c1), restrict(f0, c0))


def group_in(f, atom):
    g = tm.group(atom)
    st, seen = [f], set()
    while st:
        x = st.pop()
        if x.op != "ite" or x in seen:
            continue
        seen.add(x)
        if tm.group(x.a[0]) == g:
            return True
        st += [x.a[1], x.a[2]]
    return False


class Frame:
    def __init__(self, fid, fn, mod, cls, parent=None):
        self.fid, self.fn, self.mod, self.cls, self.parent = fid, fn, mod, cls, parent
        self.exits = []
        self.nonlocals = set()
        self.selfT = None
        self.yields = None


class Interp:
    def __init__(self, world, budget=400000):
        self.w = world
        self.frames = {}
        self.nfid = 0
        self.nref = 0
        self.kinds = {}
        self.fns = {}          # T(func) -> Fn
        self.fnkey = {}        # id(node) -> key
        self.clos = {}         # closure key -> (Fn, frame)
        self.classes = {}
        self.stack = []
        self.steps = 0
        self.budget = budget
        self.modcache = {}
        self.copies = {}
        self.opaque = []
        self.missing = []
        self.visited = set()
        self.calls = 0
        self.loops = 0
        self.joins = 0
        self.param_syms = []
        self.excs = 0
        self._raised = [[]]
        from . import prims
        self.P = prims

    # ------------------------------------------------------------ allocation
    def newref(self, kind, st, content=None):
        self.nref += 1
        r = raw("ref", self.nref)
        self.kinds[r] = kind
        if content is not None:
            st.cells[("h", r)] = content
        return r

    def newframe(self, fn, mod, cls, parent=None):
        self.nfid += 1
        f = Frame(self.nfid, fn, mod, cls, parent)
        self.frames[f.fid] = f
        return f

    def opq(self, why, *vals):
        self.opaque.append(why)
        return raw("opaque", why, *vals)

    # ------------------------------------------------------------ entry point
    def func_term(self, fn):
        key = "%s:%s%s" % (fn.mod.name, (fn.cls.name + ".") if fn.cls else "", fn.name)
        t = raw("func", key)
        self.fns[t] = fn
        return t

    def class_term(self, cls):
        self.w.mro(cls)
        t = raw("class", cls.full)
        self.classes[t] = cls
        self.register_class(cls)
        return t

    def register_class(self, cls):
        if getattr(cls, "_reg", None):
            return
        cls._reg = True
        names = set()
        for c in self.w.mro(cls):
            names.add(c.full)
            if c is not cls:
                self.register_class(c)
        for e in self.w.extbases(cls):
            names.add(e)
        tm.CLASS_MRO[cls.full] = names
        if self.w.is_enum(cls):
            members = []
            for n, v in cls.attrs.items():
                if isinstance(v, ast.Constant):
                    members.append((n, C(v.value)))
                elif isinstance(v, ast.UnaryOp) and isinstance(v.operand, ast.Constant):
                    members.append((n, C(-v.operand.value)))
            tm.ENUMS[cls.full] = members
        # field types and aliases of private fields
        cls.alias = {}
        for c in reversed(self.w.mro(cls)):
            for p, f in c.props.items():
                v = self.plain_getter(cls, f)
                if v is not None:
                    cls.alias[v] = p
                if f.node.returns is not None:
                    tm.FIELD_TY.setdefault((cls.full, p), self.anntype(f.node.returns, c.mod))
            for a, an in c.anns.items():
                tm.FIELD_TY[(cls.full, a)] = self.anntype(an, c.mod)

    def plain_getter(self, cls, f, depth=0):
        """name of the field that f(self) returns unchanged, if that is all it does"""
        node = f.node
        if depth > 3 or not isinstance(node, ast.FunctionDef) or len(node.args.args) != 1:
            return None
        me = node.args.args[0].arg
        env = {}

        def val(e):
            while True:
                if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "cast" and len(e.args) == 2:
                    e = e.args[1]
                elif isinstance(e, ast.Name) and e.id in env:
                    return env[e.id]
                else:
                    break
            if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == me:
                return ("f", e.attr)
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) \
                    and e.func.value.id == me and not e.args and not e.keywords:
                for c in self.w.mro(cls):
                    if e.func.attr in c.methods:
                        r = self.plain_getter(cls, c.methods[e.func.attr], depth + 1)
                        return ("f", r) if r is not None else None
            return None

        for s in node.body:
            if isinstance(s, ast.Pass) or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                continue
            if isinstance(s, ast.If) and isinstance(s.test, ast.Constant) and not s.test.value and not s.orelse:
                continue
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                if not all(isinstance(t, ast.Name) for t in ts):
                    return None
                for t in ts:
                    env[t.id] = val(s.value)
                continue
            if isinstance(s, ast.Return) and s.value is not None:
                r = val(s.value)
                return r[1] if r else None
            return None
        return None

    def anntype(self, node, mod):
        if node is None:
            return "any"
        if isinstance(node, ast.Constant):
            if isinstance(node.value, str):
                try:
                    return self.anntype(ast.parse(node.value, mode="eval").body, mod)
                except SyntaxError:
                    return "any"
            if node.value is None:
                return "none"
            return "any"
        if isinstance(node, ast.Name):
            b = {"int": "int", "float": "float", "str": "str", "bool": "bool", "complex": "num",
                 "list": ("list", "any"), "dict": ("dict", "any", "any"), "num": "num", "nn": "nn",
                 "List": ("list", "any"), "Dict": ("dict", "any", "any"), "ndarray": ("array", "num")}
            e = self.w.resolve(mod, node.id)
            if e and e[0] == "class":
                cls = e[1]
                self.class_term(cls)
                if self.w.is_enum(cls):
                    return ("enum", cls.full)
                return ("obj", cls.full)
            if e and e[0] == "ext" and e[1].endswith("ndarray"):
                return ("array", "num")
            return b.get(node.id, "any")
        if isinstance(node, ast.Attribute):
            s = ast.unparse(node)
            if s.endswith("ndarray"):
                return ("array", "num")
            if isinstance(node.value, ast.Name):
                e = self.w.resolve(mod, node.value.id)
                if e and e[0] == "class" and node.attr in e[1].attrs:
                    return self.anntype(e[1].attrs[node.attr], e[1].mod)
            return "any"
        if isinstance(node, ast.Subscript):
            base = ast.unparse(node.value).split(".")[-1]
            args = node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]
            if base in ("List", "list", "Sequence", "Iterable", "Set"):
                return ("list", self.anntype(args[0], mod))
            if base in ("Dict", "dict", "DefaultDict", "Mapping"):
                return ("dict", self.anntype(args[0], mod), self.anntype(args[1], mod) if len(args) > 1 else "any")
            if base == "Optional":
                t = self.anntype(args[0], mod)
                return "any" if t == "any" else ("opt", t)
            if base in ("Tuple", "tuple"):
                if len(args) == 2 and isinstance(args[1], ast.Constant) and args[1].value is Ellipsis:
                    return ("list", self.anntype(args[0], mod))
                return ("tuple",) + tuple(self.anntype(x, mod) for x in args)
            if base == "Union":
                ts = [self.anntype(x, mod) for x in args]
                if all(t in ("int", "float", "num", "bool") for t in ts):
                    return "num"
                if len(set(ts)) == 1:
                    return ts[0]
                return "any"
        return "any"

    def param(self, name, typ):
        t = sym(name)
        t._ty = typ
        self.param_syms.append(t)
        return t

    def run_driver(self, fn):
        """analyse driver function fn; returns outcome term"""
        st = State({})
        args = {}
        node = fn.node
        for a in node.args.args + node.args.kwonlyargs:
            args[a.arg] = self.param(a.arg, self.anntype(a.annotation, fn.mod))
        fr = self.newframe(fn, fn.mod, None)
        for k, v in args.items():
            st.cells[("v", fr.fid, k)] = v
        out = self.run_body(fr, node.body, st)
        # out: list of exits (kind, pc, val, st)
        parts = []
        for kind, pc, val, s in out:
            if pc is FALSE:
                continue
            if kind == "ret":
                v = raw("ret", self.outcome(val, s))
            else:
                v = raw("raise", self.excname(val))
            parts.append((pc, v))
        if not parts:
            return raw("raise", C("none"))
        alive = FALSE
        for pc, v in parts:
            if v.op == "ret":
                alive = bor(alive, pc)
        r = parts[-1][1]
        for pc, v in reversed(parts[:-1]):
            r = ite(pc, v, r)
        r = norm_outcome(r, alive)
        for _ in range(4):
            if not self.copies:
                break
            r2 = tm.replace(r, self.copies)
            if r2 is r:
                break
            r = r2
        return r

    def excname(self, val):
        if val.op == "app" and val.a[0] == "exc":
            return val.a[1]
        return C("Exception")

    def outcome(self, val, st):
        fz = Freezer(self, st)
        comps = [fz.freeze(val)]
        # effects on the parameters
        effs = {}
        for key, c in st.cells.items():
            if key[0] in ("f", "h", "ev"):
                t = key[1]
                if t.op == "ref":
                    continue
                root = self.root(t)
                if root in self.param_syms:
                    what = "%s.%s" % (tm.show(t), key[2]) if key[0] == "f" else tm.show(t)
                    if key[0] == "f":
                        eff = raw("wrote", t, key[2], fz.freeze(c))
                        if c is raw("attr", t, key[2]):
                            continue
                    elif key[0] == "h":
                        if c is t:
                            continue
                        eff = raw("wrote", t, "[]", fz.freeze(c))
                    else:
                        if c.op == "seq" and not c.a:
                            continue
                        eff = raw("wrote", t, "ev", fz.freeze(c))
                    effs.setdefault(root, []).append(eff)
        es = []
        for root in self.param_syms:
            if root in effs:
                es.append(raw("effects", root, *sorted(effs[root])))
        comps.append(raw("tuple", *es))
        return raw("tuple", *comps)

    def root(self, t):
        while True:
            if t.op in ("attr", "idx", "get", "keys"):
                t = t.a[0]
            elif t.op == "app" and len(t.a) > 1 and t.a[0].startswith(".") and isinstance(t.a[1], T):
                t = t.a[1]
            else:
                break
        return t

    # ------------------------------------------------------------ function bodies
    def run_body(self, fr, body, st):
        """run a function body; returns exits including fallthrough"""
        st = st.copy()
        ctx0 = band(st.ctx, st.pc)
        st.ctx, st.pc = ctx0, TRUE
        end = self.block(body, st, fr)
        exits = [e for e in fr.exits if e[0] in ("ret", "raise")]
        if end is not None:
            exits.append(("ret", end.pc, NONE, end))
        return exits

    def inline(self, fn, bound, st, parent=None, cls=None, selfT=None, gen_ok=True):
        """bound: dict param -> T.  returns value; updates st in place"""
        self.steps += 1
        if self.steps > self.budget:
            raise Budget("analysis budget exceeded")
        if sum(1 for f in self.stack if f is fn.node) >= 2 or len(self.stack) > 60:
            return self.opq("recursion:" + fn.name, *[v for v in bound.values()])
        self.calls += 1
        self.visited.add(fn.where)
        fr = self.newframe(fn, fn.mod, cls or fn.cls, parent)
        fr.selfT = selfT
        for k, v in bound.items():
            st.cells[("v", fr.fid, k)] = v
        if _is_gen(fn.node):
            fr.yields = self.newref(("list",), st, raw("seq"))
        self.stack.append(fn.node)
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.ev(fn.node.body, st, fr)
            exits = self.run_body(fr, fn.node.body, st)
        finally:
            self.stack.pop()
        val = self.join_exits(exits, st)
        if fr.yields is not None:
            return fr.yields
        return val

    def join_exits(self, exits, st):
        """propagate raises to the enclosing frame, merge returns into st"""
        rets = []
        for kind, pc, val, s in exits:
            if pc is FALSE:
                continue
            if kind == "raise":
                self.raised.append((pc, val, s, st.pc))
            else:
                rets.append((pc, val, s))
        if not rets:
            self.dead = True
            st.pc = FALSE
            return UNDEF
        tot = bor(*[r[0] for r in rets])
        pc, val, s = rets[-1]
        cells = s.cells
        acc = pc
        for pc, v, s in reversed(rets[:-1]):
            acc = bor(acc, pc)
            c = constrain(pc, acc)
            val = self.vite(c, v, val)
            cells = self.merge_cells(c, s.cells, cells)
        st.cells = dict(cells)
        st.pc = band(st.pc, tot)
        return val

    raised_stack = None

    @property
    def raised(self):
        return self._raised[-1]

    def vite(self, c, a, b):
        if a is b:
            return a
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        return ite(c, a, b)

    def merge_cells(self, c, A, B):
        if A is B:
            return A
        self.joins += 1
        out = dict(B)
        for k, a in A.items():
            b = B.get(k)
            if b is a:
                continue
            if b is None:
                if k[0] in ("f", "h", "ev") and k[1].op != "ref":
                    b = self.default_cell(k)
                    out[k] = self.vite(c, a, b)
                else:
                    out[k] = a
            else:
                out[k] = self.vite(c, a, b)
        for k in B:
            if k not in A and k[0] in ("f", "h", "ev") and k[1].op != "ref":
                out[k] = self.vite(c, self.default_cell(k), B[k])
        return out

    def default_cell(self, k):
        if k[0] == "f":
            return attr(k[1], k[2])
        if k[0] == "h":
            return k[1]
        return raw("seq")

    # ------------------------------------------------------------ statements
    def block(self, body, st, fr):
        for s in body:
            if st is None or st.pc is FALSE:
                return None
            st = self.stmt(s, st, fr)
        return st

    def with_raises(self, st, fr, thunk):
        """run thunk; raises collected during it become exits of fr"""
        self._raised.append([])
        try:
            r = thunk()
        finally:
            rs = self._raised.pop()
        for pc, val, s, pc0 in rs:
            fr.exits.append(("raise", band(pc0, pc), val, s))
        return r

    def stmt(self, s, st, fr):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.opq("stmt:" + type(s).__name__)
            return st
        self._raised.append([])
        try:
            r = m(s, st, fr)
        finally:
            rs = self._raised.pop()
        for pc, val, sx, pc0 in rs:
            p = band(pc0, pc)
            if p is not FALSE:
                fr.exits.append(("raise", p, val, sx))
        if r is not None and r.pc is FALSE:
            return None
        return r

    def s_Pass(self, s, st, fr):
        return st

    s_Global = s_Pass

    def s_Nonlocal(self, s, st, fr):
        fr.nonlocals.update(s.names)
        return st

    def s_Expr(self, s, st, fr):
        v = s.value
        if isinstance(v, ast.Constant):
            return st
        if isinstance(v, ast.Call):
            self.call(v, st, fr, discard=True)
            return st
        self.ev(v, st, fr)
        return st

    def s_Import(self, s, st, fr):
        for al in s.names:
            nm = al.asname or al.name.split(".")[0]
            tgt = al.name if al.asname else al.name.split(".")[0]
            m = self.w.mod(tgt)
            st.cells[("v", fr.fid, nm)] = self.ent(("mod", m) if m else ("ext", tgt))
        return st

    def s_ImportFrom(self, s, st, fr):
        base = fr.mod.absname(s.module, s.level)
        for al in s.names:
            st.cells[("v", fr.fid, al.asname or al.name)] = self.ent(self.w.from_(base, al.name))
        return st

    def s_FunctionDef(self, s, st, fr):
        st.cells[("v", fr.fid, s.name)] = self.closure(Fn(fr.mod, s), s.args, st, fr)
        return st

    def s_ClassDef(self, s, st, fr):
        st.cells[("v", fr.fid, s.name)] = self.class_term(Cls(fr.mod, s))
        return st

    def closure(self, fn, args, st, fr):
        ds = [self.ev(d, st, fr) for d in args.defaults]
        kd = [self.ev(d, st, fr) if d is not None else UNDEF for d in args.kw_defaults]
        key = len(self.clos)
        k2 = id(fn.node)
        if k2 in self.fnkey:
            key = self.fnkey[k2]
        else:
            self.fnkey[k2] = key
            self.clos[key] = fn
        return raw("clo", key, fr.fid, raw("tuple", *ds), raw("tuple", *kd), self.w.name)

    def s_Return(self, s, st, fr):
        v = self.ev(s.value, st, fr) if s.value is not None else NONE
        if st.pc is not FALSE:
            fr.exits.append(("ret", st.pc, v, st))
        return None

    def s_Raise(self, s, st, fr):
        name = C("Exception")
        if s.exc is not None:
            e = s.exc
            f = e.func if isinstance(e, ast.Call) else e
            v = self.ev(f, st, fr)
            if v.op in ("ext", "class"):
                name = C(str(v.a[0]).split(".")[-1])
            elif v.op == "ref":
                name = C(self.kinds[v][1].split(".")[-1])
        if st.pc is not FALSE:
            fr.exits.append(("raise", st.pc, raw("app", "exc", name), st))
        return None

    def s_Assert(self, s, st, fr):
        c = self.cond(s.test, st, fr)
        if c is TRUE:
            return st
        bad = band(st.pc, bnot(c))
        if bad is not FALSE:
            fr.exits.append(("raise", bad, raw("app", "exc", C("AssertionError")), st.copy()))
        st.pc = band(st.pc, c)
        return st

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(t.value, st, fr)
                k = self.ev(t.slice, st, fr)
                c = self.content(o, st)
                if self.isdict(o, c):
                    self.setcontent(o, mapcat([c if c.op == "map" else raw("splm", c), raw("del", k)]), st)
                else:
                    self.setcontent(o, tm.app("delidx", c, k), st)
            elif isinstance(t, ast.Name):
                st.cells.pop(("v", fr.fid, t.id), None)
        return st

    def s_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)
        return st

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            v = self.ev(s.value, st, fr)
            self.assign(s.target, v, st, fr)
        return st

    def s_AugAssign(self, s, st, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, st, fr)
            st2 = self.aug(cur, s.op, s.value, st, fr)
            self.assign(t, st2, st, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, fr)
            cur = self.getattr(o, t.attr, st, fr)
            v = self.aug(cur, s.op, s.value, st, fr)
            self.setattr(o, t.attr, v, st, fr)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, fr)
            k = self.ev(t.slice, st, fr)
            cur = self.getitem(o, k, st, fr)
            v = self.aug(cur, s.op, s.value, st, fr)
            self.setitem(o, k, v, st, fr, aug=True)
        return st

    def aug(self, cur, op, vnode, st, fr):
        v = self.ev(vnode, st, fr)
        if cur.op == "ite" and isinstance(op, ast.Add) and any(x.op == "ref" for x in tm.leaves(cur)):
            return self.split(cur, st, lambda x, s: self.aug1(x, op, v, s, fr))
        return self.aug1(cur, op, v, st, fr)

    def aug1(self, cur, op, v, st, fr):
        y = unopt(ty(cur))
        if isinstance(op, ast.Add) and (cur.op == "ref" and self.kinds[cur][0] == "list" or
                                        cur.op in ("attr", "sym", "get", "idx") and isinstance(y, tuple) and y[0] == "list"):
            # in place: whoever else holds the list sees it grow
            self.setcontent(cur, seqcat([self.content(cur, st), self.toseq(v, st, fr)]), st)
            return cur
        return self.binop(op, cur, v, st, fr)

    def s_If(self, s, st, fr):
        c = self.cond(s.test, st, fr)
        if st.pc is FALSE:
            return None
        if c is TRUE:
            return self.block(s.body, st, fr)
        if c is FALSE:
            return self.block(s.orelse, st, fr)
        return self.branch(c, st, lambda x: self.block(s.body, x, fr), lambda x: self.block(s.orelse, x, fr))

    def branch(self, c, st, f, g):
        a, b = st.copy(), st.copy()
        a.pc = band(st.pc, c)
        b.pc = band(st.pc, bnot(c))
        ra = f(a)
        rb = g(b)
        if ra is not None and ra.pc is FALSE:
            ra = None
        if rb is not None and rb.pc is FALSE:
            rb = None
        if ra is None:
            return rb
        if rb is None:
            return ra
        st.cells = self.merge_cells(c, ra.cells, rb.cells)
        st.pc = bor(ra.pc, rb.pc)
        return st

    def simp(self, c, st):
        """decide c under the path condition"""
        if c is TRUE or c is FALSE:
            return c
        k = band(st.ctx, st.pc)
        if band(k, c) is FALSE:
            return FALSE
        if band(k, bnot(c)) is FALSE:
            return TRUE
        ats = set()
        tm._natoms(c, ats)
        for a in ats:
            if a.op == "lt" and tm.group(a) in k.gr:
                # where equality is excluded, < and <= are the same
                e = raw("le", *a.a)
                if band(k, band(lit(e), bnot(lit(a)))) is FALSE:
                    c = ite(lit(e), tm.assume(c, a, True), tm.assume(c, a, False))
        return c

    def cond(self, node, st, fr):
        return self.simp(self.truthy(self.ev(node, st, fr), st, fr), st)

    def truthy(self, v, st, fr):
        if v.op == "ite":
            return ite(lit(v.a[0]), self.truthy(v.a[1], st, fr), self.truthy(v.a[2], st, fr))
        if v.op == "ref":
            k = self.kinds[v][0]
            if k in ("list", "dict", "set", "ddict"):
                return truth(self.content(v, st))
            if k == "dok":
                return truth(Freezer(self, st).freeze(v))
            if k == "array":
                return truth(self.content(v, st))
            return TRUE
        return truth(v)

    def s_With(self, s, st, fr):
        for it in s.items:
            v = self.ev(it.context_expr, st, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fr)
        return self.block(s.body, st, fr)

    def s_Try(self, s, st, fr):
        st0 = st.copy()
        n0 = len(fr.exits)
        end = self.block(s.body, st, fr)
        new = fr.exits[n0:]
        del fr.exits[n0:]
        ends = []
        if end is not None and s.orelse:
            end = self.block(s.orelse, end, fr)
        if end is not None:
            ends.append((end.pc, end))
        caught = []
        hnames = []
        for h in s.handlers:
            if h.type is None:
                hnames.append(None)
            else:
                ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                hnames.append([ast.unparse(x).split(".")[-1] for x in ts])
        for e in new:
            if e[0] == "raise":
                nm = e[2].a[1].a[0] if e[2].op == "app" else "Exception"
                hit = None
                for h, names in zip(s.handlers, hnames):
                    if names is None or nm in names or "Exception" in names or "BaseException" in names:
                        hit = h
                        break
                if hit is not None:
                    caught.append((hit, e))
                    continue
            fr.exits.append(e)
        implicit = _may_raise(s.body) and s.handlers
        pcs = []
        res = ends
        for h, e in caught:
            sx = e[3].copy()
            sx.pc = e[1]
            if h.name:
                sx.cells[("v", fr.fid, h.name)] = e[2]
            r = self.block(h.body, sx, fr)
            if r is not None:
                res.append((r.pc, r))
        if implicit:
            for h, names in zip(s.handlers, hnames):
                g = lit(raw("b", raw("app", "raises", C(",".join(names or ["*"])), C(len(self.stack) and 0))))
                sx = st0.copy()
                sx.pc = band(st0.pc, g)
                if h.name:
                    sx.cells[("v", fr.fid, h.name)] = raw("app", "exc", C("Exception"))
                n1 = len(fr.exits)
                r = self.block(h.body, sx, fr)
                # normal continuation happens under not g
                res = [(band(p, bnot(g)), q) for p, q in res]
                for j in range(n0, n1):
                    k, p, v, q = fr.exits[j]
                    fr.exits[j] = (k, band(p, bnot(g)), v, q)
                if r is not None:
                    res.append((r.pc, r))
        out = self.merge_states(res)
        if s.finalbody:
            out = self.block(s.finalbody, out, fr) if out is not None else None
        return out

    def merge_states(self, lst):
        lst = [(p, s) for p, s in lst if p is not FALSE]
        if not lst:
            return None
        acc, s = lst[-1]
        cells = s.cells
        for p, x in reversed(lst[:-1]):
            acc = bor(acc, p)
            cells = self.merge_cells(restrict(p, acc), x.cells, cells)
        r = State(dict(cells), acc, s.ctx)
        return r

    # ------------------------------------------------------------ loops
    def s_Break(self, s, st, fr):
        fr.exits.append(("break", st.pc, NONE, st))
        return None

    def s_Continue(self, s, st, fr):
        fr.exits.append(("cont", st.pc, NONE, st))
        return None

    def s_For(self, s, st, fr):
        itv = self.ev(s.iter, st, fr)
        seq = self.toseq(itv, st, fr)

        def body(x, elem):
            self.assign(s.target, elem, x, fr)
            return self.block(s.body, x, fr)

        n0 = len(fr.exits)
        st = self.loop_segs(seq, st, fr, body, s)
        brk = [e for e in fr.exits[n0:] if e[0] == "break"]
        fr.exits[n0:] = [e for e in fr.exits[n0:] if e[0] != "break"]
        if s.orelse and st is not None:
            st = self.block(s.orelse, st, fr)
        if brk:
            lst = [(e[1], e[3]) for e in brk]
            if st is not None:
                lst.append((st.pc, st))
            st = self.merge_states(lst)
        return st

    def loop_segs(self, seq, st, fr, body, node):
        """execute body for every element of seq"""
        if seq.op == "ite":
            c = lit(seq.a[0])
            return self.branch(c, st, lambda x: self.loop_segs(seq.a[1], x, fr, body, node),
                               lambda x: self.loop_segs(seq.a[2], x, fr, body, node))
        if seq.op != "seq":
            seq = spl(seq)
        for s in seq.a:
            if st is None or st.pc is FALSE:
                return None
            if s.op == "one":
                x = s.a[0]
                p = tm.pres(x)
                e = tm.strip_absent(x)
                p = self.simp(p, st)
                if p is FALSE:
                    continue
                if p is TRUE:
                    st = self.one_iter(st, fr, body, e)
                else:
                    st = self.branch(p, st, lambda z: self.one_iter(z, fr, body, e), lambda z: z)
            elif s.op == "each":
                n = s.a[0]
                st = self.loop_n(n, st, fr, lambda v, z: self.loop_inner(s, v, z, fr, body, node), node)
            elif s.op == "spl":
                t = s.a[0]
                n = length(t)
                if t.op == "range":
                    st = self.loop_n(n, st, fr, lambda v, z: self.one_iter(z, fr, body, v), node)
                else:
                    st = self.loop_n(n, st, fr, lambda v, z: self.one_iter(z, fr, body, idx(t, v)), node)
            else:
                self.opq("loop-seg")
        return st

    def loop_inner(self, s, v, z, fr, body, node):
        b = tm.openb(s, v)[0]
        return self.loop_segs(b, z, fr, body, node)

    def one_iter(self, st, fr, body, elem):
        n0 = len(fr.exits)
        r = body(st, elem)
        conts = [e for e in fr.exits[n0:] if e[0] == "cont"]
        if conts:
            fr.exits[n0:] = [e for e in fr.exits[n0:] if e[0] != "cont"]
            lst = [(e[1], e[3]) for e in conts]
            if r is not None:
                lst.append((r.pc, r))
            r = self.merge_states(lst)
        return r

    def loop_n(self, n, st, fr, body, node):
        """for v in range(n): st = body(v, st); summarised"""
        self.loops += 1
        if n is ZERO:
            return st
        if n.op == "ite":
            return self.branch(lit(n.a[0]), st, lambda x: self.loop_n(n.a[1], x, fr, body, node),
                               lambda x: self.loop_n(n.a[2], x, fr, body, node))
        if isnum(n) and n.a[0] <= 4:
            for i in range(int(n.a[0])):
                if st is None or st.pc is FALSE:
                    return st
                st = body(C(i), st)
            return st
        v = fresh(n)
        phis = {}
        base = dict(st.cells)
        names = _assigned(node)
        for nm in names:
            k = ("v", fr.fid, nm)
            if k in base and base[k].op != "ref":
                phis[k] = self.mkphi(base[k])
        for rnd in range(8):
            mark = self.nref
            fmark = self.nfid
            z = State(dict(base), TRUE, band(st.ctx, st.pc))
            z.ctx = band(z.ctx, cmp("<", ZERO, n))
            for k, p in phis.items():
                z.cells[k] = p
            n0 = len(fr.exits)
            self._raised.append([])
            try:
                end = body(v, z)
            finally:
                rs = self._raised.pop()
            stops = fr.exits[n0:]
            del fr.exits[n0:]
            for pc, val, sx, pc0 in rs:
                stops.append(("raise", band(pc0, pc), val, sx))
            new = False
            for s2 in ([end] if end is not None else []) + [e[3] for e in stops if e[0] != "raise"]:
                for k, c in s2.cells.items():
                    if k in phis:
                        continue
                    if k in base:
                        if c is not base[k]:
                            phis[k] = self.mkphi(base[k])
                            new = True
                    elif k[0] in ("f", "h", "ev") and (k[1].op != "ref" or k[1].a[0] <= mark) \
                            and v.a[0] not in k[1].fs:
                        d = self.default_cell(k) if k[1].op != "ref" else None
                        if d is not None and c is not d:
                            base[k] = d
                            phis[k] = self.mkphi(d)
                            new = True
            if not new:
                break
        stops = [e for e in stops if e[1] is not FALSE]
        return self.solve(n, v, st, fr, base, phis, end, stops, mark, fmark, node)

    def mkphi(self, init):
        p = fresh()
        if init.op == "ref":
            p._ty = "any"
        elif init.op == "seq":
            p._ty = ("list", "any")
        elif init.op == "map":
            p._ty = ("dict", "any", "any")
        else:
            y = ty(init)
            if y in ("int", "float", "num"):
                y = "num"
            if y == "none":
                y = "any"
            p._ty = y
        return p

    def solve(self, n, v, st, fr, base, phis, end, stops, mark, fmark, node):
        vid = v.a[0]
        # iteration-local objects that escape are frozen by value
        nexts = {}
        live = _loads_outside(fr.fn.node, node) if fr.fn is not None else None
        if end is not None:
            fz = Freezer(self, end, mark=mark, fmark=fmark)
            for k, p in phis.items():
                nexts[k] = self.wrapphi(fz.local(end.cells.get(k, p)), p, base[k])
            # writes to objects reached through the loop variable become quantified events
            evs = {}
            for k, c in end.cells.items():
                if k[0] in ("f", "h", "ev") and k[1].op != "ref" and vid in k[1].fs and c is not self.default_cell(k):
                    root = self.root(k[1])
                    evs.setdefault(root, []).append((k, fz.local(c)))
            for root, lst in evs.items():
                ek = ("ev", root)
                segs = []
                for k, c in lst:
                    if k[0] == "f":
                        segs.append(raw("one", raw("app", "setattr", k[1], C(k[2]), c)))
                    elif k[0] == "h":
                        segs.append(raw("one", raw("app", "setitems", k[1], c)))
                    else:
                        segs.append(c)
                if ek not in phis:
                    phis[ek] = self.mkphi(raw("seq"))
                    base[ek] = base.get(ek, raw("seq"))
                    nexts[ek] = raw("seq", raw("spl", phis[ek]))
                nexts[ek] = seqcat([nexts[ek]] + segs)
        # drop dead locals
        dead = set()
        for k in list(phis):
            if k[0] == "v" and k[1] == fr.fid and live is not None and k[2] not in live:
                # only needed if read before written in the loop: phi occurs somewhere
                if not any(phis[k].a[0] in x.fs for x in nexts.values()) and \
                        not any(phis[k].a[0] in e[1].fs or phis[k].a[0] in e[2].fs for e in stops):
                    dead.add(k)
        at = {}      # cell -> function(i) giving value at entry of iteration i
        fin = {}
        pend = {k: nx for k, nx in nexts.items() if k not in dead}
        for k in list(pend):
            if pend[k] is phis[k]:
                fin[k] = base[k]
                at[k] = (lambda b: (lambda i: b))(base[k])
                del pend[k]
        tups, tsub = self.untuple(phis, base, nexts, pend)
        pend = {k: subst(x, tsub) for k, x in pend.items()} if tsub else pend
        submap = dict(tsub)

        def apply(t):
            if not submap:
                return t
            return subst(t, submap)

        def remap():
            for k, ks in reversed(tups):
                submap[phis[k]] = raw("tuple", *[submap.get(phis[q], phis[q]) for q in ks])

        for k, f in at.items():
            submap[phis[k]] = f(v)
        progress = True
        while pend and progress:
            progress = False
            for k in list(pend):
                nx = apply(pend[k])
                others = {phis[q].a[0] for q in pend if q != k}
                if nx.fs & others:
                    pend[k] = nx
                    continue
                r = self.recur(k, phis[k], nx, base[k], n, v)
                if r is None:
                    pend[k] = nx
                    continue
                at[k] = r
                fin[k] = r(n)
                submap = dict(submap)
                submap[phis[k]] = r(v)
                submap = {p: (subst(x, {phis[k]: r(v)}) if phis[k].a[0] in x.fs else x) for p, x in submap.items()}
                del pend[k]
                progress = True
        if pend:
            # joint fold
            ks = list(pend)
            bodies = [apply(pend[k]) for k in ks]
            inits = [base[k] for k in ks]
            body = dict(zip(ks, bodies))
            init = {k: Freezer(self, st).shallow(base[k]) for k in ks}
            order = canon_order(ks, phis, init, body, (), self.copies)
            deps = {k: {q for q in ks if phis[q].a[0] in body[k].fs} for k in ks}
            made = {}

            def foldfor(k):
                need = closure({k}, deps)
                sub_ = tuple(q for q in order if q in need)
                if sub_ not in made:
                    s = fresh()
                    m = {phis[q]: raw("idx", s, C(j)) for j, q in enumerate(sub_)}
                    bt = subst(raw("tuple", *[body[q] for q in sub_]), m)
                    lam = tm.close("lam", n, v, tm.close("lam", ZERO, s, bt))
                    made[sub_] = (lam, raw("tuple", *[init[q] for q in sub_]))
                return sub_.index(k), made[sub_]

            for k in ks:
                q, (lam, it) = foldfor(k)

                def f(i, q=q, k=k, lam=lam, it=it):
                    r = raw("idx", raw("app", "fold", i, it, lam), C(q))
                    r._ty = phis[k]._ty
                    return r
                at[k] = f
                fin[k] = f(n)
                submap = dict(submap)
                submap[phis[k]] = f(v)
            submap = {p: subst(x, {q: y for q, y in submap.items() if q is not p}) if any(
                q.a[0] in x.fs for q in submap if q is not p) else x for p, x in submap.items()}
        if tups:
            remap()
            for k, ks in reversed(tups):
                fin[k] = raw("tuple", *[fin.pop(q) for q in ks])
                for q in ks:
                    phis.pop(q)
        # state after the loop
        cells = dict(st.cells)
        for k, x in fin.items():
            cells[k] = x
        for k in dead:
            if end is not None:
                x = nexts[k]
                x = apply(x)
                if not any(p.a[0] in x.fs for p in phis.values()):
                    cells[k] = ite(cmp("<", ZERO, n), subst(x, {v: sub(n, ONE)}), base[k])
                else:
                    cells.pop(k, None)
        if end is not None:
            # loop locals first assigned in the loop keep the value of the last iteration
            fz = Freezer(self, end, mark=mark, fmark=fmark)
            for k, c in end.cells.items():
                if k[0] == "v" and k[1] == fr.fid and k not in base and (live is None or k[2] in live):
                    x = apply(fz.local(c))
                    if not any(p.a[0] in x.fs for p in phis.values()):
                        cells[k] = subst(x, {v: sub(n, ONE)})
                elif k[0] == "v" and k[1] != fr.fid and k not in base and k[1] > fmark:
                    pass
        for k in list(cells):
            if k[0] in ("f", "h") and k[1].op != "ref" and vid in k[1].fs:
                del cells[k]
        new = State(cells, st.pc, st.ctx)
        if stops:
            gs = []
            for kind, pc, val, sx in stops:
                g = apply(pc)
                gs.append(g)
            hard = [j for j, e in enumerate(stops)]
            onlyraise = all(e[0] == "raise" for e in stops)
            B = bor(*gs)
            ex = exists(n, v, B)
            if onlyraise:
                if len({e[2] for e in stops}) == 1:
                    fr.exits.append(("raise", band(st.pc, ex), stops[0][2], st.copy()))
                else:
                    fi = tm.first(n, v, B)
                    for j, (kind, pc, val, sx) in enumerate(stops):
                        p = band(ex, subst(gs[j], {v: fi})) if len(stops) > 1 else ex
                        fr.exits.append(("raise", band(st.pc, p), val, st.copy()))
            else:
                fi = tm.first(n, v, B)
                for j, (kind, pc, val, sx) in enumerate(stops):
                    p = band(ex, subst(gs[j], {v: fi})) if len(stops) > 1 else ex
                    if kind == "raise":
                        fr.exits.append(("raise", band(st.pc, p), val, st.copy()))
                        continue
                    fz = Freezer(self, sx, mark=mark, fmark=fmark)
                    bc = dict(st.cells)
                    for k in phis:
                        if k in sx.cells:
                            bc[k] = subst(apply(fz.local(sx.cells[k])), {v: fi})
                    for k, c in sx.cells.items():
                        if k[0] == "v" and k[1] == fr.fid and k not in base:
                            x = apply(fz.local(c))
                            bc[k] = subst(x, {v: fi})
                    vv = subst(apply(fz.local(val)), {v: fi})
                    fr.exits.append((kind, band(st.pc, p), vv, State(bc, band(st.pc, p), st.ctx)))
            new.pc = band(st.pc, bnot(ex))
            if end is None and not _could_complete(B):
                pass
        elif end is None:
            return None if n is not ZERO else st
        if new.pc is FALSE:
            return None
        return new

    def untuple(self, phis, base, nexts, pend, states=()):
        """a loop variable that always holds an n-tuple is n loop variables"""
        done, sub_ = [], {}
        todo = list(pend)
        while todo:
            k = todo.pop(0)
            b = base[k]
            if b.op != "tuple" or not b.a or phis[k] is None:
                continue
            ks = [("t", k, j) for j in range(len(b.a))]
            ps = [self.mkphi(x) for x in b.a]
            m = {phis[k]: raw("tuple", *ps)}
            nx = subst(pend[k], m)
            if any(x.op != "tuple" or len(x.a) != len(ps) for x in tm.leaves(nx)):
                continue
            if any(x.op != "tuple" or len(x.a) != len(ps) for z in states for x in tm.leaves(subst(z.cells.get(k, nx), m))
                   if k in z.cells):
                continue
            del pend[k]
            for j, q in enumerate(ks):
                phis[q], base[q] = ps[j], b.a[j]
                pend[q] = tm.mapleaves(nx, lambda x: x.a[j])
            for q in pend:
                pend[q] = subst(pend[q], m)
            for q in sub_:
                sub_[q] = subst(sub_[q], m)
            sub_.update(m)
            done.append((k, ks))
            todo += ks
        return done, sub_

    def wrapphi(self, nx, p, init):
        """[c ? phi ++ x : phi] -> phi ++ [c ? x : absent]"""
        y = ty(p)
        if nx.op != "ite" or not isinstance(y, tuple) or y[0] not in ("list", "dict"):
            return nx
        w = raw("seq", raw("spl", p)) if y[0] == "list" else raw("map", raw("splm", p))
        return tm.mapleaves(nx, lambda x: w if x is p else x)

    def recur(self, key, phi, nx, init, n, v):
        """closed form of a one-cell recurrence; returns i -> value at entry of iteration i"""
        pid = phi.a[0]
        if pid not in nx.fs:
            def f(i):
                if i is v or i.op in ("v", "B"):
                    return ite(cmp("<", ZERO, i), subst(nx, {v: sub(i, ONE)}), init)
                return ite(cmp("<", ZERO, i), subst(nx, {v: sub(i, ONE)}), init)
            return f
        if nx.op == "seq" and nx.a and nx.a[0] is raw("spl", phi):
            rest = raw("seq", *nx.a[1:])
            if pid not in rest.fs:
                def f(i):
                    w = fresh(i)
                    return seqcat([init if init.op == "seq" else raw("spl", init), each(i, w, subst(rest, {v: w}))])
                return f
        if nx.op == "map" and nx.a and nx.a[0] is raw("splm", phi):
            rest = raw("map", *nx.a[1:])
            if pid not in rest.fs:
                def f(i):
                    w = fresh(i)
                    return mapcat([init if init.op == "map" else raw("splm", init), eachm(i, w, subst(rest, {v: w}))])
                return f
        if nx.op == "cat" and nx.a[0] is phi:
            pass
        y = ty(phi)
        lf = tm.leaves(nx)
        # guarded overwrite
        if any(x is phi for x in lf) and all(x is phi or pid not in x.fs for x in lf) and not _guards_have(nx, pid):
            g = tm.mapleaves(nx, lambda x: FALSE if x is phi else TRUE)
            vals = [x for x in lf if x is not phi]
            if len(vals) == 1 and v.a[0] not in vals[0].fs:
                def f(i):
                    w = fresh(i)
                    return ite(exists(i, w, subst(g, {v: w})), vals[0], init)
                return f
            val = tm.mapleaves(nx, lambda x: ABSENT if x is phi else x)
            val = tm.strip_absent(val)

            def f(i):
                w = fresh(i)
                gg = subst(g, {v: w})
                return ite(exists(i, w, gg), subst(val, {v: tm.last(i, w, gg)}), init)
            return f
        # monotone flags: phi and g / phi or g
        if all(x in (TRUE, FALSE, phi) for x in lf) or tm.is_boolean(nx) or y == "bool":
            try:
                b = truth(nx)
                pa = truth(phi)
                if pa.op == "ite":
                    hi = tm.assume(b, pa.a[0], True)
                    lo = tm.assume(b, pa.a[0], False)
                    if pid not in hi.fs and pid not in lo.fs:
                        if lo is FALSE:      # phi and hi
                            def f(i):
                                w = fresh(i)
                                return ite(exists(i, w, subst(bnot(hi), {v: w})), FALSE, init)
                            return f
                        if hi is TRUE:
                            def f(i):
                                w = fresh(i)
                                return ite(exists(i, w, subst(lo, {v: w})), TRUE, init)
                            return f
            except RecursionError:
                pass
        if y in ("int", "float", "num", "bool", "any", "nn") or isinstance(y, tuple) and y[0] in ("array",):
            d = sub(nx, phi)
            if pid not in d.fs:
                def f(i):
                    w = fresh(i)
                    return add(init, tm.tsum(i, w, subst(d, {v: w})))
                return f
        return None

    def s_While(self, s, st, fr):
        self.loops += 1
        base = dict(st.cells)
        phis = {}
        for nm in _assigned(s):
            k = ("v", fr.fid, nm)
            if k in base and base[k].op != "ref":
                phis[k] = self.mkphi(base[k])
        for rnd in range(8):
            mark, fmark = self.nref, self.nfid
            z = State(dict(base), TRUE, band(st.ctx, st.pc))
            for k, p in phis.items():
                z.cells[k] = p
            n0 = len(fr.exits)
            c = self.cond(s.test, z, fr)
            z.pc = band(z.pc, c)
            end = self.block(s.body, z, fr)
            ex = fr.exits[n0:]
            del fr.exits[n0:]
            conts = [e for e in ex if e[0] == "cont"]
            stops = [e for e in ex if e[0] != "cont"]
            if conts:
                lst = [(e[1], e[3]) for e in conts]
                if end is not None:
                    lst.append((end.pc, end))
                end = self.merge_states(lst)
            new = False
            for s2 in ([end] if end is not None else []) + [e[3] for e in stops if e[0] != "raise"]:
                for k, x in s2.cells.items():
                    if k in base and k not in phis and x is not base[k]:
                        phis[k] = self.mkphi(base[k])
                        new = True
            if not new:
                break
        nexts = {}
        if end is not None:
            fz = Freezer(self, end, mark=mark, fmark=fmark)
            nexts = {k: fz.local(end.cells.get(k, p)) for k, p in phis.items()}
        # counter loop  while k < bound: ...; k += 1
        if not stops and end is not None:
            r = self.counter(s, st, fr, phis, nexts, c, base)
            if r is not None:
                return r
        # general: while fold
        pend = {k: x for k, x in nexts.items() if k in base}
        tups, tsub = self.untuple(phis, base, nexts, pend, [e[3] for e in stops if e[0] != "raise"])
        if tsub:
            nexts.update({k: subst(x, tsub) for k, x in nexts.items()})
            nexts.update(pend)
            c = subst(c, tsub)
        ks = [k for k in phis if phis[k] not in tsub and (nexts.get(k) is not phis[k] or phis[k].a[0] in c.fs)]
        ks = [k for k in ks if k in base]
        # drop cells nobody reads (temporaries)
        used = set(c.fs)
        for k in ks:
            used |= nexts.get(k, NONE).fs
        for e in stops:
            used |= e[1].fs | e[2].fs
            for x in e[3].cells.values():
                pass
        init = {k: Freezer(self, st).shallow(base[k]) for k in ks}
        m0 = {phis[k]: base[k] for k in phis if k not in ks and phis[k] not in tsub}
        m0.update({p: subst(x, m0) for p, x in tsub.items()})
        c = subst(c, m0)
        nxt = {k: subst(nexts.get(k, UNDEF), m0) for k in ks}
        sp = []

        def part(fz, sx, k):
            if k[0] == "t":
                return tm.mapleaves(part(fz, sx, k[1]), lambda x: x.a[k[2]])
            return subst(fz.local(sx.cells.get(k, phis[k])), m0)

        for kind, pc, val, sx in stops:
            fz = Freezer(self, sx, mark=mark, fmark=fmark)
            sp.append((kind, subst(pc, m0), NONE if kind != "ret" else subst(fz.local(val), m0),
                       {k: NONE if kind == "raise" else part(fz, sx, k) for k in ks}))
        body = {k: raw("tuple", nxt[k], *[x[3][k] for x in sp]) for k in ks}
        order = canon_order(ks, phis, init, body, [c] + [x[1] for x in sp], self.copies)
        deps = {k: {q for q in ks if phis[q].a[0] in body[k].fs} for k in ks}
        ctl = set(c.fs)
        for x in sp:
            ctl |= x[1].fs
        ctl = {q for q in ks if phis[q].a[0] in ctl}
        made = {}

        def whilefor(want):
            """the loop restricted to the cells that the wanted ones depend on"""
            need = closure(ctl | set(want), deps)
            sub_ = tuple(q for q in order if q in need)
            if sub_ not in made:
                s_ = fresh()
                m = {phis[k]: raw("idx", s_, C(q)) for q, k in enumerate(sub_)}
                parts = [subst(c, m), raw("tuple", *[subst(nxt[k], m) for k in sub_])]
                for kind, pc, val, cs in sp:
                    vv = NONE if kind == "raise" else raw("tuple", *[cs[k] for k in sub_])
                    parts.append(raw("tuple", C(kind), subst(pc, m), subst(vv, m)))
                lam = tm.close("lam", ZERO, s_, *parts)
                made[sub_] = raw("app", "while", raw("tuple", *[init[k] for k in sub_]), lam)
            return sub_, made[sub_]

        cells = dict(st.cells)
        for k in ks:
            sub_, w = whilefor({k})
            x = raw("idx", w, C(sub_.index(k)))
            x._ty = phis[k]._ty
            cells[k] = x
        for k, qs in reversed(tups):
            cells[k] = raw("tuple", *[cells.pop(q, base[q]) for q in qs])
        wctl = whilefor(())[1]
        new = State(cells, st.pc, st.ctx)
        alive = TRUE
        for j, (kind, pc, val, sx) in enumerate(stops):
            g = lit(raw("b", raw("app", "whilestop", wctl, C(j))))
            if kind == "raise":
                fr.exits.append(("raise", band(st.pc, g), val, st.copy()))
                alive = band(alive, bnot(g))
            elif kind == "ret":
                rv = sp[j][2]
                ns = [q for q in ks if phis[q].a[0] in rv.fs]
                sub_, w = whilefor(ns)
                s_ = fresh()
                lam = tm.close("lam", ZERO, s_, subst(rv, {phis[k]: raw("idx", s_, C(q)) for q, k in enumerate(sub_)}))
                fr.exits.append(("ret", band(st.pc, g), raw("app", "whileret", w, C(j), lam), new.copy()))
                alive = band(alive, bnot(g))
            else:
                # break: locals first defined in the loop
                fz = Freezer(self, sx, mark=mark, fmark=fmark)
                for k, x in sx.cells.items():
                    if k[0] == "v" and k[1] == fr.fid and k not in base:
                        y = subst(fz.local(x), {phis[q]: cells.get(q, base[q]) for q in phis})
                        cells[k] = y
        new.pc = band(st.pc, alive)
        new.cells = cells
        return new

    def counter(self, s, st, fr, phis, nexts, c, base):
        if c.op != "ite":
            return None
        lits_ = tm.literals(c, True)
        if len(lits_) != 1 or tm.ite(lit(lits_[0][0]), TRUE if lits_[0][1] else FALSE, FALSE if lits_[0][1] else TRUE) is not c:
            return None
        atom, pos = lits_[0]
        if atom.op not in ("le", "lt"):
            return None
        q = atom.a[0]
        cnt = [k for k, p in phis.items() if p.a[0] in q.fs]
        if len(cnt) != 1:
            return None
        k = cnt[0]
        phi = phis[k]
        d = sub(nexts[k], phi)
        if not (isnum(d) and abs(d.a[0]) == 1):
            return None
        pd = tm._pd(q)
        mv = ((phi, Fr(1)),)
        if mv not in pd or any(m != mv and any(phi.a[0] in x.fs for x, _ in m) for m in pd):
            return None
        co = pd[mv]
        rest = tm._mk({m: x for m, x in pd.items() if m != mv})
        # condition: co*k + rest (<|<=) bound, or its negation
        bound = C(atom.a[1])
        # express as sgn*(k) < lim
        init = base[k]
        p = sub(add(mul(C(co), phi), rest), bound)
        if not pos:
            p = neg(p)
            strict = atom.op == "le"
        else:
            strict = atom.op == "lt"
        # p < 0 (strict) or p <= 0; p = a*k + r ; step d
        a = co if pos else -co
        r = sub(p, mul(C(a), phi))
        if a * d.a[0] != 1:
            return None
        # k = init + d*i ; p = a*init + i + r  ->  i < -(a*init+r)  (strict) ; i < 1-(...)
        n = neg(add(mul(C(a), init), r))
        if not strict:
            n = add(n, ONE)

        def body(v, z):
            z.cells[k] = add(init, mul(d, v))
            return self.block(s.body, z, fr)
        st2 = self.loop_n(n, st, fr, lambda v, z: self.one_iter(z, fr, lambda x, e: body(v, x), v), s)
        if st2 is not None:
            st2.cells[k] = add(init, mul(d, n))
        return st2

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            f = fr
            if t.id in fr.nonlocals:
                f = fr.parent
                while f is not None and ("v", f.fid, t.id) not in st.cells:
                    f = f.parent
                f = f or fr
            st.cells[("v", f.fid, t.id)] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, fr)
            self.setattr(o, t.attr, v, st, fr)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, fr)
            k = self.ev(t.slice, st, fr)
            self.setitem(o, k, v, st, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)
        else:
            self.opq("assign")

    def unpack(self, elts, v, st, fr):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        c = self.content(v, st)
        if star:
            i = star[0]
            after = len(elts) - i - 1
            for j in range(i):
                self.assign(elts[j], self.elem(c, C(j)), st, fr)
            self.assign(elts[i].value, self.P.slice_seq(c, raw("slice", C(i), C(-after) if after else NONE, NONE)), st, fr)
            for j in range(after):
                self.assign(elts[i + 1 + j], self.elem(c, C(j - after)), st, fr)
            return
        for j, e in enumerate(elts):
            self.assign(e, self.elem(c, C(j)), st, fr)

    def elem(self, c, k):
        return idx(c, k)

    # ------------------------------------------------------------ heap access
    def content(self, o, st):
        """container contents (arrays normalised); other values unchanged"""
        if o.op == "ite":
            return tm.mapleaves(o, lambda x: self.content(x, st))
        c = st.cells.get(("h", o))
        if c is not None:
            return c
        return o

    def setcontent(self, o, c, st):
        if o.op == "ite":
            g = lit(o.a[0])
            for br, gg in ((o.a[1], g), (o.a[2], bnot(g))):
                for leaf in tm.leaves(br):
                    pass
            # gated target: write both under their guards
            def wr(x, guard):
                if x.op == "ite":
                    wr(x.a[1], band(guard, lit(x.a[0])))
                    wr(x.a[2], band(guard, bnot(lit(x.a[0]))))
                    return
                old = st.cells.get(("h", x), x)
                nc = tm.assume_c(c, guard, True)
                st.cells[("h", x)] = ite(guard, nc, old)
            wr(o, TRUE)
            return
        st.cells[("h", o)] = c

    def kind(self, o):
        if o.op == "ref":
            return self.kinds[o][0]
        return None

    def isdict(self, o, c):
        k = self.kind(o)
        if k in ("dict", "ddict"):
            return True
        if k in ("list", "set", "inst", "ext"):
            return False
        if k in ("array", "dok"):
            return True
        if c.op == "map":
            return True
        y = unopt(ty(o))
        if isinstance(y, tuple):
            if y[0] == "dict":
                return True
            if y[0] == "list":
                return False
        return None

    def getitem(self, o, k, st, fr):
        if o.op == "ite":
            return self.split(o, st, lambda x, s: self.getitem(x, k, s, fr))
        if k.op == "slice":
            return self.P.do_slice(self, self.content(o, st), k, st)
        kind = self.kind(o)
        if kind == "inst":
            return self.callmeth(o, "__getitem__", [k], {}, st, fr)
        y = unopt(ty(o))
        if o.op in ("obj", "attr", "idx", "sym", "get") and isinstance(y, tuple) and y[0] == "obj":
            cls = self.w.cls(y[1])
            if cls is not None and self.w.find(cls, "methods", "__getitem__")[0]:
                return self.callmeth(o, "__getitem__", [k], {}, st, fr)
        if o.op == "class":
            cls = self.classes[o]
            if self.w.is_enum(cls):
                if k.op == "c":
                    return tm.enumc(cls.full, k.a[0])
                return tm.app("enumget", o, k)
        if kind == "ext":
            return tm.app(".__getitem__", o, k)
        c = self.content(o, st)
        if kind == "array":
            r = tm.lookup(c, k) if c.op == "map" else None
            if r is not None:
                return tm.strip_absent(r)
            if c.op == "map":
                return self.P.arr_get(self, o, c, k, st)
            return self.P.arr_index(c, k)
        if kind in ("dict",) or (c.op == "map"):
            return get(c, k)
        if kind == "ddict":
            d = self.kinds[o][1]
            if d == "float" or d == "int":
                return get(c, k, ZERO)
            if d == "list":
                r = tm.lookup(c, k)
                if r is not None and not tm._has_absent(r):
                    return r
                return get(c, k, raw("seq"))
            return get(c, k)
        if c.op in ("seq", "tuple", "range"):
            return idx(c, k)
        if isinstance(y, tuple) and y[0] == "dict":
            return get(c, k)
        if y == "any" and self.simp(tm.isinst(c, "dict"), st) is TRUE:
            return get(c, k)
        return self.P.arr_index(c, k)

    def setitem(self, o, k, v, st, fr, aug=False):
        if o.op == "ite":
            c0 = lit(o.a[0])
            r = self.branch(c0, st, lambda s: self._si(o.a[1], k, v, s, fr, aug), lambda s: self._si(o.a[2], k, v, s, fr, aug))
            return
        self._si(o, k, v, st, fr, aug)

    def _si(self, o, k, v, st, fr, aug=False):
        if o.op == "ite":
            self.setitem(o, k, v, st, fr, aug)
            return st
        kind = self.kind(o)
        if kind == "inst" or (o.op != "ref" and self.objcls(o) is not None and self.w.find(self.objcls(o), "methods", "__setitem__")[0]):
            self.callmeth(o, "__setitem__", [k, v], {}, st, fr)
            return st
        if kind == "ext":
            self.event(o, "__setitem__", [k, v], st)
            return st
        c = self.content(o, st)
        isd = self.isdict(o, c)
        y = unopt(ty(o))
        if isd is None and (isinstance(y, tuple) and y[0] == "array" or y == "any"):
            isd = True
        if isd:
            base = tm.asmap(c)
            if k.op == "slice":
                self.setcontent(o, tm.app("setslice", c, k, v), st)
                return st
            vv = v
            if vv.op == "ref":
                seg = raw("set", k, vv)
            else:
                cur = get(c, k, ZERO) if kind != "array" else self.getitem(o, k, st, fr)
                seg = None
                empty = c.op == "map" and not c.a
                care = band(st.ctx, st.pc)
                if self._mentions(vv, c, k) or aug and not empty:
                    w = tm.assume_c(sub(vv, cur), care, True)
                    if not self._mentions(w, c, k):
                        seg = raw("acc", k, w)
                if seg is None and kind == "array" and not empty:
                    # the old value, as far as it is known here, is a summand of the new one
                    cc, vc = tm.assume_c(cur, care, True), tm.assume_c(vv, care, True)
                    old = _summands(cc)
                    if old <= _summands(vc):
                        w = sub(vc, cc)
                        if not old & _summands(w):
                            seg = raw("acc", k, w)
                if seg is None:
                    seg = raw("set", k, vv)
            self.setcontent(o, mapcat([base, seg]), st)
        else:
            if c.op == "seq" and isnum(k) and all(s.op == "one" and not tm._has_absent(s.a[0]) for s in c.a):
                i = int(k.a[0])
                xs = [s.a[0] for s in c.a]
                if -len(xs) <= i < len(xs):
                    xs[i] = v
                    self.setcontent(o, mkseq(xs), st)
                    return st
            if c.op == "seq" and len(c.a) == 1 or c.op not in ("seq",):
                n = length(c)
                w = fresh(n)
                self.setcontent(o, each(n, w, mkseq([ite(cmp("==", w, k), v, idx(c, w))])), st)
                return st
            self.setcontent(o, tm.app("setidx", c, k, v), st)
        return st

    def _mentions(self, v, c, k):
        """v reads the current value of key k of content c"""
        if c.op == "map" and not c.a:
            return False
        probe = []
        if c.op == "map":
            for s in c.a:
                if s.op == "splm":
                    probe.append(s.a[0])
            r = tm.lookup(c, k)
            if r is not None:
                for lf in tm.leaves(r):
                    if lf.op not in ("c", "absent"):
                        if _occurs(v, lf):
                            return True
        else:
            probe.append(c)
        for p in probe:
            if p.op == "v":
                if p.a[0] in v.fs:
                    return True
            elif _occurs(v, raw("get", p, k)):
                return True
        if _occurs(v, raw("get", c, k)):
            return True
        return False

    def objcls(self, o):
        if o.op == "ref":
            k = self.kinds[o]
            return self.w.cls(k[1]) if k[0] == "inst" else None
        y = unopt(ty(o))
        if isinstance(y, tuple) and y[0] == "obj":
            return self.w.cls(y[1])
        return None

    def split(self, o, st, f):
        """apply a stateful operation to each leaf of a gated value"""
        g = lit(o.a[0])
        g2 = self.simp(g, st)
        if g2 is TRUE:
            return self._sp(o.a[1], st, f)
        if g2 is FALSE:
            return self._sp(o.a[2], st, f)
        box = {}

        def go(x, key):
            def h(s):
                box[key] = self._sp(x, s, f)
                return s
            return h
        r = self.branch(g, st, go(o.a[1], 1), go(o.a[2], 0))
        if r is None:
            st.pc = FALSE
            return UNDEF
        if r is not st:
            st.cells, st.pc = r.cells, r.pc
        a, b = box.get(1, UNDEF), box.get(0, UNDEF)
        return self.vite(g, a, b)

    def _sp(self, x, st, f):
        if x.op == "ite":
            return self.split(x, st, f)
        return f(x, st)

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name, st, fr):
        if o.op == "ite":
            return self.split(o, st, lambda x, s: self.getattr(x, name, s, fr))
        if o is UNDEF or o is ABSENT:
            return UNDEF
        if o.op == "mod":
            m = self.w.mod(o.a[0])
            e = self.w.resolve(m, name)
            if e is None:
                s = self.w.mod(o.a[0] + "." + name)
                return self.ent(("mod", s)) if s else raw("ext", o.a[0] + "." + name)
            return self.ent(e)
        if o.op == "ext":
            return self.P.ext_attr(self, o, name)
        if o.op == "class":
            return self.class_attr(o, name, st, fr)
        if o.op == "super":
            return self.super_attr(o, name, st, fr)
        if o.op == "enum":
            cls = o.a[0]
            if name == "value":
                for m, v in tm.ENUMS.get(cls, ()):
                    if m == o.a[1]:
                        return v
            if name == "name":
                return C(o.a[1])
            c = self.w.cls(cls)
            if c is not None:
                if name in c.attrs:
                    return tm.enumc(cls, name)
                f, _ = self.w.find(c, "methods", name)
                if f is not None:
                    return raw("bound", self.func_term(f), o)
            return raw("attr", o, name)
        y = unopt(ty(o))
        if isinstance(y, tuple) and y[0] == "enum" and o.op != "ref":
            mem = tm.ENUMS.get(y[1], [])
            if name in ("value", "name") and mem:
                r = None
                for m, v in reversed(mem):
                    x = v if name == "value" else C(m)
                    r = x if r is None else ite(tm.eqc(o, tm.enumc(y[1], m)), x, r)
                return r
            if any(m == name for m, _ in mem):
                return tm.enumc(y[1], name)
        # field override
        cls = self.objcls(o)
        key = name
        if cls is not None:
            if o.op != "ref":
                key = cls.alias.get(name, name)
        c = st.cells.get(("f", o, key))
        if c is not None:
            return c
        if cls is not None:
            f, owner = self.w.find(cls, "props", name)
            if f is not None:
                if o.op != "ref" and name in cls.alias.values():
                    # plain getter of a symbolic object
                    return attr(o, name)
                return self.inline(f, {f.node.args.args[0].arg: o}, st, cls=owner, selfT=o)
            if o.op == "obj" and key in o.a[1]:
                return attr(o, key)
            f, owner = self.w.find(cls, "methods", name)
            if f is not None:
                if f.static:
                    return self.func_term(f)
                if f.classm:
                    return raw("bound", self.func_term(f), self.class_term(cls))
                return raw("bound", self.func_term(f), o)
            for c2 in self.w.mro(cls):
                if name in c2.attrs and not c2.dataclass:
                    if (cls.full, name) in tm.FIELD_TY and o.op != "ref":
                        break
                    return self.class_attr(self.class_term(c2), name, st, fr)
            if name == "__class__":
                return self.class_term(cls)
            if o.op == "ref":
                if self.w.extbases(cls) and not set(self.w.extbases(cls)) <= {"ABC", "abc.ABC", "object"}:
                    return raw("attr", o, name)
                return raw("attr", o, name)
            return attr(o, key)
        if o.op == "ref":
            if self.kinds[o][0] == "ext":
                return raw("attr", o, name)
            if self.kinds[o][0] == "array":
                return self.P.arr_attr(self, o, name, st)
            if self.kinds[o][0] == "dok":
                t = Freezer(self, st).freeze(o)
                if name == "shape":
                    d = self.P.dok_shape(self, t, st)
                    c = st.cells.get(("f", o, "#shape"), UNDEF)
                    return tm.mapleaves(c, lambda x: d if x is UNDEF else x)
                return attr(t, name)
        if name == "shape":
            return self.P.shape_of(self, self.content(o, st), st)
        if name == "size" and (isinstance(y, tuple) and y[0] == "array" or o.op == "seq"):
            return length(self.content(o, st))
        if name == "T":
            return self.P.transpose(self.content(o, st))
        if name == "real" and y in ("num", "float", "int"):
            return o
        return attr(o, name)

    def class_attr(self, o, name, st, fr):
        cls = self.classes[o]
        if self.w.is_enum(cls) and name in cls.attrs:
            return tm.enumc(cls.full, name)
        f, owner = self.w.find(cls, "methods", name)
        if f is not None:
            if f.classm:
                return raw("bound", self.func_term(f), o)
            return self.func_term(f)
        for c in self.w.mro(cls):
            if name in c.attrs:
                fr2 = self.newframe(None, c.mod, c)
                k = ("f", self.class_term(c), name)
                if k in st.cells:
                    return st.cells[k]
                # class attributes referring to names of the class body
                return self.ev(c.attrs[name], st, fr2)
        if name == "__name__":
            return C(cls.name)
        f, owner = self.w.find(cls, "props", name)
        if f is not None:
            return self.func_term(f)
        return raw("attr", o, name)

    def super_attr(self, o, name, st, fr):
        clsT, selfT = o.a
        cls = self.classes[clsT]
        scls = self.objcls(selfT) if selfT.op != "class" else self.classes[selfT]
        mro = self.w.mro(scls or cls)
        if cls in mro:
            mro = mro[mro.index(cls) + 1:]
        for c in mro:
            if name in c.methods:
                return raw("bound", self.func_term(c.methods[name]), selfT)
            if name in c.props:
                f = c.props[name]
                return self.inline(f, {f.node.args.args[0].arg: selfT}, st, cls=c, selfT=selfT)
        return raw("ext", "builtins.object." + name)

    def setattr(self, o, name, v, st, fr):
        if o.op == "ite":
            self.split(o, st, lambda x, s: (self.setattr(x, name, v, s, fr), NONE)[1])
            return
        cls = self.objcls(o)
        if cls is not None:
            f, owner = self.w.find(cls, "setters", name)
            if f is not None:
                a = f.node.args.args
                self.inline(f, {a[0].arg: o, a[1].arg: v}, st, cls=owner, selfT=o)
                return
            if o.op != "ref":
                name = cls.alias.get(name, name)
        if o.op == "ext":
            self.event(o, "setattr:" + name, [v], st)
            return
        st.cells[("f", o, name)] = v

    def event(self, o, name, args, st):
        root = self.root(o)
        fz = Freezer(self, st)
        e = raw("app", "event:" + name, fz.freeze_path(o), *[fz.freeze(a) for a in args])
        k = ("ev", root)
        if root.op == "ref" and self.kinds[root][0] == "ext":
            k = ("h", root)
        cur = st.cells.get(k, raw("seq"))
        st.cells[k] = seqcat([cur, raw("one", e)])
        return e

    # ------------------------------------------------------------ names
    def name(self, n, st, fr):
        f = fr
        while f is not None:
            c = st.cells.get(("v", f.fid, n))
            if c is not None:
                return c
            f = f.parent
        if fr.cls is not None and fr.fn is None and n in fr.cls.attrs:
            return self.ev(fr.cls.attrs[n], st, fr)
        e = self.w.resolve(fr.mod, n)
        if e is not None:
            return self.ent(e)
        if n in BUILTINS:
            return raw("ext", "builtins." + n)
        return UNDEF if n in _localnames(fr.fn) else raw("ext", "?" + n)

    def ent(self, e):
        if e[0] == "func":
            return self.func_term(e[1])
        if e[0] == "class":
            return self.class_term(e[1])
        if e[0] == "mod":
            return raw("mod", e[1].name)
        if e[0] == "missing":
            self.missing.append(e[1])
        if e[0] in ("ext", "missing"):
            return raw("ext", e[1])
        if e[0] == "expr":
            key = id(e[2])
            if key not in self.modcache:
                self.modcache[key] = raw("ext", "?cycle")
                fr = self.newframe(None, e[1], None)
                s2 = State({})
                v = self.ev(e[2], s2, fr)
                if v.op == "ref":
                    v = Freezer(self, s2).freeze(v)
                self.modcache[key] = v
            return self.modcache[key]
        raise AssertionError(e)

    # ------------------------------------------------------------ expressions
    def ev(self, n, st, fr):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return self.opq("expr:" + type(n).__name__)
        return m(n, st, fr)

    def e_Constant(self, n, st, fr):
        return C(n.value)

    def e_Name(self, n, st, fr):
        return self.name(n.id, st, fr)

    def e_Attribute(self, n, st, fr):
        o = self.ev(n.value, st, fr)
        return self.getattr(o, n.attr, st, fr)

    def e_NamedExpr(self, n, st, fr):
        v = self.ev(n.value, st, fr)
        self.assign(n.target, v, st, fr)
        return v

    def e_Starred(self, n, st, fr):
        return raw("star", self.ev(n.value, st, fr))

    def e_Tuple(self, n, st, fr):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return self.e_List(n, st, fr, tup=True)
        return raw("tuple", *[self.ev(e, st, fr) for e in n.elts])

    def e_List(self, n, st, fr, tup=False):
        segs = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                segs.append(self.toseq(self.ev(e.value, st, fr), st, fr))
            else:
                segs.append(raw("one", self.ev(e, st, fr)))
        c = seqcat(segs)
        if tup:
            return c
        return self.newref(("list",), st, c)

    def e_Set(self, n, st, fr):
        return self.newref(("set",), st, mkseq([self.ev(e, st, fr) for e in n.elts]))

    def e_Dict(self, n, st, fr):
        segs = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                x = self.content(self.ev(v, st, fr), st)
                segs.append(x if x.op == "map" else raw("splm", x))
            else:
                segs.append(raw("set", self.ev(k, st, fr), self.ev(v, st, fr)))
        return self.newref(("dict",), st, mapcat(segs))

    def e_JoinedStr(self, n, st, fr):
        ps = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                ps.append(C(v.value))
            else:
                x = self.ev(v.value, st, fr)
                if v.format_spec is not None:
                    ps.append(tm.app("format", self.strval(x, st), C(ast.unparse(v.format_spec))))
                else:
                    ps.append(self.strval(x, st))
        return cat(*ps) if ps else C("")

    def strval(self, x, st):
        if x.op == "ref" or x.op in ("tuple", "obj"):
            x = Freezer(self, st).freeze(x)
            return raw("str", x)
        return tstr(x)

    def e_IfExp(self, n, st, fr):
        c = self.cond(n.test, st, fr)
        if c is TRUE:
            return self.ev(n.body, st, fr)
        if c is FALSE:
            return self.ev(n.orelse, st, fr)
        return self.both(c, st, lambda s: self.ev(n.body, s, fr), lambda s: self.ev(n.orelse, s, fr))

    def both(self, c, st, f, g):
        box = {}

        def h1(s):
            box[1] = f(s)
            return s

        def h0(s):
            box[0] = g(s)
            return s
        r = self.branch(c, st, h1, h0)
        if r is None:
            st.pc = FALSE
            return UNDEF
        if r is not st:
            st.cells, st.pc = r.cells, r.pc
        return self.vite(c, box.get(1, UNDEF), box.get(0, UNDEF))

    def e_BoolOp(self, n, st, fr):
        return self.boolop(isinstance(n.op, ast.And), n.values, st, fr)

    def boolop(self, isand, vals, st, fr):
        v = self.ev(vals[0], st, fr)
        if len(vals) == 1:
            return v
        c = self.simp(self.truthy(v, st, fr), st)
        if isand:
            if c is TRUE:
                return self.boolop(isand, vals[1:], st, fr)
            if c is FALSE:
                return v
            return self.both(c, st, lambda s: self.boolop(isand, vals[1:], s, fr),
                             lambda s: FALSE if tm.is_boolean(v) else v)
        if c is TRUE:
            return v
        if c is FALSE:
            return self.boolop(isand, vals[1:], st, fr)
        return self.both(c, st, lambda s: TRUE if tm.is_boolean(v) else v,
                         lambda s: self.boolop(isand, vals[1:], s, fr))

    def e_UnaryOp(self, n, st, fr):
        v = self.ev(n.operand, st, fr)
        if isinstance(n.op, ast.Not):
            return bnot(self.truthy(v, st, fr))
        if isinstance(n.op, ast.USub):
            return self.binop(ast.Mult(), C(-1), v, st, fr)
        if isinstance(n.op, ast.UAdd):
            return v
        return tm.app("invert", v)

    def e_BinOp(self, n, st, fr):
        a = self.ev(n.left, st, fr)
        b = self.ev(n.right, st, fr)
        return self.binop(n.op, a, b, st, fr)

    def binop(self, op, a, b, st, fr):
        return self.P.binop(self, op, a, b, st, fr)

    def e_Compare(self, n, st, fr):
        left = self.ev(n.left, st, fr)
        r = TRUE
        for op, rn in zip(n.ops, n.comparators):
            right = self.ev(rn, st, fr)
            r = band(r, self.compare(op, left, right, st, fr)) if r is not TRUE else self.compare(op, left, right, st, fr)
            left = right
        return r

    def compare(self, op, a, b, st, fr):
        return self.P.compare(self, op, a, b, st, fr)

    def e_Subscript(self, n, st, fr):
        o = self.ev(n.value, st, fr)
        if o.op == "ext":
            return raw("ext", o.a[0])
        k = self.ev(n.slice, st, fr)
        return self.getitem(o, k, st, fr)

    def e_Slice(self, n, st, fr):
        f = lambda x: self.ev(x, st, fr) if x is not None else NONE
        return raw("slice", f(n.lower), f(n.upper), f(n.step))

    def e_Index(self, n, st, fr):
        return self.ev(n.value, st, fr)

    def e_Lambda(self, n, st, fr):
        return self.closure(Fn(fr.mod, n), n.args, st, fr)

    def e_Await(self, n, st, fr):
        return self.opq("await")

    def e_Yield(self, n, st, fr):
        v = self.ev(n.value, st, fr) if n.value is not None else NONE
        if fr.yields is not None:
            self.setcontent(fr.yields, seqcat([self.content(fr.yields, st), raw("one", v)]), st)
        return NONE

    def e_YieldFrom(self, n, st, fr):
        v = self.toseq(self.ev(n.value, st, fr), st, fr)
        if fr.yields is not None:
            self.setcontent(fr.yields, seqcat([self.content(fr.yields, st), v]), st)
        return NONE

    def e_ListComp(self, n, st, fr):
        return self.comp(n, st, fr, "list")

    def e_GeneratorExp(self, n, st, fr):
        return self.comp(n, st, fr, "list")

    def e_SetComp(self, n, st, fr):
        return self.comp(n, st, fr, "set")

    def e_DictComp(self, n, st, fr):
        return self.comp(n, st, fr, "dict")

    def comp(self, n, st, fr, kind):
        # desugar: acc = []; for ...: if ...: acc.append(e)
        f2 = self.newframe(fr.fn, fr.mod, fr.cls, fr)
        f2.selfT = fr.selfT
        acc = self.newref(("dict",) if kind == "dict" else (kind,), st, raw("map") if kind == "dict" else raw("seq"))
        st.cells[("v", f2.fid, "#acc")] = acc

        def run(gens, s):
            if not gens:
                if kind == "dict":
                    k = self.ev(n.key, s, f2)
                    v = self.ev(n.value, s, f2)
                    self.setcontent(acc, mapcat([self.content(acc, s), raw("set", k, v)]), s)
                else:
                    v = self.ev(n.elt, s, f2)
                    self.setcontent(acc, seqcat([self.content(acc, s), raw("one", v)]), s)
                return s
            g = gens[0]
            seq = self.toseq(self.ev(g.iter, s, f2), s, f2)

            def body(x, elem):
                self.assign(g.target, elem, x, f2)
                c = TRUE
                for t in g.ifs:
                    c = band(c, self.cond(t, x, f2))
                c = self.simp(c, x)
                if c is TRUE:
                    return run(gens[1:], x)
                if c is FALSE:
                    return x
                return self.branch(c, x, lambda y: run(gens[1:], y), lambda y: y)

            node = ast.For(target=g.target, iter=g.iter, body=[], orelse=[])
            node._comp = True
            return self.loop_segs(seq, s, f2, body, node)

        r = run(n.generators, st)
        for e in f2.exits:
            fr.exits.append(e)
        if r is None:
            st.pc = FALSE
            return UNDEF
        if r is not st:
            st.cells, st.pc = r.cells, r.pc
        return acc

    def toseq(self, v, st, fr):
        return self.P.toseq(self, v, st, fr)

    # ------------------------------------------------------------ calls
    def e_Call(self, n, st, fr):
        return self.call(n, st, fr)

    def call(self, n, st, fr, discard=False):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            f = fr
            while f is not None and f.selfT is None:
                f = f.parent
            cls = f.cls if f else None
            return raw("super", self.class_term(cls), f.selfT)
        if isinstance(n.func, ast.Name) and n.func.id == "cast" and len(n.args) == 2:
            return self.ev(n.args[1], st, fr)
        if isinstance(n.func, ast.Attribute):
            recv = self.ev(n.func.value, st, fr)
            if self.ignored(recv, n.func.attr):
                return NONE
            args, kw = self.args(n, st, fr)
            return self.callmeth(recv, n.func.attr, args, kw, st, fr, discard)
        f = self.ev(n.func, st, fr)
        if f.op == "ext" and f.a[0].startswith(IGNORED_PREFIX) and not f.a[0].startswith("time.") and f.a[0] != "logging.getLogger":
            return NONE
        args, kw = self.args(n, st, fr)
        return self.callv(f, args, kw, st, fr, discard)

    def ignored(self, recv, name):
        if recv.op == "app" and str(recv.a[0]).startswith("call:logging"):
            return True
        if recv.op == "ext" and recv.a[0] in ("warnings", "logging") and name != "getLogger":
            return True
        return False

    def args(self, n, st, fr):
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.content(self.ev(a.value, st, fr), st)
                if v.op == "tuple":
                    args.extend(v.a)
                elif v.op == "seq" and all(s.op == "one" and not tm._has_absent(s.a[0]) for s in v.a):
                    args.extend(s.a[0] for s in v.a)
                else:
                    args.append(raw("star", v))
            else:
                args.append(self.ev(a, st, fr))
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                c = self.content(v, st)
                if c.op == "map" and all(s.op == "set" and s.a[0].op == "c" for s in c.a):
                    for s in c.a:
                        kw[s.a[0].a[0]] = s.a[1]
                else:
                    kw["**"] = c
            else:
                kw[k.arg] = v
        return args, kw

    def callmeth(self, recv, name, args, kw, st, fr, discard=False):
        if recv.op == "ite":
            return self.split(recv, st, lambda x, s: self.callmeth(x, name, args, kw, s, fr, discard))
        if recv is UNDEF:
            return UNDEF
        cls = self.objcls(recv)
        if cls is not None:
            fld = st.cells.get(("f", recv, name))
            f, owner = self.w.find(cls, "methods", name)
            if f is not None and fld is None:
                if f.static:
                    return self.callfn(f, args, kw, st)
                if f.classm:
                    return self.callfn(f, [self.class_term(cls)] + args, kw, st, owner, self.class_term(cls))
                return self.callfn(f, [recv] + args, kw, st, owner, recv)
        if recv.op in ("mod", "class", "super", "ext", "enum") or cls is not None:
            f = self.getattr(recv, name, st, fr)
            if f.op != "attr":
                return self.callv(f, args, kw, st, fr, discard)
        return self.P.method(self, recv, name, args, kw, st, fr, discard)

    def callv(self, f, args, kw, st, fr, discard=False):
        if f.op == "ite":
            return self.split(f, st, lambda x, s: self.callv(x, args, kw, s, fr, discard))
        if f.op == "func":
            fn = self.fns[f]
            return self.callfn(fn, args, kw, st)
        if f.op == "bound":
            fn = self.fns[f.a[0]]
            return self.callfn(fn, [f.a[1]] + args, kw, st, fn.cls, f.a[1])
        if f.op == "class":
            return self.instantiate(self.classes[f], args, kw, st, fr)
        if f.op == "clo":
            fn = self.clos[f.a[0]]
            parent = self.frames[f.a[1]]
            return self.callfn(fn, args, kw, st, parent=parent, defaults=f)
        if f.op == "clos":
            # a closure over a frame that is gone: rebuild the frame from the captured values
            fn = self.clos[f.a[0]]
            parent = self.newframe(fn, fn.mod, fn.cls, self.frames.get(f.a[1]))
            for nm, v in zip(f.a[4], f.a[5].a):
                st.cells[("v", parent.fid, nm)] = v
            return self.callfn(fn, args, kw, st, parent=parent, defaults=f)
        if f.op == "ext":
            return self.P.extcall(self, f.a[0], args, kw, st, fr, discard)
        if f.op == "lamv":
            return self.P.apply_lam(self, f, args)
        if self.kind(f) == "inst":
            return self.callmeth(f, "__call__", args, kw, st, fr)
        if f.op == "attr":
            return self.P.method(self, f.a[0], f.a[1], args, kw, st, fr, discard)
        fz = Freezer(self, st)
        r = tm.app("()", fz.freeze(f), *[fz.freeze(a) for a in args], *[raw("kw", k, fz.freeze(v)) for k, v in sorted(kw.items())])
        if discard:
            self.event(f, "()", args, st)
        return r

    def callfn(self, fn, args, kw, st, cls=None, selfT=None, parent=None, defaults=None):
        a = fn.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        bound = {}
        rest = []
        for i, x in enumerate(args):
            if x.op == "star":
                # unknown positional splice
                for j in range(i, len(params)):
                    if params[j] not in kw:
                        bound[params[j]] = idx(x.a[0], C(j - i))
                break
            if i < len(params):
                bound[params[i]] = x
            else:
                rest.append(x)
        extra = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in params or k in kwonly:
                bound[k] = v
            else:
                extra[k] = v
        # defaults
        if defaults is not None:
            ds = defaults.a[2].a
            kd = defaults.a[3].a
        else:
            fr0 = self.newframe(None, fn.mod, fn.cls)
            ds = None
        for j, p in enumerate(params):
            if p not in bound:
                q = j - (len(params) - len(a.defaults))
                if q >= 0:
                    if ds is not None:
                        bound[p] = ds[q]
                    else:
                        bound[p] = self.default(a.defaults[q], fn, fr0, st)
                elif "**" in extra:
                    bound[p] = get(extra["**"], C(p))
        for j, p in enumerate(kwonly):
            if p not in bound:
                d = a.kw_defaults[j]
                if d is not None:
                    bound[p] = kd[j] if ds is not None else self.ev(d, st, fr0)
        if a.vararg:
            bound[a.vararg.arg] = raw("tuple", *rest)
        elif rest:
            self.opq("too-many-args")
        if a.kwarg:
            bound[a.kwarg.arg] = self.newref(("dict",), st, mapcat([raw("set", C(k), v) for k, v in extra.items() if k != "**"]
                                                                   + ([raw("splm", extra["**"])] if "**" in extra else [])))
        if selfT is None and cls is None and fn.cls is not None and not fn.static and args:
            selfT, cls = args[0], fn.cls
        return self.inline(fn, bound, st, parent=parent, cls=cls or fn.cls,
                           selfT=selfT if selfT is not None else (parent.selfT if parent else None))

    def default(self, node, fn, fr0, st):
        """defaults are evaluated once: mutable defaults are shared objects"""
        if isinstance(node, (ast.List, ast.Dict, ast.Set, ast.Call)):
            t = sym("default:%s:%s" % (fn.mod.name, fn.name + ":" + str(node.col_offset * 0)))
            if isinstance(node, ast.Call):
                return self.ev(node, st, fr0)
            t._ty = ("list", "any") if isinstance(node, ast.List) else ("dict", "any", "any") if isinstance(node, ast.Dict) else "any"
            if t not in self.param_syms:
                self.param_syms.append(t)
            return t
        return self.ev(node, st, fr0)

    def instantiate(self, cls, args, kw, st, fr):
        if self.w.is_enum(cls):
            return tm.app("enumof", self.class_term(cls), *args)
        ext = self.w.extbases(cls)
        if any(e.split(".")[-1] in ("Exception", "ValueError", "QiskitError") or e.endswith("Error") for e in ext):
            return raw("app", "exc", C(cls.name))
        o = self.newref(("inst", cls.full), st)
        self.register_class(cls)
        f, owner = self.w.find(cls, "methods", "__init__")
        if f is not None:
            self.callfn(f, [o] + args, kw, st, owner, o)
        elif any(c.dataclass for c in self.w.mro(cls)):
            names = []
            for c in reversed(self.w.mro(cls)):
                names += [n for n in c.anns if n not in names]
            bound = dict(zip(names, args))
            bound.update(kw)
            for nm in names:
                if nm not in bound:
                    for c in self.w.mro(cls):
                        if nm in c.attrs:
                            bound[nm] = self.ev(c.attrs[nm], st, self.newframe(None, c.mod, c))
                            break
            for k, v in bound.items():
                st.cells[("f", o, k)] = v
        return o


# ---------------------------------------------------------------- freezing
def _scalar(t):
    y = tm.unopt(ty(t)) if hasattr(tm, "unopt") else ty(t)
    return y in ("int", "float", "num", "nn", "str", "bool") or isinstance(y, tuple) and y[0] == "enum"


def closure(ks, deps):
    need, todo = set(ks), list(ks)
    while todo:
        for q in deps[todo.pop()]:
            if q not in need:
                need.add(q)
                todo.append(q)
    return need


def canon_order(ks, phis, init, body, ctl=(), copies=None):
    """an order of the loop-carried cells that does not depend on their names or on the order of
    the statements that update them (colour refinement on initial values and update terms)"""
    def org(t):
        for _ in range(4):
            r = tm.replace(t, copies) if copies else t
            if r is t:
                break
            t = r
        return t

    own = {phis[k].a[0] for k in ks}

    def anon(t, m):
        """identity of a term up to the names of the variables of enclosing loops"""
        m = dict(m)
        for x in t.fs:
            if x > 0 and x not in own:
                m[raw("v", x)] = sym("\u00a7v")
        return org(subst(t, m) if m else t).id

    sig = {k: (anon(init[k], {}),) for k in ks}
    n = 0
    while True:
        cls = {x: j for j, x in enumerate(sorted(set(sig.values())))}
        col = {k: cls[sig[k]] for k in ks}
        if len(cls) == n or len(cls) == len(ks):
            break
        n = len(cls)
        m = {phis[k]: sym("\u00a7%d" % col[k]) for k in ks}
        use = {k: tuple(phis[k].a[0] in t.fs for t in ctl) for k in ks}
        sig = {k: (col[k], anon(body[k], m)) + use[k] for k in ks}
    return sorted(ks, key=lambda k: col[k])


HOLDS = {"tuple", "seq", "map", "one", "obj", "ret"}    # terms whose parts may be references


class Freezer:
    """turns heap references into immutable terms"""

    def __init__(self, ip, st, mark=None, fmark=None):
        self.ip, self.st = ip, st
        self.mark, self.fmark = mark, fmark
        self.busy = set()
        self.memo = {}

    def freeze(self, t):
        """deep freeze of every reference"""
        return self._fz(t, None)

    def freeze_path(self, t):
        if t.op == "ref":
            return raw("sym", "<obj>")
        return self._fz(t, None)

    def local(self, t):
        """freeze only objects allocated after mark"""
        return self._fz(t, self.mark)

    def shallow(self, t):
        return t

    def _fz(self, t, mark, val=False):
        """val: t is part of a value computed earlier (a number, a condition, an argument), not a
        reference: what it reads of a container is what the container held then"""
        key = (t, mark, val)
        r = self.memo.get(key)
        if r is not None:
            return r
        r = self._fz1(t, mark, val)
        self.memo[key] = r
        return r

    def _fz1(self, t, mark, val):
        ip = self.ip
        if t.op == "ref":
            if mark is not None and t.a[0] <= mark:
                return t
            return self.ref(t, mark)
        if t.op in ("clo",):
            return self.clo(t, mark)
        if t.op in ("bound", "func", "clos") and mark is None:
            return self.lam(t)
        if t.op in ("c", "sym", "v", "B", "enum", "ext", "class", "mod", "absent", "undef", "func"):
            if mark is None and t in ip.copies:
                return self.copied(t)
            if mark is None and not val and ("h", t) in self.st.cells:
                return self.upd(t)
            return t
        if not any(isinstance(x, (T, tuple)) for x in t.a):
            return t
        if mark is None and t.op in ("attr", "idx", "get") and ip.copies and ip.root(t) in ip.copies and _scalar(t):
            # a number read from the copy before it was modified
            cp = ip.root(t)
            return self._fz(tm.replace(t, {cp: ip.copies[cp]}), None)
        if mark is None and not val and t.op in ("attr", "idx", "get") and ("h", t) in self.st.cells and self.st.cells[("h", t)] is not t:
            return self.upd(t)
        if mark is None and t.op == "obj":
            r = self.objform(t)
            if r is not None:
                return r
        if not _needs(t, self):
            return t
        if t.op == "ite":
            return ite(tm.rebuild_atom(t.a[0], lambda x: self._fz(x, mark, True)), self._fz(t.a[1], mark, val), self._fz(t.a[2], mark, val))
        if t.op in ("each", "eachm"):
            n = self._fz(t.a[0], mark, True)
            v = tm.fresh(n)
            return getattr(tm, t.op)(n, v, self._fz(tm.openb(t, v)[0], mark, val))
        if t.op in ("set", "acc"):
            return raw(t.op, self._fz(t.a[0], mark, True), self._fz(t.a[1], mark, val))
        if t.op not in HOLDS:
            val = True
        return tm.rebuild(t, lambda x: self._fz(x, mark, val))

    def objform(self, t):
        """by-value snapshots of expressions are shown by their polynomial"""
        ip = self.ip
        cls = ip.w.cls(t.a[0])
        if cls is None:
            return None
        fm = None
        for c in ip.w.mro(cls):
            fm = fm or c.attrs.get("_vg_form")
        if fm is not None and "coef" in t.a[1]:
            co = self._fz(t.a[2 + t.a[1].index("coef")], None)
            return raw("obj", t.a[0], ("form",), ip.P.form(co, 1 if fm.value == "lin" else 2))
        al = cls.alias if getattr(cls, "_reg", None) else {}
        names = tuple(al.get(f, f) for f in t.a[1])
        vals = dict(zip(names, [self._fz(x, None) for x in t.a[2:]]))
        names = tuple(sorted(vals))
        return raw("obj", t.a[0], names, *[vals[f] for f in names])

    def copied(self, t):
        """value of a private copy: the original plus its modifications"""
        ip = self.ip
        if t in self.busy:
            return self._fz(ip.copies[t], None)
        self.busy.add(t)
        try:
            mods = []
            for key, c in self.st.cells.items():
                if key[0] in ("f", "h", "ev") and key[1].op != "ref" and ip.root(key[1]) is t:
                    if key[0] == "f" and c is raw("attr", key[1], key[2]) or key[0] == "h" and c is key[1] \
                            or key[0] == "ev" and c.op == "seq" and not c.a:
                        continue
                    path = tm.replace(key[1], {t: raw("sym", "<copy>")})
                    mods.append(raw("mod", key[0], path, key[2] if key[0] == "f" else "", self._fz(c, None)))
        finally:
            self.busy.discard(t)
        o = self._fz(ip.copies[t], None)
        if not mods:
            return o
        return tm.raw("app", "with", o, *sorted(mods))

    def upd(self, t):
        c = self.st.cells[("h", t)]
        if c is t:
            return t
        if t in self.busy:
            return t
        self.busy.add(t)
        try:
            saved = self.st.cells[("h", t)]
            r = self._fz(c, None)
        finally:
            self.busy.discard(t)
        return r

    def ref(self, t, mark):
        ip, st = self.ip, self.st
        if t in self.busy:
            return raw("sym", "<cycle>")
        self.busy.add(t)
        try:
            kind = ip.kinds[t]
            if kind[0] in ("list", "dict", "ddict"):
                return self._fz(st.cells.get(("h", t), UNDEF), mark)
            if kind[0] == "set":
                return tm.app("set", self._fz(st.cells.get(("h", t), UNDEF), mark))
            if kind[0] == "array":
                c = self._fz(st.cells.get(("h", t), UNDEF), mark)
                return ip.P.arr_norm(c, [self._fz(x, mark) for x in kind[1]])
            if kind[0] == "dok":
                return ip.P.dok_form(self._fz(st.cells.get(("h", t), UNDEF), mark))
            if kind[0] == "ext":
                c = self._fz(st.cells.get(("h", t), raw("seq")), mark)
                return tm.app("extobj", C(kind[1]), c)
            if kind[0] == "inst":
                return self.inst(t, kind[1], mark)
        finally:
            self.busy.discard(t)
        return UNDEF

    def inst(self, t, cname, mark):
        ip, st = self.ip, self.st
        cls = ip.w.cls(cname)
        hidden = set()
        obs = None
        if cls is not None and mark is None:
            for c in ip.w.mro(cls):
                fm = c.attrs.get("_vg_form")
                if fm is not None:
                    co = self._fz(st.cells.get(("f", t, "coef"), UNDEF), mark)
                    return raw("obj", cname, ("form",), ip.P.form(co, 1 if fm.value == "lin" else 2))
        if cls is not None:
            for c in ip.w.mro(cls):
                h = c.attrs.get("_vg_hidden")
                if h is not None:
                    hidden |= {e.value for e in h.elts}
                o = c.attrs.get("_vg_observe")
                if o is not None and obs is None:
                    obs = [e.value for e in o.elts]
        fields = {}
        for k, v in st.cells.items():
            if k[0] == "f" and k[1] is t:
                fields[k[2]] = v
        out = {}
        if mark is not None or cls is None:
            # by-value snapshot: keep raw fields
            for f, v in fields.items():
                if f in hidden:
                    continue
                out[f] = self._fz(v, mark)
        else:
            if obs is not None:
                for f in obs:
                    out[f] = self._fz(fields.get(f, UNDEF), mark)
            else:
                props = {}
                for c in reversed(ip.w.mro(cls)):
                    for p, fn in c.props.items():
                        props[p] = (fn, c)
                for p, (fn, c) in sorted(props.items()):
                    if p in hidden or p == "quadratic_program":
                        continue
                    s2 = st.copy()
                    s2.pc = TRUE
                    ip._raised.append([])
                    try:
                        v = ip.inline(fn, {fn.node.args.args[0].arg: t}, s2, cls=c, selfT=t)
                    finally:
                        ip._raised.pop()
                    old = self.st
                    self.st = s2
                    try:
                        out[p] = self._fz(v, mark)
                    finally:
                        self.st = old
                for f, v in fields.items():
                    if not f.startswith("_") and f not in out and f not in hidden:
                        out[f] = self._fz(v, mark)
        names = tuple(sorted(out))
        # drop the world-specific alias: private names of plain getters become public
        return raw("obj", cname, names, *[out[x] for x in names])

    def clo(self, t, mark):
        ip = self.ip
        if mark is not None:
            # defaults may hold iteration-local refs
            d = raw("tuple", *[self._fz(x, mark) for x in t.a[2].a])
            k = raw("tuple", *[self._fz(x, mark) for x in t.a[3].a])
            fid = t.a[1]
            if self.fmark is not None and fid > self.fmark:
                # captured frame is iteration-local: snapshot as new frame with substituted values
                return self.snapshot(t, d, k, mark)
            return raw("clo", t.a[0], fid, d, k, t.a[4])
        return self.lam(t)

    def snapshot(self, t, d, k, mark):
        ip = self.ip
        vals = []
        f = ip.frames[t.a[1]]
        names = []
        while f is not None and f.fid > self.fmark:
            for key, v in self.st.cells.items():
                if key[0] == "v" and key[1] == f.fid and key[2] not in names and not key[2].startswith("#"):
                    if v is t:
                        continue
                    names.append(key[2])
                    vals.append(self._fz(v, mark) if v.op != "clo" else v)
            f = f.parent
        fn = ip.clos[t.a[0]]
        free = _freenames(fn.node)
        pairs = [(n_, v) for n_, v in zip(names, vals) if n_ in free]
        outer = f.fid if f is not None else 0
        return raw("clos", t.a[0], outer, d, k, tuple(n_ for n_, _ in pairs), raw("tuple", *[v for _, v in pairs]), t.a[1])

    def lam(self, t):
        """behaviour of a closure on fresh arguments"""
        ip = self.ip
        if t in self.busy:
            return raw("sym", "<cycle>")
        self.busy.add(t)
        try:
            fn = ip.fns[t] if t.op == "func" else ip.fns[t.a[0]] if t.op == "bound" else ip.clos[t.a[0]]
            a = fn.node.args
            nreq = len(a.args) - len(a.defaults) - (1 if t.op == "bound" else 0)
            st = self.st.copy()
            st.pc = TRUE
            vs = [fresh() for _ in range(nreq)]
            ip._raised.append([])
            try:
                if len(ip.stack) > 30:
                    return raw("opaque", "deep closure")
                r = ip.callv(t, vs, {}, st, None)
            finally:
                rs = ip._raised.pop()
            body = Freezer(ip, st).freeze(r)
            for v in reversed(vs):
                body = tm.close("lam", ZERO, v, body)
            return raw("lamv", nreq, body)
        finally:
            self.busy.discard(t)



def _needs(t, fz, _memo={}):
    """does t contain refs/closures/copies (cheap structural scan with memo)"""
    st = fz.ip.__dict__.setdefault("_needmemo", {})
    r = st.get(t)
    if r is None:
        r = t.op in ("ref", "clo", "clos", "bound", "func", "obj") or t in fz.ip.copies
        if not r:
            for x in t.a:
                if isinstance(x, T):
                    if _needs(x, fz):
                        r = True
                        break
                elif isinstance(x, tuple):
                    if any(_needs(y, fz) for y in tm._flatT(x)):
                        r = True
                        break
        if t.op not in ("sym",):
            st[t] = r
    if not r and fz.st is not None:
        # containers overridden in the state
        if t.op in ("sym", "attr", "idx", "get") and ("h", t) in fz.st.cells:
            return True
        for x in t.a:
            if isinstance(x, T) and x.op in ("sym", "attr", "idx", "get", "seq", "tuple", "spl", "one", "app") and _hcells(fz) and _needs(x, fz):
                return True
    return r


def _hcells(fz):
    h = getattr(fz, "_hc", None)
    if h is None:
        h = fz._hc = any(k[0] == "h" and k[1].op != "ref" for k in fz.st.cells)
    return h


def _summands(t):
    """the non-constant atoms of the polynomials of a diagram"""
    return {a for lf in tm.leaves(t) for m in ([m for m, _ in lf.a] if lf.op == "poly" else [((lf, 1),)])
            for a, _ in m if a.op != "c"}


def _occurs(t, x, memo=None):
    if memo is None:
        memo = {}
    if t is x:
        return True
    r = memo.get(t)
    if r is not None:
        return r
    r = False
    for y in t.a:
        if isinstance(y, T):
            if _occurs(y, x, memo):
                r = True
                break
        elif isinstance(y, tuple):
            if any(_occurs(z, x, memo) for z in tm._flatT(y)):
                r = True
                break
    memo[t] = r
    return r


def _guards_have(t, pid):
    if t.op != "ite":
        return False
    return pid in t.a[0].fs or _guards_have(t.a[1], pid) or _guards_have(t.a[2], pid)


def _assigned(node):
    out = set()
    if getattr(node, "_comp", False):
        return out
    for x in ast.walk(node):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out.add(x.id)
    return sorted(out)


def _loads_outside(fnode, loop):
    if getattr(loop, "_comp", False):
        return None
    inside = set(id(x) for x in ast.walk(loop))
    out = set()
    for x in ast.walk(fnode):
        if id(x) in inside:
            continue
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
            out.add(x.id)
    # augmented targets read
    for x in ast.walk(fnode):
        if isinstance(x, ast.AugAssign) and id(x) not in inside and isinstance(x.target, ast.Name):
            out.add(x.target.id)
    # names captured by closures anywhere
    for x in ast.walk(fnode):
        if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not fnode:
            for y in ast.walk(x):
                if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load):
                    out.add(y.id)
    return out


_ln = {}


def _localnames(fn):
    if fn is None:
        return ()
    r = _ln.get(id(fn.node))
    if r is None:
        r = set()
        for x in ast.walk(fn.node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                r.add(x.id)
        _ln[id(fn.node)] = r
    return r


_fnames = {}


def _freenames(node):
    r = _fnames.get(id(node))
    if r is None:
        r = {x.id for x in ast.walk(node) if isinstance(x, ast.Name)}
        _fnames[id(node)] = r
    return r


def _is_gen(node):
    r = getattr(node, "_isgen", None)
    if r is None:
        r = False
        if isinstance(node, ast.FunctionDef):
            stack = list(node.body)
            while stack:
                x = stack.pop()
                if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                if isinstance(x, (ast.Yield, ast.YieldFrom)):
                    r = True
                    break
                stack.extend(ast.iter_child_nodes(x))
        node._isgen = r
    return r


def _may_raise(body):
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, (ast.Call, ast.Import, ast.ImportFrom, ast.Subscript)):
                return True
    return False


def _could_complete(B):
    return B is not TRUE


def norm_outcome(r, alive):
    """canonicalise the returned components under the condition of returning normally"""
    def f(t):
        if t.op == "ret":
            return raw("ret", _constr(t.a[0], alive))
        return t
    return tm.mapleaves(r, f)


def _constr(t, care):
    if care is TRUE:
        return t
    if t.op == "ite":
        return constrain(t, care)
    if t.op in ("tuple",):
        return raw("tuple", *[_constr(x, care) for x in t.a])
    if t.op == "obj":
        return raw("obj", t.a[0], t.a[1], *[_constr(x, care) for x in t.a[2:]])
    if t.op == "seq":
        return seqcat([raw("one", _constr(s.a[0], care)) if s.op == "one" else s for s in t.a])
    if t.op == "map":
        return mapcat([raw(s.op, s.a[0], _constr(s.a[1], care)) if s.op in ("set", "acc") else s for s in t.a])
    return t
