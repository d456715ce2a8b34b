"""Generates source variants: behaviour-preserving rewrites (R*) and faults (M*).

Used only while developing the checks, to calibrate which differences count as definite."""
import ast
import copy
import os

ROOT = os.environ.get("VG_REPO", "/repo")


def functions(tree):
    """(qualname, node) of every function, methods included"""
    out = []

    def rec(n, pre):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.ClassDef):
                rec(c, pre + c.name + ".")
            elif isinstance(c, ast.FunctionDef):
                out.append((pre + c.name, c))
    rec(tree, "")
    return out


def isdoc(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str)


class Site:
    """applies an edit at the k-th site it recognises inside one function"""

    def __init__(self, kind, fn, k):
        self.kind, self.fn, self.k, self.n, self.done = kind, fn, k, 0, None

    def hit(self):
        self.n += 1
        return self.n - 1 == self.k


_uid = [0]


def uid(p="vg_t"):
    _uid[0] += 1
    return "%s%d" % (p, _uid[0])


def blocks(node):
    for x in ast.walk(node):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(x, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield x, f, b


def names_in(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def N(i, ctx=None):
    return ast.Name(id=i, ctx=ctx or ast.Load())


# --------------------------------------------------------------- rewrites

def r_rename(fn, s):
    """rename one local variable"""
    params = {a.arg for a in fn.args.args + fn.args.kwonlyargs} | ({fn.args.vararg.arg} if fn.args.vararg else set())
    loc = sorted({x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params)
    nl = {n for x in ast.walk(fn) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
    inner = {a.arg for x in ast.walk(fn) if isinstance(x, (ast.Lambda, ast.FunctionDef)) and x is not fn for a in x.args.args}
    for v in loc:
        if v in nl or v in inner:
            continue
        if s.hit():
            for x in ast.walk(fn):
                if isinstance(x, ast.Name) and x.id == v:
                    x.id = "zz_" + v
            return True


def r_temp(fn, s):
    """return e -> t = e; return t / hoist a call argument"""
    for o, f, b in list(blocks(fn)):
        for i, st in enumerate(b):
            if isinstance(st, ast.Return) and st.value is not None and not isinstance(st.value, (ast.Name, ast.Constant)):
                if s.hit():
                    t = uid()
                    b[i:i + 1] = [ast.Assign(targets=[N(t, ast.Store())], value=st.value), ast.Return(value=N(t))]
                    return True
            if isinstance(st, (ast.Expr, ast.Assign)) and isinstance(st.value, ast.Call) and not isdoc(st):
                for j, a in enumerate(st.value.args):
                    if j == 0 and isinstance(a, (ast.Call, ast.BinOp, ast.Attribute, ast.Subscript)) and not any(
                            isinstance(z, (ast.Lambda, ast.Yield, ast.Starred)) for z in ast.walk(a)) and isinstance(
                            st.value.func, (ast.Name, ast.Attribute)):
                        if s.hit():
                            t = uid()
                            b.insert(i, ast.Assign(targets=[N(t, ast.Store())], value=a))
                            st.value.args[j] = N(t)
                            return True


def r_invert(fn, s):
    for x in ast.walk(fn):
        if isinstance(x, ast.If) and x.orelse:
            if s.hit():
                x.test = x.test.operand if isinstance(x.test, ast.UnaryOp) and isinstance(x.test.op, ast.Not) else \
                    ast.UnaryOp(op=ast.Not(), operand=x.test)
                x.body, x.orelse = x.orelse, x.body
                return True
        if isinstance(x, ast.IfExp):
            if s.hit():
                x.test = ast.UnaryOp(op=ast.Not(), operand=x.test)
                x.body, x.orelse = x.orelse, x.body
                return True


def r_guard(fn, s):
    """trailing if -> guard with continue / return"""
    for x in [fn] + [y for y in ast.walk(fn) if isinstance(y, (ast.For, ast.While))]:
        if isinstance(x, ast.FunctionDef) and x is not fn:
            continue
        b = x.body
        st = b[-1]
        if isinstance(st, ast.If) and not st.orelse:
            if s.hit():
                stop = ast.Continue() if x is not fn else ast.Return(value=None)
                b[-1:] = [ast.If(test=ast.UnaryOp(op=ast.Not(), operand=st.test), body=[stop], orelse=[])] + st.body
                return True


def r_comp(fn, s):
    """x = [e for ..] / return [..] -> loop with append"""
    for o, f, b in list(blocks(fn)):
        for i, st in enumerate(b):
            v = getattr(st, "value", None)
            if isinstance(st, (ast.Assign, ast.Return)) and isinstance(v, (ast.ListComp, ast.DictComp)) and (
                    isinstance(st, ast.Return) or (len(st.targets) == 1 and isinstance(st.targets[0], ast.Name))):
                if s.hit():
                    t = uid()
                    if isinstance(v, ast.ListComp):
                        core = [ast.Expr(ast.Call(func=ast.Attribute(value=N(t), attr="append", ctx=ast.Load()), args=[v.elt], keywords=[]))]
                        init = ast.List(elts=[], ctx=ast.Load())
                    else:
                        core = [ast.Assign(targets=[ast.Subscript(value=N(t), slice=v.key, ctx=ast.Store())], value=v.value)]
                        init = ast.Dict(keys=[], values=[])
                    for g in reversed(v.generators):
                        for c in reversed(g.ifs):
                            core = [ast.If(test=c, body=core, orelse=[])]
                        core = [ast.For(target=g.target, iter=g.iter, body=core, orelse=[])]
                    st.value = N(t)
                    b[i:i] = [ast.Assign(targets=[N(t, ast.Store())], value=init)] + core
                    return True


def r_loopcomp(fn, s):
    """x = []; for ..: x.append(e) -> comprehension"""
    for o, f, b in list(blocks(fn)):
        for i in range(len(b) - 1):
            a, l = b[i], b[i + 1]
            if not (isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and isinstance(
                    a.value, ast.List) and not a.value.elts and isinstance(l, ast.For) and not l.orelse):
                continue
            x = a.targets[0].id
            gens, cur = [], [l]
            ok = True
            while True:
                if len(cur) != 1:
                    ok = False
                    break
                c = cur[0]
                if isinstance(c, ast.For) and not c.orelse:
                    gens.append(ast.comprehension(target=c.target, iter=c.iter, ifs=[], is_async=0))
                    cur = c.body
                elif isinstance(c, ast.If) and not c.orelse and gens:
                    gens[-1].ifs.append(c.test)
                    cur = c.body
                else:
                    break
            if not ok or not (isinstance(c, ast.Expr) and isinstance(c.value, ast.Call) and isinstance(
                    c.value.func, ast.Attribute) and c.value.func.attr == "append" and isinstance(
                    c.value.func.value, ast.Name) and c.value.func.value.id == x) or x in names_in(c.value.args[0]):
                continue
            tg = set()
            for g in gens:
                tg |= names_in(g.target)
            rest = set()
            for z in b[i + 2:]:
                rest |= names_in(z, ast.Load)
            if tg & rest:
                continue
            if s.hit():
                b[i:i + 2] = [ast.Assign(targets=[N(x, ast.Store())], value=ast.ListComp(elt=c.value.args[0], generators=gens))]
                return True


def r_aug(fn, s):
    for o, f, b in list(blocks(fn)):
        for i, st in enumerate(b):
            if isinstance(st, ast.AugAssign) and isinstance(st.target, (ast.Name, ast.Attribute, ast.Subscript)):
                if isinstance(st.value, (ast.List, ast.ListComp)):
                    continue
                if s.hit():
                    ld = copy.deepcopy(st.target)
                    ld.ctx = ast.Load()
                    b[i] = ast.Assign(targets=[st.target], value=ast.BinOp(left=ld, op=st.op, right=st.value))
                    return True


def r_unaug(fn, s):
    for o, f, b in list(blocks(fn)):
        for i, st in enumerate(b):
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.value, ast.BinOp) and isinstance(
                    st.value.op, (ast.Add, ast.Sub, ast.Mult)) and ast.dump(st.value.left).replace("Load", "") == ast.dump(
                    st.targets[0]).replace("Store", ""):
                if s.hit():
                    b[i] = ast.AugAssign(target=st.targets[0], op=st.value.op, value=st.value.right)
                    return True


def _jumps(body):
    for x in body:
        for y in ast.walk(x):
            if isinstance(y, (ast.Continue, ast.Break)):
                return True
    return False


def r_while(fn, s):
    """for i in range(n) -> while"""
    for o, f, b in list(blocks(fn)):
        for i, st in enumerate(b):
            if isinstance(st, ast.For) and not st.orelse and isinstance(st.iter, ast.Call) and isinstance(
                    st.iter.func, ast.Name) and st.iter.func.id == "range" and len(st.iter.args) <= 2 and isinstance(
                    st.target, ast.Name) and not _jumps(st.body):
                if s.hit():
                    a = st.iter.args
                    lo, hi = (ast.Constant(0), a[0]) if len(a) == 1 else a
                    h = uid()
                    b[i:i + 1] = [ast.Assign(targets=[N(h, ast.Store())], value=hi),
                                  ast.Assign(targets=[N(st.target.id, ast.Store())], value=lo),
                                  ast.While(test=ast.Compare(left=N(st.target.id), ops=[ast.Lt()], comparators=[N(h)]),
                                            body=st.body + [ast.AugAssign(target=N(st.target.id, ast.Store()), op=ast.Add(), value=ast.Constant(1))],
                                            orelse=[])]
                    return True


def r_enum(fn, s):
    """for i, x in enumerate(e) -> for i in range(len(t))"""
    for o, f, b in list(blocks(fn)):
        for i, st in enumerate(b):
            if isinstance(st, ast.For) and isinstance(st.iter, ast.Call) and isinstance(st.iter.func, ast.Name) and st.iter.func.id == "enumerate" \
                    and len(st.iter.args) == 1 and isinstance(st.target, ast.Tuple) and isinstance(st.target.elts[0], ast.Name) \
                    and isinstance(st.iter.args[0], (ast.Name, ast.Attribute)):
                if s.hit():
                    t = uid()
                    b[i:i] = [ast.Assign(targets=[N(t, ast.Store())], value=st.iter.args[0])]
                    st.iter = ast.Call(func=N("range"), args=[ast.Call(func=N("len"), args=[N(t)], keywords=[])], keywords=[])
                    ix, el = st.target.elts
                    st.target = ix
                    st.body.insert(0, ast.Assign(targets=[el], value=ast.Subscript(value=N(t), slice=N(ix.id), ctx=ast.Load())))
                    return True


def r_toenum(fn, s):
    """for x in e -> for _, x in enumerate(e)"""
    for x in ast.walk(fn):
        if isinstance(x, ast.For) and isinstance(x.target, ast.Name) and not (isinstance(x.iter, ast.Call) and isinstance(
                x.iter.func, ast.Name) and x.iter.func.id in ("range", "enumerate", "zip")):
            if s.hit():
                x.iter = ast.Call(func=N("enumerate"), args=[x.iter], keywords=[])
                x.target = ast.Tuple(elts=[N(uid(), ast.Store()), x.target], ctx=ast.Store())
                return True


MIRROR = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
NEG = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}


def r_mirror(fn, s):
    for x in ast.walk(fn):
        if isinstance(x, ast.Compare) and len(x.ops) == 1 and type(x.ops[0]) in MIRROR:
            if s.hit():
                x.left, x.comparators = x.comparators[0], [x.left]
                x.ops = [MIRROR[type(x.ops[0])]()]
                return True


def r_notneg(fn, s):
    """a == b -> not (a != b)"""
    class Tr(ast.NodeTransformer):
        def visit_Compare(self, x):
            self.generic_visit(x)
            if len(x.ops) == 1 and type(x.ops[0]) in NEG and s.hit():
                s.done = True
                x.ops = [NEG[type(x.ops[0])]()]
                return ast.UnaryOp(op=ast.Not(), operand=x)
            return x
    Tr().visit(fn)
    return s.done


def r_commute(fn, s):
    for x in ast.walk(fn):
        if isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Mult,)) and not isinstance(x.left, (ast.List, ast.Constant)) or \
                isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mult) and isinstance(x.left, ast.Constant) and isinstance(x.left.value, (int, float)):
            if s.hit():
                x.left, x.right = x.right, x.left
                return True


def r_expr_helper(fn, s, mod=None, cls=None):
    """extract an expression into a module-level function"""
    for o, f, b in list(blocks(fn)):
        for st in b:
            if isinstance(st, (ast.Assign, ast.Return, ast.AugAssign, ast.Expr)) and st.value is not None and not isdoc(st):
                for parent in ast.walk(st.value):
                    for fld, c in ast.iter_fields(parent):
                        if isinstance(c, (ast.BinOp, ast.ListComp, ast.Compare, ast.BoolOp)) and isinstance(c, ast.expr):
                            if any(isinstance(z, (ast.Lambda, ast.Yield, ast.Starred, ast.Await)) for z in ast.walk(c)):
                                continue
                            if "super" in names_in(c):
                                continue
                            bound = {n for z in ast.walk(c) if isinstance(z, ast.comprehension) for n in names_in(z.target)}
                            outer = {n for z in ast.walk(st.value) if isinstance(z, (ast.comprehension,)) for n in names_in(z.target)} | {
                                a.arg for z in ast.walk(st.value) if isinstance(z, ast.Lambda) for a in z.args.args}
                            loc = {a.arg for a in fn.args.args + fn.args.kwonlyargs} | names_in(fn, ast.Store)
                            free = sorted((names_in(c, ast.Load) - bound) & (loc | outer))
                            if s.hit():
                                h = uid("_vg_helper")
                                setattr(parent, fld, ast.Call(func=N(h), args=[N(v) for v in free], keywords=[]))
                                mod.body.append(ast.FunctionDef(name=h, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=v) for v in free], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                                                body=[ast.Return(value=c)], decorator_list=[], type_params=[]))
                                return True


def r_block_helper(fn, s, mod=None, cls=None):
    """extract one loop / if statement into a helper that returns what it assigns"""
    for o, f, b in list(blocks(fn)):
        for i, st in enumerate(b):
            if isinstance(st, (ast.For, ast.If)) and not any(isinstance(z, (ast.Return, ast.Yield, ast.Lambda, ast.FunctionDef, ast.Nonlocal)) for z in ast.walk(st)):
                # no break/continue that leaves the statement
                esc = False

                def chk(n, depth):
                    nonlocal esc
                    for c in ast.iter_child_nodes(n):
                        if isinstance(c, (ast.Break, ast.Continue)) and depth == 0:
                            esc = True
                        chk(c, depth + (1 if isinstance(c, (ast.For, ast.While)) else 0))
                chk(st, 1 if isinstance(st, ast.For) else 0)
                if esc or "super" in names_in(st):
                    continue
                compv = {n for z in ast.walk(st) if isinstance(z, ast.comprehension) for n in names_in(z.target)}
                asg = names_in(st, ast.Store) - compv
                loc = {a.arg for a in fn.args.args + fn.args.kwonlyargs} | names_in(fn, ast.Store)
                before = {a.arg for a in fn.args.args + fn.args.kwonlyargs}
                for z in ast.walk(fn):
                    if isinstance(z, ast.Name) and isinstance(z.ctx, ast.Store) and z.lineno < st.lineno:
                        before.add(z.id)
                after = {z.id for z in ast.walk(fn) if isinstance(z, ast.Name) and isinstance(z.ctx, ast.Load) and z.lineno > st.end_lineno}
                inloop = any(isinstance(z, (ast.For, ast.While)) and z.lineno < st.lineno and z.end_lineno >= st.end_lineno for z in ast.walk(fn))
                out = sorted(asg & (after if not inloop else (after | names_in(fn, ast.Load))) & loc)
                if any(v not in before for v in out):
                    continue
                free = sorted(((names_in(st, ast.Load) | set(out)) & before) - compv)
                if s.hit():
                    h = uid("_vg_helper")
                    call = ast.Call(func=N(h), args=[N(v) for v in free], keywords=[])
                    ret = [ast.Return(value=ast.Tuple(elts=[N(v) for v in out], ctx=ast.Load()) if len(out) > 1 else N(out[0]))] if out else []
                    mod.body.append(ast.FunctionDef(name=h, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=v) for v in free], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                                    body=[st] + ret, decorator_list=[], type_params=[]))
                    if not out:
                        b[i] = ast.Expr(call)
                    else:
                        b[i] = ast.Assign(targets=[ast.Tuple(elts=[N(v, ast.Store()) for v in out], ctx=ast.Store()) if len(out) > 1 else N(out[0], ast.Store())], value=call)
                    return True


def r_ifexp(fn, s):
    """x = a if c else b -> if statement"""
    for o, f, b in list(blocks(fn)):
        for i, st in enumerate(b):
            if isinstance(st, (ast.Assign, ast.Return)) and isinstance(st.value, ast.IfExp):
                if s.hit():
                    a, z = copy.deepcopy(st), copy.deepcopy(st)
                    a.value, z.value = st.value.body, st.value.orelse
                    b[i] = ast.If(test=st.value.test, body=[a], orelse=[z])
                    return True


def r_toifexp(fn, s):
    for o, f, b in list(blocks(fn)):
        for i, st in enumerate(b):
            if isinstance(st, ast.If) and len(st.body) == len(st.orelse) == 1 and isinstance(st.body[0], ast.Assign) and isinstance(
                    st.orelse[0], ast.Assign) and ast.dump(st.body[0].targets[0]) == ast.dump(st.orelse[0].targets[0]):
                if s.hit():
                    b[i] = ast.Assign(targets=st.body[0].targets, value=ast.IfExp(test=st.test, body=st.body[0].value, orelse=st.orelse[0].value))
                    return True


def r_andnest(fn, s):
    for x in ast.walk(fn):
        if isinstance(x, ast.If) and not x.orelse and isinstance(x.test, ast.BoolOp) and isinstance(x.test.op, ast.And):
            if s.hit():
                v = x.test.values
                x.body = [ast.If(test=v[-1] if len(v) == 2 else ast.BoolOp(op=ast.And(), values=v[1:]), body=x.body, orelse=[])]
                x.test = v[0]
                return True


def r_demorgan(fn, s):
    class Tr(ast.NodeTransformer):
        def visit_BoolOp(self, x):
            self.generic_visit(x)
            if s.hit():
                s.done = True
                op = ast.Or() if isinstance(x.op, ast.And) else ast.And()
                return ast.UnaryOp(op=ast.Not(), operand=ast.BoolOp(op=op, values=[ast.UnaryOp(op=ast.Not(), operand=v) for v in x.values]))
            return x
    for x in ast.walk(fn):
        if isinstance(x, (ast.If, ast.While)):
            x.test = Tr().visit(x.test)
            if s.done:
                return True


def r_append(fn, s):
    """x += [a] <-> x.append(a)"""
    for o, f, b in list(blocks(fn)):
        for i, st in enumerate(b):
            if isinstance(st, ast.AugAssign) and isinstance(st.op, ast.Add) and isinstance(st.value, ast.List):
                if s.hit():
                    t = copy.deepcopy(st.target)
                    t.ctx = ast.Load()
                    b[i:i + 1] = [ast.Expr(ast.Call(func=ast.Attribute(value=t, attr="append", ctx=ast.Load()), args=[e], keywords=[])) for e in st.value.elts]
                    return True
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) and st.value.func.attr == "append" \
                    and isinstance(st.value.func.value, ast.Name):
                if s.hit():
                    t = copy.deepcopy(st.value.func.value)
                    t.ctx = ast.Store()
                    b[i] = ast.AugAssign(target=t, op=ast.Add(), value=ast.List(elts=[st.value.args[0]], ctx=ast.Load()))
                    return True


def _pure(e):
    return not any(isinstance(z, (ast.Call, ast.Yield, ast.NamedExpr)) for z in ast.walk(e))


def r_swap(fn, s):
    """swap adjacent independent assignments"""
    for o, f, b in list(blocks(fn)):
        for i in range(len(b) - 1):
            p, q = b[i], b[i + 1]
            if all(isinstance(z, ast.Assign) and len(z.targets) == 1 and isinstance(z.targets[0], (ast.Name, ast.Attribute)) for z in (p, q)):
                if not (_pure(p.value) or _pure(q.value)):
                    continue
                dp, dq = ast.dump(p.targets[0]), ast.dump(q.targets[0])
                lp, lq = dp.replace("Store", "Load"), dq.replace("Store", "Load")
                if dp == dq or lp in ast.dump(q.value) or lq in ast.dump(p.value):
                    continue
                if isinstance(p.targets[0], ast.Attribute) and not _pure(q.value) or isinstance(q.targets[0], ast.Attribute) and not _pure(p.value):
                    continue
                if s.hit():
                    b[i], b[i + 1] = q, p
                    return True


def r_noop(fn, s):
    if s.hit():
        k = 1 if isdoc(fn.body[0]) else 0
        if len(fn.body) == k:
            return
        fn.body.insert(k, ast.Assign(targets=[N(uid(), ast.Store())], value=ast.Constant(0)))
        return True


def r_any(fn, s):
    """any(gen) in an assignment/condition -> explicit loop"""
    for o, f, b in list(blocks(fn)):
        for i, st in enumerate(b):
            for fld in ("value", "test"):
                v = getattr(st, fld, None)
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("any", "all") and len(v.args) == 1 and isinstance(
                        v.args[0], ast.GeneratorExp) and isinstance(st, (ast.Assign, ast.Return, ast.If)):
                    if s.hit():
                        t = uid()
                        isany = v.func.id == "any"
                        g = v.args[0]
                        core = [ast.If(test=g.elt if isany else ast.UnaryOp(op=ast.Not(), operand=g.elt),
                                       body=[ast.Assign(targets=[N(t, ast.Store())], value=ast.Constant(isany)), ast.Break()], orelse=[])]
                        if len(g.generators) > 1:
                            core[0].body.pop()
                        for ge in reversed(g.generators):
                            for c in reversed(ge.ifs):
                                core = [ast.If(test=c, body=core, orelse=[])]
                            core = [ast.For(target=ge.target, iter=ge.iter, body=core, orelse=[])]
                        setattr(st, fld, N(t))
                        b[i:i] = [ast.Assign(targets=[N(t, ast.Store())], value=ast.Constant(not isany))] + core
                        return True


def r_sum(fn, s):
    for o, f, b in list(blocks(fn)):
        for i, st in enumerate(b):
            v = getattr(st, "value", None)
            if isinstance(st, (ast.Assign, ast.Return)) and isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "sum" and len(
                    v.args) == 1 and isinstance(v.args[0], (ast.GeneratorExp, ast.ListComp)):
                if s.hit():
                    t = uid()
                    g = v.args[0]
                    core = [ast.AugAssign(target=N(t, ast.Store()), op=ast.Add(), value=g.elt)]
                    for ge in reversed(g.generators):
                        for c in reversed(ge.ifs):
                            core = [ast.If(test=c, body=core, orelse=[])]
                        core = [ast.For(target=ge.target, iter=ge.iter, body=core, orelse=[])]
                    st.value = N(t)
                    b[i:i] = [ast.Assign(targets=[N(t, ast.Store())], value=ast.Constant(0))] + core
                    return True


def r_items(fn, s):
    """for k, v in d.items() -> for k in d: v = d[k]"""
    for x in ast.walk(fn):
        if isinstance(x, ast.For) and isinstance(x.iter, ast.Call) and isinstance(x.iter.func, ast.Attribute) and x.iter.func.attr == "items" \
                and isinstance(x.target, ast.Tuple) and isinstance(x.iter.func.value, (ast.Name, ast.Attribute)) and isinstance(x.target.elts[0], ast.Name):
            if s.hit():
                d = x.iter.func.value
                k, v = x.target.elts
                x.iter = copy.deepcopy(d)
                x.target = k
                x.body.insert(0, ast.Assign(targets=[v], value=ast.Subscript(value=copy.deepcopy(d), slice=N(k.id), ctx=ast.Load())))
                return True


def r_inline(fn, s):
    """inline a variable assigned once from a pure expression and used once in the next statement"""
    for o, f, b in list(blocks(fn)):
        for i in range(len(b) - 1):
            st, nx = b[i], b[i + 1]
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                v = st.targets[0].id
                uses = [z for z in ast.walk(fn) if isinstance(z, ast.Name) and z.id == v]
                if len(uses) == 2 and isinstance(nx, (ast.Assign, ast.Return, ast.Expr, ast.AugAssign)) and v in names_in(nx.value or N("x"), ast.Load) \
                        and not any(isinstance(z, (ast.Lambda, ast.comprehension)) for z in ast.walk(nx)):
                    if s.hit():
                        class Tr(ast.NodeTransformer):
                            def visit_Name(self, z):
                                return st.value if z.id == v and isinstance(z.ctx, ast.Load) else z
                        b[i + 1] = Tr().visit(nx)
                        del b[i]
                        return True


def r_elif(fn, s):
    """if a: return x; rest -> if a: return x else: rest"""
    for o, f, b in list(blocks(fn)):
        for i, st in enumerate(b[:-1]):
            if isinstance(st, ast.If) and not st.orelse and isinstance(st.body[-1], (ast.Return, ast.Raise, ast.Continue)):
                if s.hit():
                    st.orelse = b[i + 1:]
                    del b[i + 1:]
                    return True


def r_unelse(fn, s):
    """if a: return x else: rest -> if a: return x; rest"""
    for o, f, b in list(blocks(fn)):
        st = b[-1]
        if isinstance(st, ast.If) and st.orelse and isinstance(st.body[-1], (ast.Return, ast.Raise, ast.Continue)):
            if s.hit():
                rest = st.orelse
                st.orelse = []
                b.extend(rest)
                return True


def r_square(fn, s):
    class Tr(ast.NodeTransformer):
        def visit_BinOp(self, x):
            self.generic_visit(x)
            if isinstance(x.op, ast.Pow) and isinstance(x.right, ast.Constant) and x.right.value == 2 and _pure(x.left) and s.hit():
                s.done = True
                return ast.BinOp(left=x.left, op=ast.Mult(), right=copy.deepcopy(x.left))
            if isinstance(x.op, ast.Sub) and s.hit() and not isinstance(x.left, ast.Set):
                s.done = True
                return ast.BinOp(left=x.left, op=ast.Add(), right=ast.UnaryOp(op=ast.USub(), operand=x.right))
            return x
    Tr().visit(fn)
    return s.done


def r_rangeidx(fn, s):
    """for x in xs -> for k in range(len(xs)): x = xs[k] (xs a name or attribute)"""
    for o, f, b in list(blocks(fn)):
        for i, st in enumerate(b):
            if isinstance(st, ast.For) and isinstance(st.target, ast.Name) and isinstance(st.iter, ast.Attribute) and \
                    st.iter.attr in ("variables", "linear_constraints", "quadratic_constraints", "_variables", "samples"):
                if s.hit():
                    k, t = uid(), uid()
                    b.insert(i, ast.Assign(targets=[N(t, ast.Store())], value=st.iter))
                    st.body.insert(0, ast.Assign(targets=[st.target], value=ast.Subscript(value=N(t), slice=N(k), ctx=ast.Load())))
                    st.target = N(k, ast.Store())
                    st.iter = ast.Call(func=N("range"), args=[ast.Call(func=N("len"), args=[N(t)], keywords=[])], keywords=[])
                    return True


def r_method(fn, s, mod=None, cls=None):
    """self.a.b read twice -> local alias"""
    if not fn.args.args or fn.args.args[0].arg != "self":
        return
    stores = {z.attr for z in ast.walk(fn) if isinstance(z, ast.Attribute) and isinstance(z.ctx, ast.Store)}
    attrs = sorted({z.attr for z in ast.walk(fn) if isinstance(z, ast.Attribute) and isinstance(z.ctx, ast.Load) and isinstance(
        z.value, ast.Name) and z.value.id == "self"} - stores)
    meths = {z.func.attr for z in ast.walk(fn) if isinstance(z, ast.Call) and isinstance(z.func, ast.Attribute) and isinstance(
        z.func.value, ast.Name) and z.func.value.id == "self"}
    calls_self = bool(meths)
    for a in attrs:
        if a in meths or (calls_self and a in ("_state", "_src", "_dst")):
            continue
        if s.hit():
            t = uid()

            class Tr(ast.NodeTransformer):
                def visit_Attribute(self, z):
                    self.generic_visit(z)
                    if z.attr == a and isinstance(z.value, ast.Name) and z.value.id == "self" and isinstance(z.ctx, ast.Load):
                        return N(t)
                    return z
            k = 1 if isdoc(fn.body[0]) else 0
            body = [Tr().visit(z) for z in fn.body[k:]]
            fn.body[k:] = [ast.Assign(targets=[N(t, ast.Store())], value=ast.Attribute(value=N("self"), attr=a, ctx=ast.Load()))] + body
            return True


REWRITES = {k: v for k, v in globals().items() if k.startswith("r_")}


# --------------------------------------------------------------- faults

CMPSWAP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE],
           ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}


def m_cmp(fn, s):
    for x in ast.walk(fn):
        if isinstance(x, ast.Compare):
            for j, op in enumerate(x.ops):
                for r in CMPSWAP.get(type(op), []):
                    if s.hit():
                        x.ops[j] = r()
                        return True


def m_arith(fn, s):
    sw = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Pow: ast.Mult, ast.Mod: ast.FloorDiv}
    for x in ast.walk(fn):
        if isinstance(x, (ast.BinOp, ast.AugAssign)) and type(x.op) in sw:
            if isinstance(x, ast.BinOp) and (isinstance(x.left, (ast.List, ast.JoinedStr)) or isinstance(x.left, ast.Constant) and isinstance(x.left.value, str)):
                continue
            if isinstance(x, ast.AugAssign) and isinstance(x.value, (ast.List, ast.JoinedStr)):
                continue
            if s.hit():
                x.op = sw[type(x.op)]()
                return True
        if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.USub):
            if s.hit():
                x.op = ast.UAdd()
                return True


def m_const(fn, s):
    for x in ast.walk(fn):
        if isinstance(x, ast.Constant) and not isinstance(x.value, str) and x.value is not None and not isinstance(x.value, complex) and x.value is not Ellipsis:
            if isinstance(x.value, bool):
                if s.hit():
                    x.value = not x.value
                    return True
            else:
                for d in (1, -1):
                    if s.hit():
                        x.value = x.value + d if not isinstance(x.value, float) else (x.value * 2 + (0.5 if d < 0 else 0))
                        return True


def m_drop(fn, s):
    for o, f, b in list(blocks(fn)):
        for i, st in enumerate(b):
            if isinstance(st, (ast.Assign, ast.AugAssign, ast.Expr, ast.If, ast.Break, ast.Continue, ast.Raise, ast.Delete)) and not isdoc(st):
                if isinstance(st, ast.Expr) and "log" in ast.unparse(st):
                    continue
                if s.hit():
                    b[i] = ast.Pass()
                    return True


def m_cond(fn, s):
    for x in ast.walk(fn):
        if isinstance(x, (ast.If, ast.IfExp)):
            for v in (True, False):
                if s.hit():
                    x.test = ast.Constant(v)
                    return True
        if isinstance(x, ast.comprehension):
            for j in range(len(x.ifs)):
                if s.hit():
                    del x.ifs[j]
                    return True


def m_bool(fn, s):
    for x in ast.walk(fn):
        if isinstance(x, ast.BoolOp):
            if s.hit():
                x.op = ast.Or() if isinstance(x.op, ast.And) else ast.And()
                return True
            for j in range(len(x.values)):
                if s.hit():
                    del x.values[j]
                    if len(x.values) == 1:
                        x.values.append(x.values[0])
                    return True


PAIRS = [("lowerbound", "upperbound"), ("linear", "quadratic"), ("linear_constraints", "quadratic_constraints"), ("x", "fval"),
         ("LE", "GE"), ("EQ", "LE"), ("MINIMIZE", "MAXIMIZE"), ("BINARY", "INTEGER"), ("CONTINUOUS", "BINARY"), ("minimize", "maximize"),
         ("SUCCESS", "INFEASIBLE"), ("constant", "linear"), ("x0", "z"), ("z", "y"), ("u", "z"), ("x0_saved", "z_saved"),
         ("binary_indices", "continuous_indices"), ("equality_constraints", "inequality_constraints"), ("rho", "lambda_mult"),
         ("binary_var", "integer_var"), ("integer_var", "continuous_var"), ("step1_absolute_indices", "binary_indices"), ("_linear_constraints", "_quadratic_constraints"),
         ("ceil", "floor"), ("zeros", "ones"), ("argmax", "argmin"), ("sum", "max"), ("append", "extend"), ("nodes", "edges"), ("items", "keys"),
         ("tau_incr", "tau_decr"), ("mu_res", "mu_merit"), ("factor_c", "beta"), ("q0", "q1"), ("c0", "c1"), ("a0", "b0"), ("evaluate", "evaluate_gradient"),
         ("probability", "fval")]


def m_attr(fn, s):
    d = {}
    for a, b in PAIRS:
        d.setdefault(a, b)
        d.setdefault(b, a)
    for x in ast.walk(fn):
        if isinstance(x, ast.Attribute) and x.attr in d:
            if s.hit():
                x.attr = d[x.attr]
                return True


def m_name(fn, s):
    """use another local in place of one"""
    loc = sorted({a.arg for a in fn.args.args} | names_in(fn, ast.Store) - {"self", "cls"})
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in loc and x.id != "self" and len(loc) > 1:
            o = loc[(loc.index(x.id) + 1) % len(loc)]
            if o in ("self", "cls", x.id):
                continue
            if len(x.id) > 2 and len(o) <= 2 or len(x.id) <= 2 and len(o) > 2:
                continue
            if s.hit():
                x.id = o
                return True


def m_args(fn, s):
    for x in ast.walk(fn):
        if isinstance(x, ast.Call) and len(x.args) >= 2 and not (isinstance(x.func, ast.Attribute) and x.func.attr in ("debug", "info", "format")):
            if s.hit():
                x.args[0], x.args[1] = x.args[1], x.args[0]
                return True
        if isinstance(x, ast.Call) and x.keywords:
            for j in range(len(x.keywords)):
                if s.hit():
                    del x.keywords[j]
                    return True
        if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Tuple) and len(x.slice.elts) == 2:
            if s.hit():
                x.slice.elts.reverse()
                return True
        if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Slice):
            if s.hit():
                x.slice = ast.Slice()
                return True


def m_jump(fn, s):
    for o, f, b in list(blocks(fn)):
        for i, st in enumerate(b):
            if isinstance(st, ast.Break):
                if s.hit():
                    b[i] = ast.Continue()
                    return True
            if isinstance(st, ast.Continue):
                if s.hit():
                    b[i] = ast.Break()
                    return True
            if isinstance(st, ast.Return) and isinstance(o, (ast.For,)) is False and st.value is not None and len(b) > 1:
                pass


def m_loop(fn, s):
    for x in ast.walk(fn):
        if isinstance(x, (ast.For, ast.comprehension)):
            if s.hit():
                x.iter = ast.Subscript(value=ast.Call(func=N("list"), args=[x.iter], keywords=[]), slice=ast.Slice(lower=ast.Constant(1)), ctx=ast.Load())
                return True
            if s.hit():
                x.iter = ast.Subscript(value=ast.Call(func=N("list"), args=[x.iter], keywords=[]), slice=ast.Slice(upper=ast.UnaryOp(op=ast.USub(), operand=ast.Constant(1))), ctx=ast.Load())
                return True


def m_sideshift(fn, s):
    """move a statement of a loop body out after the loop"""
    for o, f, b in list(blocks(fn)):
        for i, st in enumerate(b):
            if isinstance(st, ast.For) and len(st.body) > 1:
                if s.hit():
                    x = st.body.pop()
                    b.insert(i + 1, x)
                    return True


FAULTS = {k: v for k, v in globals().items() if k.startswith("m_")}


def generate(path, table, only=None):
    """yields (function, kind, index, source)"""
    src = open(path).read()
    base = ast.parse(src)
    fns = [q for q, _ in functions(base)]
    for qi, q in enumerate(fns):
        if only and q not in only:
            continue
        for kind, tr in table.items():
            k = 0
            while True:
                tree = ast.parse(src)
                fn = functions(tree)[qi][1]
                s = Site(kind, fn, k)
                try:
                    if kind in ("r_expr_helper", "r_block_helper"):
                        ok = tr(fn, s, tree, None)
                    else:
                        ok = tr(fn, s)
                except Exception as e:      # noqa
                    print("generator", kind, q, repr(e))
                    break
                if not ok:
                    break
                ast.fix_missing_locations(tree)
                try:
                    out = ast.unparse(tree)
                    ast.parse(out)
                except Exception:
                    k += 1
                    continue
                yield q, kind, k, out
                k += 1
