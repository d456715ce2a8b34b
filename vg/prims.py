"""Library operators of the value graph: operators, builtins, containers, numpy."""
import ast
from fractions import Fraction as Fr

from . import terms as tm
from .terms import (T, C, raw, ite, band, bor, bnot, truth, cmp, add, sub, mul, div, neg, power,
                    NONE, TRUE, FALSE, ZERO, ONE, ABSENT, UNDEF, fresh, subst, ty, unopt,
                    length, idx, attr, get, keys, seqcat, mapcat, each, eachm, mkseq, spl, cat, tstr,
                    lit, lift, isnum, sym, exists, contains, app, tsum)

NUM = ("int", "float", "num", "bool", "nn")


def _frz(ip, st):
    from .interp import Freezer
    return Freezer(ip, st)


def isarr(t):
    y = unopt(ty(t))
    return isinstance(y, tuple) and y[0] == "array"


# ------------------------------------------------------------------ vectors
def vec(ip, o, st):
    """(n, f) elementwise view of a list/array value, or None"""
    c = ip.content(o, st) if o.op in ("ref", "ite") else st.cells.get(("h", o), o)
    if o.op == "ref" and ip.kinds[o][0] == "array":
        dims = ip.kinds[o][1]
        if c.op == "map":
            return dims[0], lambda i: arr_get1(ip, o, c, i, dims)
        return dims[0], lambda i: arr_index(c, i)
    if c.op == "seq":
        return length(c), lambda i: idx(c, i)
    if isarr(c):
        return length(c), lambda i: arr_index(c, i)
    return None


def arr_get1(ip, o, c, i, dims):
    if len(dims) == 1:
        return arr_look(c, i)
    n = dims[1]
    v = fresh(n)
    return each(n, v, mkseq([arr_look(c, raw("tuple", i, v))]))


def arr_look(c, k):
    r = tm.lookup(c, k)
    if r is not None:
        return tm.strip_absent(r)
    r = acc_look(c, k)
    if r is not None:
        return r
    return raw("get", c, k)


def acc_look(c, k):
    """value of key k when all writes after the base are accumulations: base + sum [key == k] w"""
    if c.op == "ite":
        h, l = acc_look(c.a[1], k), acc_look(c.a[2], k)
        return None if h is None or l is None else ite(lit(c.a[0]), h, l)
    if c.op != "map":
        return None
    tot = None
    for s in c.a:
        if s.op == "splm" and tot is None:
            r = tm._lookseg(s, k)
            if r is None:
                return None
            tot = tm.strip_absent(r[1])
            continue
        r = tm._lookseg(s, k)
        if r is not None:
            kind, val = r
            if kind == "set":
                tot = tm.overlay(val, tot if tot is not None else ZERO)
            else:
                tot = add(tot if tot is not None else ZERO, tm.mapleaves(val, lambda x: ZERO if x is ABSENT else x))
            continue
        w = acc_sum(s, k)
        if w is None:
            return None
        tot = add(tot if tot is not None else ZERO, w)
    return tot if tot is not None else ZERO


def acc_sum(s, k):
    if s.op == "acc":
        return ite(cmp("==", s.a[0], k), tm.mapleaves(s.a[1], lambda x: ZERO if x is ABSENT else x), ZERO)
    if s.op == "eachm":
        v = fresh(s.a[0])
        b = tm.openb(s, v)[0]
        if b.op == "ite":
            return None
        if b.op != "map":
            return None
        tot = ZERO
        for x in b.a:
            w = acc_sum(x, k)
            if w is None:
                return None
            tot = add(tot, w)
        return tsum(s.a[0], v, tot)
    return None


def arr_norm(c, dims):
    """extensional form of an array with content map c"""
    if c.op == "ite":
        return ite(lit(c.a[0]), arr_norm(c.a[1], dims), arr_norm(c.a[2], dims))
    if c.op != "map":
        return c
    vs = [fresh(d) for d in dims]
    k = vs[0] if len(vs) == 1 else raw("tuple", *vs)
    if not dims:
        return c
    x = arr_look(c, k)
    for d, v in reversed(list(zip(dims, vs))):
        x = each(d, v, mkseq([x]))
    return x


def arr_get(ip, o, c, k, st):
    dims = ip.kinds[o][1]
    if k.op != "tuple" and len(dims) > 1:
        return arr_get1(ip, o, c, k, dims)
    if k.op == "tuple" and any(x.op == "slice" for x in k.a):
        return arr_index(arr_norm(c, dims), k)
    if k.op == "slice":
        return do_slice(ip, arr_norm(c, dims), k, st)
    return arr_look(c, k)


def arr_index(c, k):
    if c.op == "ite":
        return lift("aidx1", lambda x: arr_index(x, k), [c], k)
    if k.op == "ite":
        return lift("aidx2", lambda x: arr_index(c, x), [k], c)
    if k.op == "tuple":
        if any(x.op in ("slice",) or ty(x) not in ("int", "any", "num") for x in k.a):
            return app("getitem", c, k)
        r = c
        for x in k.a:
            r = arr_index(r, x)
        return r
    if k.op == "slice":
        return slice_seq(c, k)
    if c.op == "poly" and isarr_poly(c):
        tot = ZERO
        for m, co in c.a:
            p = C(co)
            for x, e in m:
                p = mul(p, power(arr_index(x, k) if isarr(x) else x, C(e)))
            tot = add(tot, p)
        return tot
    if c.op == "seq":
        r = tm._seqidx(c, k)
        if r is not None:
            return r
        return raw("idx", c, k)
    y = unopt(ty(k))
    if isinstance(y, tuple) and y[0] in ("list", "array"):
        return app("getitem", c, k)
    return idx(c, k)


def isarr_poly(p):
    return any(isarr(x) for m, _ in p.a for x, e in m)


def slice_seq(c, k):
    lo, hi, stp = k.a
    if stp is C(-1) and lo is NONE and hi is NONE:
        return reverse(c)
    if c.op == "seq" and all(s.op == "one" and not tm._has_absent(s.a[0]) for s in c.a) and all(
            x is NONE or isnum(x) for x in k.a):
        xs = [s.a[0] for s in c.a]
        f = lambda x: None if x is NONE else int(x.a[0])
        return mkseq(xs[f(lo):f(hi):f(stp)])
    if c.op == "tuple" and all(x is NONE or isnum(x) for x in k.a):
        f = lambda x: None if x is NONE else int(x.a[0])
        return raw("tuple", *c.a[f(lo):f(hi):f(stp)])
    if stp is NONE or stp is ONE:
        if lo is NONE:
            lo = ZERO
        if lo is ZERO and hi is NONE:
            return c if c.op in ("seq",) or ty(c) == "str" else app("copyof", c) if False else c
        if ty(c) == "str" or c.op in ("cat", "c"):
            return app("slice", c, lo, hi)
        n = length(c)
        if hi.op == "ite" and {hi.a[1], hi.a[2]} >= {n}:
            # x[:min(h, len(x))] is x[:h]
            o = hi.a[2] if hi.a[1] is n else hi.a[1]
            if ite(cmp("<=", o, n), o, n) is hi:
                hi = o
        h = n if hi is NONE else (add(n, hi) if isnum(hi) and hi.a[0] < 0 else hi)
        l = add(n, lo) if isnum(lo) and lo.a[0] < 0 else lo
        # x[:h] with h possibly beyond n is kept as min
        if hi is not NONE and not (isnum(hi) and hi.a[0] < 0):
            if cmp("<=", h, n) is not TRUE and h is not n:
                return app("slice", c, lo, hi)
        v = fresh(sub(h, l))
        return each(sub(h, l), v, mkseq([arr_index(c, add(l, v))]))
    return app("slice", c, lo, hi, stp)


def reverse(c):
    if c.op == "ite":
        return lift("rev", reverse, [c])
    if c.op == "app" and c.a[0] == "reversed" and len(c.a) == 2:
        return c.a[1]
    if ty(c) == "str":
        if c.op == "c":
            return C(c.a[0][::-1])
        return app("reversed", c)
    if c.op == "seq" and all(s.op == "one" for s in c.a):
        return seqcat(list(reversed(c.a)))
    if c.op == "tuple":
        return raw("tuple", *reversed(c.a))
    n = length(c)
    if n.op == "len" and n.a[0].op == "seq":
        return app("reversed", c)
    if c.op == "seq" and not (len(c.a) == 1 and (c.a[0].op == "spl" or _plain_each(c.a[0]))):
        return app("reversed", c)
    v = fresh(n)
    return each(n, v, mkseq([arr_index(c, sub(sub(n, ONE), v))]))


def _plain_each(s):
    if s.op != "each":
        return False
    b = s.a[1]
    return b.op == "seq" and len(b.a) == 1 and b.a[0].op == "one" and not tm._has_absent(b.a[0].a[0])


def do_slice(ip, c, k, st):
    if c.op == "ref":
        c = ip.content(c, st)
    r = slice_seq(c, k)
    return r


def transpose(c):
    if c.op == "app" and c.a[0] == "transpose":
        return c.a[1]
    if c.op == "seq" and len(c.a) == 1 and _plain_each(c.a[0]):
        s = c.a[0]
        v = fresh(s.a[0])
        row = tm.openb(s, v)[0].a[0].a[0]
        if row.op == "seq" and len(row.a) == 1 and _plain_each(row.a[0]) and v.a[0] not in row.a[0].a[0].fs:
            w = fresh(row.a[0].a[0])
            x = tm.openb(row.a[0], w)[0].a[0].a[0]
            return each(row.a[0].a[0], w, mkseq([each(s.a[0], v, mkseq([x]))]))
    return app("transpose", c)


def shape_of(ip, c, st):
    if c.op == "seq" and len(c.a) == 1 and _plain_each(c.a[0]):
        s = c.a[0]
        v = fresh(s.a[0])
        row = tm.openb(s, v)[0].a[0].a[0]
        if row.op == "seq" and len(row.a) == 1 and _plain_each(row.a[0]) and v.a[0] not in row.a[0].a[0].fs:
            return raw("tuple", s.a[0], row.a[0].a[0])
        if ty(row) in NUM:
            return raw("tuple", s.a[0])
    return raw("attr", c, "shape")


def arr_attr(ip, o, name, st):
    dims = ip.kinds[o][1]
    if name == "shape":
        return raw("tuple", *dims)
    if name == "size":
        r = ONE
        for d in dims:
            r = mul(r, d)
        return r
    if name == "T":
        return transpose(arr_norm(ip.content(o, st), dims))
    if name == "ndim":
        return C(len(dims))
    return raw("attr", arr_norm(ip.content(o, st), dims), name)


# ------------------------------------------------------------------ operators
OPN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%",
       ast.Pow: "**", ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^",
       ast.LShift: "<<", ast.RShift: ">>"}
DUNDER = {"+": "__add__", "-": "__sub__", "*": "__mul__", "/": "__truediv__", "@": "__matmul__", "%": "__mod__",
          "**": "__pow__"}
RDUNDER = {"+": "__radd__", "-": "__rsub__", "*": "__rmul__"}


def val(ip, t, st):
    """value of a container reference for use inside a term"""
    if t.op == "ite":
        return tm.mapleaves(t, lambda x: val(ip, x, st))
    if t.op == "ref":
        k = ip.kinds[t][0]
        if k in ("list", "dict", "ddict"):
            return ip.content(t, st)
        if k == "array":
            return arr_norm(ip.content(t, st), ip.kinds[t][1])
        if k == "dok":
            return dok_form(ip.content(t, st))
        return t
    c = st.cells.get(("h", t))
    return c if c is not None else t


def binop(ip, op, a, b, st, fr):
    o = OPN[type(op)]
    return binop_s(ip, o, a, b, st, fr)


def binop_s(ip, o, a, b, st, fr):
    # lists
    ka, kb = ip.kind(a), ip.kind(b)
    if a.op == "ite" and any(x.op == "ref" for x in tm.leaves(a)):
        return ip.split(a, st, lambda x, s: binop_s(ip, o, x, b, s, fr))
    if b.op == "ite" and any(x.op == "ref" for x in tm.leaves(b)):
        return ip.split(b, st, lambda x, s: binop_s(ip, o, a, x, s, fr))
    if ka == "inst" or (a.op != "ref" and ip.objcls(a) is not None):
        f, owner = ip.w.find(ip.objcls(a), "methods", DUNDER.get(o, "?"))
        if f is not None:
            return ip.callfn(f, [a, b], {}, st, owner, a)
    if kb == "inst" or (b.op != "ref" and ip.objcls(b) is not None):
        f, owner = ip.w.find(ip.objcls(b), "methods", RDUNDER.get(o, "?"))
        if f is not None:
            return ip.callfn(f, [b, a], {}, st, owner, b)
    if ka == "set" or kb == "set":
        fz = _frz(ip, st)
        return app("set" + o, fz.freeze(a), fz.freeze(b))
    a, b = val(ip, a, st), val(ip, b, st)
    if a.op == "ref" or b.op == "ref":
        fz = _frz(ip, st)
        a, b = fz.freeze(a), fz.freeze(b)
    if o == "%" and (ty(a) == "str"):
        return fmt_percent(ip, a, b, st)
    return lift("op" + o, lambda x, y: arith(o, x, y), [a, b])


def islist(t):
    y = unopt(ty(t))
    return t.op in ("seq", "tuple") or (isinstance(y, tuple) and y[0] == "list")


def arith(o, a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if o == "+":
        if ty(a) == "str" or ty(b) == "str":
            return cat(a, b)
        if a.op == "tuple" and b.op == "tuple":
            return raw("tuple", *(a.a + b.a))
        if islist(a) and islist(b):
            return seqcat([a if a.op == "seq" else raw("spl", a), b if b.op == "seq" else raw("spl", b)])
        if a.op in ("seq",) and ty(b) in NUM or b.op == "seq" and ty(a) in NUM:
            return ew(o, a, b)
        if a.op == "seq" and isarr(b) or b.op == "seq" and isarr(a):
            return ew(o, a, b)
        return add(a, b)
    if o == "*":
        for x, y in ((a, b), (b, a)):
            if x.op == "seq" and ty(y) == "int" and len(x.a) == 1 and x.a[0].op == "one":
                # [e] * n
                e = x.a[0].a[0]
                v = fresh(y)
                return each(y, v, mkseq([e]))
            if ty(x) == "str" and ty(y) == "int":
                return app("repeat", x, y)
            if x.op == "seq":
                return ew(o, a, b)
        return mul(a, b)
    if o in ("-", "/") and (a.op == "seq" or b.op == "seq"):
        return ew(o, a, b)
    if o == "-":
        return sub(a, b)
    if o == "/":
        return div(a, b)
    if o == "**":
        if a.op == "seq":
            return ew(o, a, b)
        return power(a, b)
    if o == "//":
        if isnum(a) and isnum(b) and b.a[0] != 0:
            return C(a.a[0] // b.a[0])
        if b is ONE and ty(a) == "int":
            return a
        r = raw("app", "floor", div(a, b))
        if ty(a) == "int" and ty(b) == "int":
            r._ty = "int"
        return r
    if o == "%":
        if isnum(a) and isnum(b) and b.a[0] != 0:
            return C(a.a[0] % b.a[0])
        r = raw("app", "mod", a, b)
        if ty(a) == "int" and ty(b) == "int":
            r._ty = "int"
        return r
    if o == "@":
        return app("matmul", a, b)
    if isnum(a) and isnum(b) and a.a[0].denominator == 1 and b.a[0].denominator == 1:
        x, y = int(a.a[0]), int(b.a[0])
        try:
            return C({"<<": lambda: x << y, ">>": lambda: x >> y, "&": lambda: x & y, "|": lambda: x | y,
                      "^": lambda: x ^ y}[o]())
        except (KeyError, ValueError):
            pass
    if o == "<<":
        return mul(a, power(C(2), b))
    if tm.is_boolean(a) and tm.is_boolean(b):
        if o == "&":
            return band(a, b)
        if o == "|":
            return bor(a, b)
    if o in ("&", "|", "^") and b < a:
        a, b = b, a
    return app("op" + o, a, b)


def ew(o, a, b):
    """elementwise operation with a sequence operand"""
    xa = a.op == "seq" or isarr(a)
    xb = b.op == "seq" or isarr(b)
    n = length(a) if (a.op == "seq" or not xb) else length(b)
    if a.op == "seq" and b.op == "seq" and b < a and o in ("+", "*"):
        n = length(b) if length(b).id < length(a).id else n
    v = fresh(n)
    ea = arr_index(a, v) if xa else a
    eb = arr_index(b, v) if xb else b
    return each(n, v, mkseq([arith(o, ea, eb)]))


def fmt_percent(ip, a, b, st):
    if a.op == "c":
        import re
        args = list(b.a) if b.op == "tuple" else [b]
        parts = re.split(r"%[sd]", a.a[0])
        if len(parts) == len(args) + 1 and "%" not in "".join(parts):
            ps = [C(parts[0])]
            for x, p in zip(args, parts[1:]):
                ps += [ip.strval(x, st), C(p)]
            return cat(*ps)
    return app("strmod", a, b)


def fmt_format(ip, tmpl, args, kw, st):
    import string
    try:
        ps = []
        auto = 0
        for lt, field, spec, conv in string.Formatter().parse(tmpl):
            if lt:
                ps.append(C(lt))
            if field is None:
                continue
            if field == "":
                x = args[auto]
                auto += 1
            elif field.isdigit():
                x = args[int(field)]
            elif field in kw:
                x = kw[field]
            else:
                return None
            if spec:
                x = app("format", ip.strval(x, st), C(spec))
                ps.append(x)
            else:
                ps.append(ip.strval(x, st))
        return cat(*ps) if ps else C("")
    except (IndexError, ValueError, KeyError):
        return None


CMP = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}


def compare(ip, op, a, b, st, fr):
    if isinstance(op, (ast.In, ast.NotIn)):
        r = member(ip, a, b, st, fr)
        return bnot(r) if isinstance(op, ast.NotIn) else r
    if isinstance(op, (ast.Is, ast.IsNot)):
        r = identity(ip, a, b, st)
        return bnot(r) if isinstance(op, ast.IsNot) else r
    o = CMP[type(op)]
    if a.op == "ite" and any(x.op == "ref" for x in tm.leaves(a)):
        return ip.split(a, st, lambda x, s: compare(ip, op, x, b, s, fr))
    if b.op == "ite" and any(x.op == "ref" for x in tm.leaves(b)):
        return ip.split(b, st, lambda x, s: compare(ip, op, a, x, s, fr))
    cl = ip.objcls(a)
    if cl is not None and o in ("==", "!=", "<", "<=", ">", ">="):
        nm = {"==": "__eq__", "!=": "__ne__", "<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}[o]
        f, owner = ip.w.find(cl, "methods", nm)
        if f is not None:
            return ip.callfn(f, [a, b], {}, st, owner, a)
        if o == "!=":
            f, owner = ip.w.find(cl, "methods", "__eq__")
            if f is not None:
                return bnot(ip.truthy(ip.callfn(f, [a, b], {}, st, owner, a), st, fr))
    x, y = val(ip, a, st), val(ip, b, st)
    if x.op == "ref" or y.op == "ref":
        if x is y:
            return TRUE if o in ("==", "<=", ">=") else FALSE
        fz = _frz(ip, st)
        x, y = fz.freeze(x), fz.freeze(y)
    if o in ("==", "!="):
        # containers: emptiness comparison
        for p, q in ((x, y), (y, x)):
            if p.op in ("seq", "map") and not p.a:
                r = bnot(truth(q)) if islist(q) or q.op in ("seq", "map") else None
                if r is not None:
                    return r if o == "==" else bnot(r)
    if o in ("==", "<", "<=", ">", ">=", "!="):
        return cmp(o, x, y)


def identity(ip, a, b, st):
    if a.op == "ite" or b.op == "ite":
        return lift(None, lambda x, y: identity(ip, x, y, st), [a, b])
    if a is b:
        return TRUE
    if a.op == "ref" or b.op == "ref":
        return FALSE
    if NONE in (a, b) or (a.op == "enum" or b.op == "enum"):
        x, y = (a, b) if b is NONE or b.op == "enum" else (b, a)
        return tm.eqc(x, y)
    if a.op == "c" or b.op == "c":
        return cmp("==", a, b)
    return lit(raw("eq", *sorted((a, b))))


def member(ip, x, c, st, fr):
    if c.op == "ite" and any(q.op == "ref" for q in tm.leaves(c)):
        return ip.split(c, st, lambda q, s: member(ip, x, q, s, fr))
    cl = ip.objcls(c)
    if cl is not None:
        f, owner = ip.w.find(cl, "methods", "__contains__")
        if f is not None:
            return ip.callfn(f, [c, x], {}, st, owner, c)
    if c.op == "class" and ip.w.is_enum(ip.classes[c]):
        return TRUE
    v = val(ip, c, st)
    if v.op == "ref":
        if ip.kinds[v][0] == "set":
            v = ip.content(v, st)
        else:
            v = _frz(ip, st).freeze(v)
    if x.op == "ref":
        x = _frz(ip, st).freeze(x)
    if v.op == "app" and v.a[0] == "set" and len(v.a) == 2:
        v = v.a[1]
    return contains(v, x)


# ------------------------------------------------------------------ iteration
def toseq(ip, v, st, fr):
    if v.op == "ite":
        return ip.split(v, st, lambda x, s: toseq(ip, x, s, fr))
    if v.op == "ref":
        k = ip.kinds[v][0]
        c = ip.content(v, st)
        if k == "list":
            return c if c.op == "seq" else toseq(ip, c, st, fr)
        if k == "set":
            if c.op == "seq" and (len(c.a) <= 1 and all(s.op == "one" for s in c.a)):
                return c
            return spl(app("setiter", _frz(ip, st).freeze(v)))
        if k in ("dict", "ddict"):
            return toseq(ip, keys(c), st, fr)
        if k == "array":
            x = arr_norm(c, ip.kinds[v][1])
            return x if x.op == "seq" else spl(x)
        cls = ip.objcls(v)
        if cls is not None:
            f, owner = ip.w.find(cls, "methods", "__iter__")
            if f is not None:
                return toseq(ip, ip.callfn(f, [v], {}, st, owner, v), st, fr)
        return spl(_frz(ip, st).freeze(v))
    c = st.cells.get(("h", v), v)
    if c.op == "seq":
        return c
    if c.op == "tuple":
        return mkseq(c.a)
    if c.op == "range":
        return spl(c)
    if c.op == "c" and isinstance(c.a[0], str):
        return mkseq([C(x) for x in c.a[0]])
    if c.op == "map":
        return toseq(ip, keys(c), st, fr)
    y = unopt(ty(c))
    if isinstance(y, tuple):
        if y[0] == "dict":
            return toseq(ip, keys(c), st, fr)
        if y[0] == "tuple":
            return mkseq([idx(c, C(i)) for i in range(len(y) - 1)])
        if y[0] == "obj":
            cls = ip.w.cls(y[1])
            if cls is not None:
                f, owner = ip.w.find(cls, "methods", "__iter__")
                if f is not None:
                    return toseq(ip, ip.callfn(f, [v], {}, st, owner, v), st, fr)
    if c.op == "class" and ip.w.is_enum(ip.classes[c]):
        cl = ip.classes[c].full
        return mkseq([tm.enumc(cl, m) for m, _ in tm.ENUMS[cl]])
    if y == "any" and ip.simp(tm.isinst(c, "dict"), st) is TRUE:
        return toseq(ip, keys(c), st, fr)
    return spl(c)


def elem_each(seq, f):
    """map f over the elements of a sequence term (keeps filtering)"""
    out = []
    if seq.op == "ite":
        return ite(lit(seq.a[0]), elem_each(seq.a[1], f), elem_each(seq.a[2], f))
    for s in seq.a:
        if s.op == "one":
            out.append(raw("one", tm.mapleaves(s.a[0], lambda x: x if x is ABSENT else f(x))))
        elif s.op == "each":
            v = fresh(s.a[0])
            b = tm.openb(s, v)[0]
            out.append(each(s.a[0], v, elem_each(b if b.op in ("seq", "ite") else spl(b), f)))
        elif s.op == "spl":
            t = s.a[0]
            n = length(t)
            v = fresh(n)
            out.append(each(n, v, mkseq([f(idx(t, v))])))
        else:
            return None
    return seqcat(out)


def seq_sum(seq, zero=ZERO):
    if seq.op == "ite":
        return ite(lit(seq.a[0]), seq_sum(seq.a[1], zero), seq_sum(seq.a[2], zero))
    tot = zero
    for s in seq.a:
        if s.op == "one":
            tot = add(tot, tm.mapleaves(s.a[0], lambda x: ZERO if x is ABSENT else num(x)))
        elif s.op == "each":
            v = fresh(s.a[0])
            b = tm.openb(s, v)[0]
            tot = add(tot, tsum(s.a[0], v, seq_sum(b if b.op in ("seq", "ite") else spl(b))))
        elif s.op == "spl":
            t = s.a[0]
            n = length(t)
            v = fresh(n)
            tot = add(tot, tsum(n, v, num(arr_index(t, v))))
        else:
            return None
    return tot


def num(x):
    return tm.num(x)


def seq_exists(seq, f):
    if seq.op == "ite":
        return ite(lit(seq.a[0]), seq_exists(seq.a[1], f), seq_exists(seq.a[2], f))
    r = FALSE
    for s in seq.a:
        if s.op == "one":
            p = tm.pres(s.a[0])
            r = bor(r, band(p, f(tm.strip_absent(s.a[0]))))
        elif s.op == "each":
            v = fresh(s.a[0])
            b = tm.openb(s, v)[0]
            r = bor(r, exists(s.a[0], v, seq_exists(b if b.op in ("seq", "ite") else spl(b), f)))
        elif s.op == "spl":
            n = length(s.a[0])
            v = fresh(n)
            r = bor(r, exists(n, v, f(idx(s.a[0], v))))
        else:
            return lit(raw("b", raw("app", "any", seq)))
    return r


def mkrange(a, b, s):
    if s is not ONE:
        if s is C(-1):
            # descending
            n = sub(a, b)
            v = fresh(n)
            return each(n, v, mkseq([sub(a, v)]))
        if isnum(a) and isnum(b) and isnum(s) and s.a[0] != 0:
            r = range(int(a.a[0]), int(b.a[0]), int(s.a[0]))
            if len(r) <= 8:
                return mkseq([C(i) for i in r])
        return app("range", a, b, s)
    if isnum(a) and isnum(b):
        k = b.a[0] - a.a[0]
        if k <= 0:
            return raw("seq")
        if k <= 8:
            return mkseq([C(i) for i in range(int(a.a[0]), int(b.a[0]))])
    if b.op == "ite":
        return ite(lit(b.a[0]), mkrange(a, b.a[1], s), mkrange(a, b.a[2], s))
    if a.op == "ite":
        return ite(lit(a.a[0]), mkrange(a.a[1], b, s), mkrange(a.a[2], b, s))
    if a is ZERO:
        # range(v + c) below a bound variable v of range n: guarded form over n
        r = _bound_range(b)
        if r is not None:
            n, v = r
            w = fresh(n)
            return each(n, w, mkseq([ite(cmp("<", w, b), w, ABSENT)]))
        return raw("range", b)
    if cmp("<=", ZERO, a) is TRUE:
        r = _bound_range(b)
        n = b if r is None else r[0]
        if r is not None or not isnum(a):
            w = fresh(n)
            g = cmp("<=", a, w)
            if r is not None:
                g = band(g, cmp("<", w, b))
            return each(n, w, mkseq([ite(g, w, ABSENT)]))
    n = sub(b, a)
    v = fresh(n)
    return each(n, v, mkseq([add(a, v)]))


def _bound_range(b):
    """b = v + c (c <= 1) with v a bound index: enclosing range"""
    if b.op == "v" and b.a[0] in tm.vrange:
        return tm.vrange[b.a[0]], b
    if b.op == "poly":
        d = tm._pd(b)
        vs = [m for m in d if m]
        if len(vs) == 1 and len(vs[0]) == 1 and vs[0][0][0].op == "v" and vs[0][0][1] == 1 and d[vs[0]] == 1:
            v = vs[0][0][0]
            c = d.get((), 0)
            if v.a[0] in tm.vrange and c <= 1:
                return tm.vrange[v.a[0]], v
    return None


# ------------------------------------------------------------------ methods
PURE_STR = {"strip", "lstrip", "rstrip", "split", "splitlines", "lower", "upper", "replace", "startswith", "endswith",
            "rjust", "ljust", "zfill", "isdigit", "isprintable", "isspace", "index", "find", "count", "title", "encode",
            "partition", "rsplit", "isalnum", "isalpha", "isnumeric", "casefold"}


def method(ip, recv, name, args, kw, st, fr, discard=False):
    if recv.op == "ite":
        return ip.split(recv, st, lambda x, s: method(ip, x, name, args, kw, s, fr, discard))
    if recv is UNDEF:
        return UNDEF
    kind = ip.kind(recv)
    c = ip.content(recv, st)
    y = unopt(ty(recv))
    if y == "str" or recv.op == "cat":
        return str_method(ip, recv, name, args, kw, st, fr)
    if kind == "list" or (kind is None and (islist(recv) or c.op == "seq")):
        r = list_method(ip, recv, c, name, args, kw, st, fr)
        if r is not None:
            return r
    if kind in ("dict", "ddict") or (kind is None and (c.op == "map" or (isinstance(y, tuple) and y[0] == "dict"))):
        r = dict_method(ip, recv, c, name, args, kw, st, fr)
        if r is not None:
            return r
    if kind == "set":
        r = set_method(ip, recv, c, name, args, kw, st, fr)
        if r is not None:
            return r
    if kind is None and y == "any" and name in ("items", "keys", "values") and not args and recv.op != "ext":
        # only mappings answer these
        r = dict_method(ip, recv, c, name, args, kw, st, fr)
        if r is not None:
            return r
    if kind == "array" or isarr(c) or c.op == "seq":
        r = arr_method(ip, recv, c, name, args, kw, st, fr)
        if r is not None:
            return r
    if kind == "dok" and name in ("items", "keys", "values", "get"):
        r = dict_method(ip, recv, c, name, args, kw, st, fr)
        if r is not None:
            return r
    if y in NUM and name == "is_integer":
        if y == "int":
            return TRUE
        return lit(raw("b", raw("app", ".is_integer", c)))
    if name == "append" and discard and len(args) == 1:
        cc = c if c.op == "seq" else raw("spl", c)
        ip.setcontent(recv, seqcat([cc, raw("one", args[0])]), st)
        return NONE
    fz = _frz(ip, st)
    fa = [fz.freeze(a) for a in args]
    fk = [raw("kw", k, fz.freeze(v)) for k, v in sorted(kw.items())]
    rv = fz.freeze(recv)
    r = app("." + name, rv, *fa, *fk)
    if kind == "dok" and discard and name != "resize":
        st.cells[("h", recv)] = raw("map", raw("splm", r))
        return NONE
    if name == "resize" and discard and (recv.op != "ref" or kind == "dok"):
        # padding with zeros: idempotent, kept as the last requested shape
        st.cells[("f", recv, "#shape")] = raw("tuple", *fa)
        return NONE
    if discard:
        ip.event(recv, name, list(args) + [raw("kw", k, v) for k, v in sorted(kw.items())], st)
    return r


def str_method(ip, recv, name, args, kw, st, fr):
    if name == "format" and recv.op == "c":
        r = fmt_format(ip, recv.a[0], args, kw, st)
        if r is not None:
            return r
    if name == "join" and len(args) == 1:
        s = toseq(ip, args[0], st, fr)
        if s.op == "seq" and all(x.op == "one" and not tm._has_absent(x.a[0]) for x in s.a):
            ps = []
            for i, x in enumerate(s.a):
                if i:
                    ps.append(recv)
                ps.append(x.a[0])
            return cat(*ps) if ps else C("")
        return with_ty(app("join", recv, s), "str")
    a = [val(ip, x, st) for x in args]
    if recv.op == "c" and all(x.op == "c" and isinstance(x.a[0], (str, Fr)) for x in a) and not kw:
        try:
            r = getattr(recv.a[0], name)(*[int(x.a[0]) if isinstance(x.a[0], Fr) else x.a[0] for x in a])
            if isinstance(r, (str, bool, int)):
                return C(r)
            if isinstance(r, list):
                return ip.newref(("list",), st, mkseq([C(x) for x in r]))
        except Exception:
            pass
    fz = _frz(ip, st)
    r = app("." + name, recv, *[fz.freeze(x) for x in a], *[raw("kw", k, fz.freeze(v)) for k, v in sorted(kw.items())])
    t = {"split": ("list", "str"), "splitlines": ("list", "str"), "index": "int", "find": "int", "count": "int"}.get(name)
    if t is None:
        t = "bool" if name.startswith("is") or name in ("startswith", "endswith") else "str"
    r = with_ty(r, t)
    if t == "bool":
        return lit(raw("b", r)) if r.op != "ite" else r
    return r


def with_ty(t, y):
    if t.op != "ite" and t._ty in (None, "any"):
        t._ty = y
    return t


def list_method(ip, recv, c, name, args, kw, st, fr):
    cc = c if c.op == "seq" else (spl(c) if c.op != "tuple" else mkseq(c.a))
    if name == "append":
        ip.setcontent(recv, seqcat([cc, raw("one", args[0])]), st)
        return NONE
    if name == "extend":
        ip.setcontent(recv, seqcat([cc, toseq(ip, args[0], st, fr)]), st)
        return NONE
    if name == "insert" and args[0] is ZERO:
        ip.setcontent(recv, seqcat([raw("one", args[1]), cc]), st)
        return NONE
    if name == "clear":
        ip.setcontent(recv, raw("seq"), st)
        return NONE
    if name == "copy":
        return ip.newref(("list",), st, cc)
    if name == "reverse":
        ip.setcontent(recv, spl(reverse(cc)), st)
        return NONE
    if name == "sort":
        ip.setcontent(recv, spl(do_sorted(ip, cc, kw, st, fr)), st)
        return NONE
    if name == "index" and len(args) == 1:
        return with_ty(app("index", cc, args[0]), "int")
    if name == "count":
        return None
    if name == "pop":
        if not args:
            k = C(-1)
        else:
            k = args[0]
        r = idx(cc, k)
        if cc.op == "seq" and cc.a and k is C(-1) and cc.a[-1].op == "one":
            ip.setcontent(recv, raw("seq", *cc.a[:-1]), st)
        elif cc.op == "seq" and cc.a and k is ZERO and cc.a[0].op == "one":
            ip.setcontent(recv, raw("seq", *cc.a[1:]), st)
        else:
            ip.setcontent(recv, spl(app("popped", cc, k)), st)
        return r
    if name == "remove":
        ip.setcontent(recv, spl(app("removed", cc, args[0])), st)
        return NONE
    if name == "tolist":
        return ip.newref(("list",), st, cc)
    return None


def do_sorted(ip, s, kw, st, fr):
    fz = _frz(ip, st)
    s = fz.freeze(s)
    rev = kw.get("reverse", FALSE)
    key = kw.get("key")
    kt = []
    if key is not None:
        if key.op in ("clo", "func", "bound"):
            v = fresh()
            # element type
            e = unopt(ty(s))
            if isinstance(e, tuple) and e[0] == "list":
                v._ty = e[1]
            s2 = st.copy()
            s2.pc = TRUE
            ip._raised.append([])
            try:
                b = ip.callv(key, [v], {}, s2, fr)
                b = _frz(ip, s2).freeze(b)
            finally:
                ip._raised.pop()
            if b is not v:
                kt = [tm.close("lam", ZERO, v, b)]
        else:
            kt = [fz.freeze(key)]
    if s.op == "seq" and all(x.op == "one" and isnum(x.a[0]) for x in s.a) and not kt and rev in (TRUE, FALSE):
        return mkseq(sorted((x.a[0] for x in s.a), key=lambda z: z.a[0], reverse=rev is TRUE))
    r = app("sorted", s, truth(rev), *kt)
    if r.op == "app":
        r._ty = ty(s) if s.op in ("seq",) or isinstance(ty(s), tuple) else ("list", "any")
    return r


def dict_method(ip, recv, c, name, args, kw, st, fr):
    if name == "items":
        return tm.items(c)
    if name == "keys":
        return keys(c)
    if name == "values":
        return tm.values(c)
    if name == "get":
        d = args[1] if len(args) > 1 else kw.get("default", NONE)
        d = val(ip, d, st)
        return get(c, args[0], d)
    if name == "copy":
        k = ip.kinds[recv] if recv.op == "ref" else ("dict",)
        return ip.newref(k, st, c if c.op == "map" else mapcat([raw("splm", c)]))
    base = c if c.op == "map" else raw("splm", c)
    if name == "update":
        segs = [base]
        for a in args:
            x = ip.content(a, st)
            if x.op in ("map",):
                segs.append(x)
            elif x.op == "ite":
                segs = [mapcat(segs)]
                u = tm.mapleaves(x, lambda z: mapcat([z if z.op == "map" else raw("splm", z)]))
                if u.op == "map":
                    segs.append(u)
                else:
                    segs.append(raw("splm", u))
            else:
                segs.append(raw("splm", x))
        for k, v in kw.items():
            segs.append(raw("set", C(k), v))
        ip.setcontent(recv, mapcat(segs), st)
        return NONE
    if name == "setdefault":
        d = args[1] if len(args) > 1 else NONE
        h = contains(c, args[0])
        g = get(c, args[0])
        if h is TRUE:
            return g
        ip.setcontent(recv, mapcat([base, raw("set", args[0], ite(h, ABSENT, d))]), st)
        return ite(h, g, d)
    if name == "pop":
        r = get(c, args[0], *[args[1]] if len(args) > 1 else [])
        ip.setcontent(recv, mapcat([base, raw("del", args[0])]), st)
        return r
    if name == "clear":
        ip.setcontent(recv, raw("map"), st)
        return NONE
    return None


def set_method(ip, recv, c, name, args, kw, st, fr):
    if name == "add":
        x = args[0]
        if c.op == "seq" and any(s.op == "one" and s.a[0] is x for s in c.a):
            return NONE
        ip.setcontent(recv, seqcat([c, raw("one", x)]), st)
        return NONE
    if name == "update":
        for a in args:
            c = seqcat([c, toseq(ip, a, st, fr)])
        ip.setcontent(recv, c, st)
        return NONE
    if name == "copy":
        return ip.newref(("set",), st, c)
    if name in ("discard", "remove"):
        ip.setcontent(recv, spl(app("removed", c, args[0])), st)
        return NONE
    if name == "clear":
        ip.setcontent(recv, raw("seq"), st)
        return NONE
    return None


def arr_method(ip, recv, c, name, args, kw, st, fr):
    v = val(ip, recv, st)
    if name in ("tolist",):
        return ip.newref(("list",), st, v if v.op == "seq" else spl(v))
    if name == "copy" and not args:
        return v
    if name == "transpose" and not args:
        return transpose(v)
    if name == "dot" and len(args) == 1:
        return npdot(v, val(ip, args[0], st))
    if name == "sum" and not args and not kw:
        r = seq_sum(v if v.op == "seq" else spl(v)) if not is_matrix(v) else None
        return r if r is not None else app("npsum", v)
    if name == "fill" and recv.op == "ref" and ip.kinds[recv][0] == "array":
        dims = ip.kinds[recv][1]
        ip.setcontent(recv, raw("map", raw("splm", raw("app", "full", args[0], raw("tuple", *dims)))), st)
        return NONE
    if name in ("append", "extend", "sort", "put", "resize"):
        return None
    if name == "astype":
        return v
    return None


def is_matrix(v):
    if v.op == "seq" and len(v.a) == 1 and _plain_each(v.a[0]):
        x = v.a[0].a[1].a[0].a[0]
        return x.op == "seq"
    return False


def npdot(a, b):
    va = a.op == "seq" and not is_matrix(a)
    vb = b.op == "seq" and not is_matrix(b)
    if va and vb:
        n = length(a)
        v = fresh(n)
        return tsum(n, v, mul(arr_index(a, v), arr_index(b, v)))
    return app("matmul", a, b)


# ------------------------------------------------------------------ functions
FLOATC = {"math.inf": "inf", "numpy.inf": "inf", "numpy.pi": "pi", "math.pi": "pi"}

ALIAS = {
    "numpy.abs": "abs", "numpy.absolute": "abs", "builtins.abs": "abs", "math.fabs": "abs",
    "math.floor": "floor", "numpy.floor": "floor", "math.ceil": "ceil", "numpy.ceil": "ceil",
    "math.sqrt": "sqrt", "numpy.sqrt": "sqrt", "math.log": "log", "numpy.log": "log",
    "math.log2": "log2", "numpy.log2": "log2", "math.fsum": "sum", "builtins.sum": "sum",
    "numpy.rint": "rint", "numpy.round": "round", "builtins.round": "round",
    "math.pow": "pow", "builtins.pow": "pow", "numpy.power": "pow",
}


def ext_attr(ip, o, name):
    full = o.a[0] + "." + name
    if full in FLOATC:
        return raw("sym", FLOATC[full])
    return raw("ext", full)


def extcall(ip, name, args, kw, st, fr, discard=False):
    short = ALIAS.get(name)
    if short is None and name.startswith("builtins."):
        short = name[9:]
    if short is not None:
        f = globals().get("f_" + short)
        if f is not None:
            r = f(ip, args, kw, st, fr)
            if r is not None:
                return r
    f = EXT.get(name)
    if f is not None:
        r = f(ip, args, kw, st, fr)
        if r is not None:
            return r
    if short is not None and short.endswith(("Error", "Exception", "Warning")):
        return raw("app", "exc", C(short))
    last = name.split(".")[-1]
    if last.endswith(("Error", "Exception")):
        return raw("app", "exc", C(last))
    if name.startswith(("logging.getLogger",)):
        return raw("app", "call:logging.getLogger")
    if last[:1].isupper() and not name.startswith("builtins.") and not last.isupper():
        o = ip.newref(("ext", last), st, raw("seq"))
        ip.event(o, "__init__", list(args) + [raw("kw", k, v) for k, v in sorted(kw.items())], st)
        return o
    fz = _frz(ip, st)
    fa = [fz.freeze(a) for a in args]
    fk = [raw("kw", k, fz.freeze(v)) for k, v in sorted(kw.items())]
    nm = canon_name(name)
    r = app("call:" + nm, *fa, *fk)
    if discard:
        ip.event(raw("ext", nm), "()", list(args) + [raw("kw", k, v) for k, v in sorted(kw.items())], st)
    if r.op == "app":
        t = tm.CALL_TY.get("call:" + nm)
        if t:
            r._ty = t
    return r


def canon_name(name):
    if name.startswith("builtins."):
        return name[9:]
    return name


def f_len(ip, args, kw, st, fr):
    a = args[0]
    if a.op == "ite" and any(x.op == "ref" for x in tm.leaves(a)):
        return ip.split(a, st, lambda x, s: f_len(ip, [x], kw, s, fr))
    cl = ip.objcls(a)
    if cl is not None:
        f, owner = ip.w.find(cl, "methods", "__len__")
        if f is not None:
            return ip.callfn(f, [a], {}, st, owner, a)
    if a.op == "ref":
        k = ip.kinds[a][0]
        if k == "array":
            return ip.kinds[a][1][0]
        if k == "set":
            c = ip.content(a, st)
            if c.op == "seq" and not c.a:
                return ZERO
            return with_ty(app("len", _frz(ip, st).freeze(a)), "int")
        if k in ("ext", "dok"):
            return with_ty(app("len", _frz(ip, st).freeze(a)), "int")
        return length(ip.content(a, st))
    return length(ip.content(a, st))


def _isintlike(t):
    return ty(t) in ("int", "bool")


def f_range(ip, args, kw, st, fr):
    if len(args) == 1:
        return mkrange(ZERO, args[0], ONE)
    return mkrange(args[0], args[1], args[2] if len(args) > 2 else ONE)


def indexed(seq):
    """enumerate with exact positions; None if filtering makes positions inexact"""
    if seq.op == "ite":
        a, b = indexed(seq.a[1]), indexed(seq.a[2])
        return None if a is None or b is None else ite(lit(seq.a[0]), a, b)
    off = ZERO
    out = []
    for s in seq.a:
        if s.op == "one" and not tm._has_absent(s.a[0]):
            out.append(raw("one", raw("tuple", off, s.a[0])))
            off = add(off, ONE)
        elif s.op == "spl":
            n = length(s.a[0])
            v = fresh(n)
            out.append(each(n, v, mkseq([raw("tuple", add(off, v), idx(s.a[0], v))])))
            off = add(off, n)
        elif _plain_each(s):
            v = fresh(s.a[0])
            x = tm.openb(s, v)[0].a[0].a[0]
            out.append(each(s.a[0], v, mkseq([raw("tuple", add(off, v), x)])))
            off = add(off, s.a[0])
        else:
            return None
    return seqcat(out)


def f_enumerate(ip, args, kw, st, fr):
    s = toseq(ip, args[0], st, fr)
    start = args[1] if len(args) > 1 else kw.get("start", ZERO)
    r = indexed(s)
    if r is None:
        n = length(s)
        v = fresh(n)
        return each(n, v, mkseq([raw("tuple", add(start, v), raw("idx", s, v))]))
    if start is not ZERO:
        r = elem_each(r, lambda x: raw("tuple", add(start, x.a[0]), x.a[1]))
    return r


def f_zip(ip, args, kw, st, fr):
    ss = [toseq(ip, a, st, fr) for a in args]
    if any(s.op == "ite" for s in ss):
        return lift("zip", lambda *x: zip_(list(x)), ss)
    return zip_(ss)


def zip_(ss):
    if all(s.op == "seq" and all(x.op == "one" and not tm._has_absent(x.a[0]) for x in s.a) for s in ss):
        return mkseq([raw("tuple", *[x.a[0] for x in xs]) for xs in zip(*[s.a for s in ss])])
    ns = [length(s) for s in ss]
    n = ns[0]
    for m in ns[1:]:
        if m is not n and cmp("<", m, n) is TRUE:
            n = m
    v = fresh(n)
    return each(n, v, mkseq([raw("tuple", *[idx(s, v) for s in ss])]))


def f_sum(ip, args, kw, st, fr):
    if len(args) >= 1:
        s = toseq(ip, args[0], st, fr)
        start = args[1] if len(args) > 1 else kw.get("start", ZERO)
        y = ty(start)
        if islist(start):
            return None
        # objects with __add__: fold
        r = seq_sum(s, start)
        return r


def f_any(ip, args, kw, st, fr):
    return seq_exists(toseq(ip, args[0], st, fr), lambda x: ip.truthy(x, st, fr))


def f_all(ip, args, kw, st, fr):
    return bnot(seq_exists(toseq(ip, args[0], st, fr), lambda x: bnot(ip.truthy(x, st, fr))))


def _minmax(ip, args, kw, st, fr, mx):
    if kw and not set(kw) <= {"default"}:
        nm = "max" if mx else "min"
        if "key" in kw and len(args) == 1:
            s = toseq(ip, args[0], st, fr)
            srt = do_sorted(ip, s, {"key": kw["key"]}, st, fr)
            if srt.op == "app":
                return app(nm + "by", *srt.a[1:])
        return None
    f = tm.tmax if mx else tm.tmin
    if len(args) > 1:
        r = val(ip, args[0], st)
        for a in args[1:]:
            r = f(r, val(ip, a, st))
        return r
    s = toseq(ip, args[0], st, fr)
    if s.op == "seq" and s.a and all(x.op == "one" and not tm._has_absent(x.a[0]) for x in s.a):
        r = s.a[0].a[0]
        for x in s.a[1:]:
            r = f(r, x.a[0])
        return r
    fz = _frz(ip, st)
    r = app("max" if mx else "min", fz.freeze(s), *([fz.freeze(kw["default"])] if "default" in kw else []))
    if r.op == "app":
        e = ty(s)
        r._ty = "int" if isinstance(e, tuple) and e[0] == "list" and e[1] == "int" else "num"
    return r


def f_min(ip, args, kw, st, fr):
    return _minmax(ip, args, kw, st, fr, False)


def f_max(ip, args, kw, st, fr):
    return _minmax(ip, args, kw, st, fr, True)


def f_abs(ip, args, kw, st, fr):
    a = val(ip, args[0], st)
    if a.op == "seq" or isarr(a):
        n = length(a)
        v = fresh(n)
        if is_matrix(a):
            return None
        return each(n, v, mkseq([tm.tabs(arr_index(a, v))]))
    return tm.tabs(a)


def _unary(name, a, t="num"):
    def g(x):
        if isnum(x):
            import math
            if name == "floor":
                return C(math.floor(x.a[0]))
            if name == "ceil":
                return C(math.ceil(x.a[0]))
            if name == "sqrt" and x.a[0] >= 0:
                p, q = math.isqrt(x.a[0].numerator), math.isqrt(x.a[0].denominator)
                if p * p == x.a[0].numerator and q * q == x.a[0].denominator:
                    return C(Fr(p, q))
        if name in ("floor", "ceil", "rint") and ty(x) == "int":
            return x
        if name == "sqrt":
            return power(x, C(Fr(1, 2)))
        r = raw("app", name, x)
        r._ty = t
        return r
    return lift("un" + name, g, [a])


def f_floor(ip, args, kw, st, fr):
    return _unary("floor", val(ip, args[0], st), "int")


def f_ceil(ip, args, kw, st, fr):
    return _unary("ceil", val(ip, args[0], st), "int")


def f_sqrt(ip, args, kw, st, fr):
    return _unary("sqrt", val(ip, args[0], st))


def f_log(ip, args, kw, st, fr):
    a = [val(ip, x, st) for x in args]
    if len(a) == 2:
        return div(_unary("log", a[0]), _unary("log", a[1]))
    return _unary("log", a[0])


def f_log2(ip, args, kw, st, fr):
    return div(_unary("log", val(ip, args[0], st)), _unary("log", C(2)))


def f_rint(ip, args, kw, st, fr):
    return None


def f_round(ip, args, kw, st, fr):
    if len(args) == 1 and not kw and ty(args[0]) == "int":
        return args[0]
    return None


def f_pow(ip, args, kw, st, fr):
    return power(args[0], args[1]) if len(args) == 2 else None


def f_sorted(ip, args, kw, st, fr):
    r = do_sorted(ip, toseq(ip, args[0], st, fr), kw, st, fr)
    return ip.newref(("list",), st, r if r.op == "seq" else spl(r))


def f_reversed(ip, args, kw, st, fr):
    a = args[0]
    if ty(a) == "str":
        return reverse(a)
    return reverse(toseq(ip, a, st, fr))


def f_list(ip, args, kw, st, fr):
    if not args:
        return ip.newref(("list",), st, raw("seq"))
    a = args[0]
    s = toseq(ip, a, st, fr)
    if s.op == "ite":
        return tm.mapleaves(s, lambda x: ip.newref(("list",), st, x))
    return ip.newref(("list",), st, s)


def f_tuple(ip, args, kw, st, fr):
    if not args:
        return raw("tuple")
    s = toseq(ip, args[0], st, fr)
    if s.op == "seq" and all(x.op == "one" and not tm._has_absent(x.a[0]) for x in s.a):
        return raw("tuple", *[x.a[0] for x in s.a])
    return s


def f_dict(ip, args, kw, st, fr):
    segs = []
    for a in args:
        x = ip.content(a, st)
        y = unopt(ty(x))
        if x.op == "map":
            segs.append(x)
        elif isinstance(y, tuple) and y[0] == "dict":
            segs.append(raw("splm", x))
        else:
            s = toseq(ip, a, st, fr)
            m = seq2map(s)
            if m is None:
                segs.append(raw("splm", app("dict", s)))
            else:
                segs.append(m)
    for k, v in kw.items():
        segs.append(raw("set", C(k), v) if k != "**" else raw("splm", v))
    return ip.newref(("dict",), st, mapcat(segs))


def seq2map(s):
    if s.op != "seq":
        return None
    out = []
    for x in s.a:
        if x.op == "one":
            e = x.a[0]
            k = idx(tm.strip_absent(e), ZERO)
            v = tm.mapleaves(e, lambda q: ABSENT if q is ABSENT else idx(q, ONE))
            if k.op == "ite":
                return None
            out.append(raw("set", k, v))
        elif x.op == "each":
            v = fresh(x.a[0])
            b = tm.openb(x, v)[0]
            m = seq2map(b)
            if m is None:
                return None
            out.append(eachm(x.a[0], v, m))
        elif x.op == "spl":
            n = length(x.a[0])
            v = fresh(n)
            e = idx(x.a[0], v)
            out.append(eachm(n, v, raw("map", raw("set", idx(e, ZERO), idx(e, ONE)))))
    return mapcat(out)


def f_set(ip, args, kw, st, fr):
    if not args:
        return ip.newref(("set",), st, raw("seq"))
    return ip.newref(("set",), st, toseq(ip, args[0], st, fr))


f_frozenset = f_set


def f_int(ip, args, kw, st, fr):
    if not args:
        return ZERO
    if len(args) > 1 or kw:
        return with_ty(app("int", *args, *[raw("kw", k, v) for k, v in sorted(kw.items())]), "int")

    def g(x):
        if x.op == "c" and isinstance(x.a[0], Fr):
            return C(int(x.a[0]))
        if x.op == "c" and isinstance(x.a[0], bool):
            return C(int(x.a[0]))
        if ty(x) == "int":
            return x
        r = raw("app", "int", x)
        r._ty = "int"
        return r
    return lift("int", g, [val(ip, args[0], st)])


def f_float(ip, args, kw, st, fr):
    def g(x):
        if x.op == "c" and isinstance(x.a[0], str):
            s = x.a[0].lower().strip("+")
            return sym("inf") if s in ("inf", "infinity") else (neg(sym("inf")) if s in ("-inf",) else app("float", x))
        if ty(x) in NUM:
            return x
        if ty(x) == "any":
            return x
        r = raw("app", "float", x)
        r._ty = "num"
        return r
    return lift("float", g, [val(ip, args[0], st)]) if args else ZERO


def f_str(ip, args, kw, st, fr):
    if not args:
        return C("")
    return ip.strval(args[0], st)


def f_bool(ip, args, kw, st, fr):
    return ip.truthy(args[0], st, fr) if args else FALSE


def f_isinstance(ip, args, kw, st, fr):
    o, k = args
    if k.op == "tuple":
        r = FALSE
        for x in k.a:
            r = bor(r, f_isinstance(ip, [o, x], {}, st, fr))
        return r
    if o.op == "ite":
        return lift(None, lambda x: f_isinstance(ip, [x, k], {}, st, fr), [o])
    cn = clsname(k)
    if o.op == "ref":
        kd = ip.kinds[o]
        if kd[0] in ("list", "dict", "set"):
            return TRUE if cn == kd[0] or cn.endswith(("Sequence", "Iterable")) and kd[0] == "list" else FALSE
        if kd[0] == "ddict":
            return TRUE if cn in ("dict", "collections.defaultdict") else FALSE
        if kd[0] == "array":
            return TRUE if cn == "numpy.ndarray" else FALSE
        if kd[0] == "inst":
            cls = ip.w.cls(kd[1])
            if cls is not None:
                ip.register_class(cls)
            return TRUE if cn in tm.CLASS_MRO.get(kd[1], {kd[1]}) else FALSE
        if kd[0] == "dok" and cn.startswith("scipy.sparse."):
            return TRUE if cn.endswith((".spmatrix", ".dok_matrix")) else FALSE
        if kd[0] == "dok":
            return lit(raw("isinst", dok_base(_frz(ip, st).freeze(o)), cn)) if cn == "dict" else FALSE
        if kd[0] == "ext":
            return TRUE if cn.split(".")[-1] == kd[1] else lit(raw("isinst", _frz(ip, st).freeze(o), cn))
    if o.op in ("clo", "func", "bound", "class"):
        return FALSE
    return tm.isinst(o, cn)


def clsname(k):
    if k.op == "class":
        return k.a[0]
    if k.op == "ext":
        n = k.a[0]
        return n[9:] if n.startswith("builtins.") else n
    return tm.show(k)


def f_type(ip, args, kw, st, fr):
    cl = ip.objcls(args[0])
    if cl is not None and args[0].op == "ref":
        return ip.class_term(cl)
    return None


def f_map(ip, args, kw, st, fr):
    s = toseq(ip, args[1], st, fr)
    f = args[0]
    node = ast.For(target=None, iter=None, body=[], orelse=[])
    node._comp = True
    acc = ip.newref(("list",), st, raw("seq"))
    f2 = ip.newframe(fr.fn, fr.mod, fr.cls, fr)

    def body(x, e):
        v = ip.callv(f, [e], {}, x, f2)
        ip.setcontent(acc, seqcat([ip.content(acc, x), raw("one", v)]), x)
        return x
    r = ip.loop_segs(s, st, f2, body, node)
    if r is not None and r is not st:
        st.cells, st.pc = r.cells, r.pc
    return acc


def f_filter(ip, args, kw, st, fr):
    s = toseq(ip, args[1], st, fr)
    f = args[0]
    node = ast.For(target=None, iter=None, body=[], orelse=[])
    node._comp = True
    acc = ip.newref(("list",), st, raw("seq"))
    f2 = ip.newframe(fr.fn, fr.mod, fr.cls, fr)

    def body(x, e):
        c = ip.truthy(e if f is NONE else ip.callv(f, [e], {}, x, f2), x, f2)
        ip.setcontent(acc, seqcat([ip.content(acc, x), raw("one", ite(c, e, ABSENT))]), x)
        return x
    r = ip.loop_segs(s, st, f2, body, node)
    if r is not None and r is not st:
        st.cells, st.pc = r.cells, r.pc
    return acc


def f_getattr(ip, args, kw, st, fr):
    if args[1].op == "c":
        if len(args) == 2:
            return ip.getattr(args[0], args[1].a[0], st, fr)
        v = ip.getattr(args[0], args[1].a[0], st, fr)
        if v.op == "attr":
            return ite(lit(raw("b", raw("app", "hasattr", _frz(ip, st).freeze(args[0]), args[1]))), v, args[2])
        return v
    return None


def f_setattr(ip, args, kw, st, fr):
    if args[1].op == "c":
        ip.setattr(args[0], args[1].a[0], args[2], st, fr)
        return NONE
    return None


def f_print(ip, args, kw, st, fr):
    return NONE


def f_iter(ip, args, kw, st, fr):
    return args[0]


def f_next(ip, args, kw, st, fr):
    s = toseq(ip, args[0], st, fr)
    if s.op == "seq" and s.a and s.a[0].op == "one" and not tm._has_absent(s.a[0].a[0]):
        return s.a[0].a[0]
    fz = _frz(ip, st)
    return app("next", fz.freeze(s), *[fz.freeze(x) for x in args[1:]])


def f_callable(ip, args, kw, st, fr):
    if args[0].op in ("clo", "func", "bound", "class"):
        return TRUE
    if args[0] is NONE:
        return FALSE
    return None


def f_divmod(ip, args, kw, st, fr):
    return raw("tuple", arith("//", args[0], args[1]), arith("%", args[0], args[1]))


# ---- other libraries
def deepcopy(ip, args, kw, st, fr):
    a = args[0]
    return tm.mapleaves(a, lambda x: _copy1(ip, x, st, True)) if a.op == "ite" else _copy1(ip, a, st, True)


def shallow(ip, args, kw, st, fr):
    a = args[0]
    return tm.mapleaves(a, lambda x: _copy1(ip, x, st, False)) if a.op == "ite" else _copy1(ip, a, st, False)


def _copy1(ip, x, st, deep, seen=None):
    seen = {} if seen is None else seen
    if x in seen:
        return seen[x]
    if x.op == "ref":
        k = ip.kinds[x]
        if k[0] in ("list", "dict", "ddict", "set", "array", "ext", "dok"):
            c = st.cells.get(("h", x), raw("seq"))
            n = ip.newref(k, st, c)
            seen[x] = n
            if deep and k[0] in ("list", "dict", "ddict"):
                st.cells[("h", n)] = tm.replace(c, {r: _copy1(ip, r, st, True, seen) for r in _refs(c)})
            return n
        n = ip.newref(k, st)
        seen[x] = n
        for key, v in list(st.cells.items()):
            if key[0] == "f" and key[1] is x:
                if deep:
                    m = {r: _copy1(ip, r, st, True, seen) for r in _refs(v)}
                    v = tm.replace(v, m) if m else v
                st.cells[("f", n, key[2])] = v
        return n
    if x.op in ("c", "enum", "ext", "class", "func"):
        return x
    y = unopt(ty(x))
    if y in NUM or y == "str":
        return x
    if isinstance(y, tuple) and y[0] == "enum":
        return x
    # symbolic structure: a private copy
    k = sum(1 for o in ip.copies.values() if o is x)
    s = sym("copy<%d>#%d" % (x.id, k))
    s._ty = ty(x)
    ip.copies[s] = x
    ip._needmemo = {}
    # carry over modifications
    for key, v in list(st.cells.items()):
        if key[0] in ("f", "h") and key[1].op != "ref" and (key[1] is x or ip.root(key[1]) is x):
            nk = tm.replace(key[1], {x: s})
            if nk is not key[1]:
                st.cells[(key[0], nk) + key[2:]] = tm.replace(v, {x: s})
    return s


def _refs(t, out=None, seen=None):
    if out is None:
        out, seen = [], set()
    if t in seen:
        return out
    seen.add(t)
    if t.op == "ref":
        out.append(t)
    for x in t.a:
        if isinstance(x, T):
            _refs(x, out, seen)
        elif isinstance(x, tuple):
            for y in tm._flatT(x):
                _refs(y, out, seen)
    return out


def defaultdict(ip, args, kw, st, fr):
    d = "any"
    if args:
        f = args[0]
        if f.op == "ext":
            d = f.a[0].split(".")[-1]
        elif f.op == "clo":
            v = ip.callv(f, [], {}, st, fr)
            if isnum(v) and v is ZERO:
                d = "float"
            elif v.op == "ref":
                d = ip.kinds[v][0]
    return ip.newref(("ddict", d), st, raw("map"))


def npzeros(ip, args, kw, st, fr):
    a = args[0] if args else kw.get("shape")
    a = val(ip, a, st)
    if a.op == "tuple":
        dims = list(a.a)
    elif a.op == "seq" and all(s.op == "one" for s in a.a):
        dims = [s.a[0] for s in a.a]
    else:
        dims = [a]
    return ip.newref(("array", dims), st, raw("map", raw("splm", raw("app", "full", ZERO, raw("tuple", *dims)))))


def npones(ip, args, kw, st, fr):
    r = npzeros(ip, args, kw, st, fr)
    dims = ip.kinds[r][1]
    st.cells[("h", r)] = raw("map", raw("splm", raw("app", "full", ONE, raw("tuple", *dims))))
    return r


def nparray(ip, args, kw, st, fr):
    a = args[0]
    v = val(ip, a, st)
    if v.op == "ref":
        return None
    if v.op == "tuple":
        v = mkseq(v.a)
    if v.op == "seq":
        # nested lists become nested sequences
        v = _frz(ip, st).freeze(v)
        return v
    return v


def npdot_(ip, args, kw, st, fr):
    return npdot(val(ip, args[0], st), val(ip, args[1], st))


def npsum(ip, args, kw, st, fr):
    if len(args) == 1 and not kw:
        v = val(ip, args[0], st)
        if v.op == "seq" and not is_matrix(v):
            return seq_sum(v)
        if v.op == "seq" and is_matrix(v):
            s = v.a[0]
            w = fresh(s.a[0])
            row = tm.openb(s, w)[0].a[0].a[0]
            return tsum(s.a[0], w, seq_sum(row))
    return None


def combinations(ip, args, kw, st, fr):
    if len(args) == 2 and args[1] is C(2):
        s = toseq(ip, args[0], st, fr)
        n = length(s)
        v, w = fresh(n), fresh(n)
        x = raw("tuple", idx(s, v), idx(s, w))
        return each(n, v, each(n, w, mkseq([ite(cmp("<", v, w), x, ABSENT)])))
    return None


def product(ip, args, kw, st, fr):
    rep = kw.get("repeat")
    ss = [toseq(ip, a, st, fr) for a in args]
    if rep is not None:
        if not isnum(rep):
            return None
        ss = ss * int(rep.a[0])
    if any(s.op != "seq" for s in ss):
        return None
    def go(k, acc):
        if k == len(ss):
            return mkseq([raw("tuple", *acc)])
        n = length(ss[k])
        v = fresh(n)
        return each(n, v, go(k + 1, acc + [idx(ss[k], v)]))
    return go(0, [])


def chain(ip, args, kw, st, fr):
    return seqcat([toseq(ip, a, st, fr) for a in args])


def reduce_(ip, args, kw, st, fr):
    return None


def cast(ip, args, kw, st, fr):
    return args[1]


def hypot(ip, args, kw, st, fr):
    a, b = args
    return power(add(mul(a, a), mul(b, b)), C(Fr(1, 2)))


def isclose(ip, args, kw, st, fr):
    return None


# ---- intrinsics of the interface models
def i_app(ip, args, kw, st, fr):
    fz = _frz(ip, st)
    r = app("m:" + args[0].a[0], *[fz.freeze(x) for x in args[1:]])
    if r.op == "app":
        n = args[0].a[0]
        if n in MODEL_TY:
            r._ty = MODEL_TY[n]
    return r


MODEL_TY = {
    "lin.evaluate": "num", "quad.evaluate": "num", "lin.to_array": ("array", "num"), "quad.to_array": ("array", ("array", "num")),
    "lin.gradient": ("array", "num"), "quad.gradient": ("array", "num"), "obj.gradient": ("array", "num"),
    "feasibility": "bool", "quad.getitem": "num", "to_ising.offset": "num",
    "substitute_variables": ("obj", "qiskit_optimization.problems.quadratic_program.QuadraticProgram"),
}


def i_autoname(ip, args, kw, st, fr):
    return cat(args[0], app("autoname", tstr(args[1])))


def i_dvar(ip, args, kw, st, fr):
    def g(x):
        r = raw("app", "dvar", x)
        r._ty = "num"
        return r
    return lift("dvar", g, [args[0]])


def _varname(ip, p, i, st, fr):
    if ty(i) == "str":
        return i
    y = ty(i)
    vs = ip.getattr(p, "variables", st, fr)
    if y in NUM:
        return ip.getattr(ip.getitem(vs, i, st, fr), "name", st, fr)
    return None


def i_linform(ip, args, kw, st, fr):
    p, c = args
    return formmap(ip, p, c, st, fr, 1)


def i_quadform(ip, args, kw, st, fr):
    p, c = args
    return formmap(ip, p, c, st, fr, 2)


def formmap(ip, p, c, st, fr, deg):
    """coefficient argument -> dict reference keyed by variable names"""
    if c.op == "ite":
        return ip.split(c, st, lambda x, s: formmap(ip, p, x, s, fr, deg))
    v = val(ip, c, st)
    y = unopt(ty(v))
    cl = ip.objcls(c)
    if v.op == "map" or (isinstance(y, tuple) and y[0] == "dict"):
        m = rekey(ip, p, v, st, fr, deg)
        if m is not None:
            return ip.newref(("dict",), st, m)
    fz = _frz(ip, st)
    return ip.newref(("dict",), st, raw("map", raw("splm", app("coef%d" % deg, fz.freeze(v)))))


def rekey(ip, p, m, st, fr, deg):
    def kk(k):
        if deg == 1:
            return _varname(ip, p, k, st, fr)
        a = _varname(ip, p, idx(k, ZERO), st, fr)
        b = _varname(ip, p, idx(k, ONE), st, fr)
        return None if a is None or b is None else raw("tuple", a, b)

    if m.op == "ite":
        a, b = rekey(ip, p, m.a[1], st, fr, deg), rekey(ip, p, m.a[2], st, fr, deg)
        return None if a is None or b is None else ite(lit(m.a[0]), a, b)
    if m.op != "map":
        y = unopt(ty(m))
        if y[1] == "str" or (isinstance(y[1], tuple) and y[1][0] == "tuple" and y[1][1] == "str"):
            return raw("map", raw("splm", m))
        ks = keys(m)
        n = length(ks)
        v = fresh(n)
        k = idx(ks, v)
        nk = kk(k)
        if nk is None:
            return None
        return eachm(n, v, raw("map", raw("set", nk, get(m, k))))
    out = []
    for s in m.a:
        if s.op in ("set", "acc"):
            nk = kk(s.a[0])
            if nk is None:
                return None
            if nk.op == "ite":
                return None
            out.append(raw(s.op, nk, s.a[1]))
        elif s.op == "eachm":
            v = fresh(s.a[0])
            b = rekey(ip, p, tm.openb(s, v)[0], st, fr, deg)
            if b is None:
                return None
            out.append(eachm(s.a[0], v, b))
        elif s.op == "splm":
            b = rekey(ip, p, s.a[0], st, fr, deg)
            if b is None:
                return None
            out.append(b if b.op == "map" else raw("splm", b))
        else:
            return None
    return mapcat(out)


def X(k):
    def g(x):
        r = raw("app", "X", x)
        r._ty = "num"
        return r
    return lift("X", g, [k])


def form(m, deg):
    """polynomial  sum w * X(k)  of a coefficient map, or the map itself when not additive"""
    if m.op == "ite":
        return ite(lit(m.a[0]), form(m.a[1], deg), form(m.a[2], deg))
    if m.op != "map":
        m = raw("map", raw("splm", m))
    segs = list(m.a)
    for i, s in enumerate(segs):
        if not additive(s):
            return app("coefs", m)
        if has_set(s) and i > 0:
            for q in segs[:i]:
                if not disjoint(q, s):
                    return app("coefs", m)
    tot = ZERO
    for s in segs:
        w = segform(s, deg)
        if w is None:
            return app("coefs", m)
        tot = add(tot, w)
    return tot


def keypat(s, out=None):
    if out is None:
        out = []
    if s.op in ("set", "acc"):
        out.append(s.a[0])
    elif s.op == "eachm":
        v = fresh(s.a[0])
        b = tm.openb(s, v)[0]
        for x in (b.a if b.op == "map" else [b]):
            keypat(x, out)
    elif s.op == "splm":
        out.append(("any", s.a[0]))
    else:
        out.append(None)
    return out


def disjoint(a, b):
    for x in keypat(a):
        for y in keypat(b):
            if x is None or y is None or isinstance(x, tuple) or isinstance(y, tuple):
                # keys of a source dictionary are plain names; generated names are concatenations
                z = x if isinstance(y, tuple) else y
                if isinstance(z, T) and _gen(z):
                    continue
                return False
            if tm.key_eq(x, y) is not False:
                return False
    return True


def _gen(k):
    if k.op == "cat":
        return True
    return k.op == "tuple" and any(_gen(x) for x in k.a)


def has_set(s):
    if s.op in ("set", "splm"):
        return True
    if s.op == "eachm":
        b = s.a[1]
        return any(has_set(x) for x in b.a) if b.op == "map" else True
    return False


def additive(s, bound=()):
    """later writes of the segment never overwrite earlier ones"""
    if s.op in ("acc", "splm"):
        return s.op == "acc" or not bound
    if s.op == "set":
        need = set(bound)
        _injvars(s.a[0], need)
        return not need
    if s.op == "eachm":
        v = fresh(s.a[0])
        b = tm.openb(s, v)[0]
        if b.op != "map":
            return False
        for i, x in enumerate(b.a):
            if not additive(x, bound + (v.a[0],)):
                return False
            if has_set(x) and any(not (disjoint(q, x) or _exclusive(q, x)) for q in b.a[:i]):
                return False
        return True
    return False


def _exclusive(a, b):
    """guards of two segments contradict each other"""
    def g(s):
        if s.op in ("set", "acc"):
            return tm.pres(s.a[1])
        if s.op == "eachm":
            v = fresh(s.a[0])
            b_ = tm.openb(s, v)[0]
            if b_.op == "map":
                r = FALSE
                for x in b_.a:
                    r = bor(r, g(x))
                return tm.quant_out(r, v)
        return TRUE
    return band(g(a), g(b)) is FALSE


def _injvars(k, need):
    if not need or not (k.fs & need):
        return
    if k.op == "v":
        need.discard(k.a[0])
        return
    if k.op in ("tuple", "cat", "str"):
        for x in k.a:
            if isinstance(x, T):
                _injvars(x, need)
        return
    if k.op == "attr" and k.a[1] == "name":
        _injvars(k.a[0], need)
        return
    if k.op == "idx":
        if k.a[0].op == "keys" or k.a[0].op == "attr" or k.a[0].op == "app":
            _injvars(k.a[1], need)
        elif isnum(k.a[1]):
            _injvars(k.a[0], need)
        return
    if k.op == "poly":
        vs = [x for m, c in k.a for x, e in m]
        if len(vs) == 1:
            _injvars(vs[0], need)


def segform(s, deg):
    def xk(k):
        if deg == 1:
            return X(k)
        return mul(X(idx(k, ZERO)), X(idx(k, ONE)))
    if s.op in ("set", "acc"):
        return mul(tm.mapleaves(s.a[1], lambda z: ZERO if z is ABSENT else z), xk(s.a[0]))
    if s.op == "splm":
        t = s.a[0]
        if t.op == "app" and t.a[0].startswith("coef"):
            r = raw("app", "form", t)
            r._ty = "num"
            return r
        ks = keys(t)
        n = length(ks)
        v = fresh(n)
        k = idx(ks, v)
        return tsum(n, v, mul(get(t, k), xk(k)))
    if s.op == "eachm":
        v = fresh(s.a[0])
        b = tm.openb(s, v)[0]
        if b.op != "map":
            return None
        tot = ZERO
        for x in b.a:
            w = segform(x, deg)
            if w is None:
                return None
            tot = add(tot, w)
        return tsum(s.a[0], v, tot)
    return None


def _isqp(t):
    y = unopt(ty(t))
    return isinstance(y, tuple) and y[0] == "obj" and y[1].endswith(".QuadraticProgram")


def attr_hook(t, name):
    # an element knows its program
    if name == "quadratic_program":
        q = t
        while q.op in ("attr", "idx", "get"):
            q = q.a[0]
            if _isqp(q):
                return q
    # program.variables[program.variables_index[k]].name is k
    if name == "name" and t.op == "idx" and t.a[1].op == "get":
        vs, gi = t.a[0], t.a[1].a[0]
        for a, b in REGISTRY:
            if vs.op == "attr" and gi.op == "attr" and vs.a[1] == a and gi.a[1] == b and vs.a[0] is gi.a[0] and _isqp(vs.a[0]):
                return t.a[1].a[1]
    return None


REGISTRY = (("variables", "variables_index"), ("linear_constraints", "linear_constraints_index"),
            ("quadratic_constraints", "quadratic_constraints_index"))


def get_hook(m, k):
    if m.op == "attr" and _isqp(m.a[0]) and k.op == "attr" and k.a[1] == "name" and k.a[0].op == "idx":
        vs = k.a[0].a[0]
        for a, b in REGISTRY:
            if m.a[1] == b and vs.op == "attr" and vs.a[1] == a and vs.a[0] is m.a[0]:
                return k.a[0].a[1]
    return None


def idx_hook(t, k):
    """element of an elementwise array expression"""
    if k.op not in ("tuple", "slice") and isarr_poly(t) and ty(k) in ("int", "num"):
        return arr_index(t, k)
    return None


def len_hook(t):
    ns = {length(x) for m, _ in t.a for x, e in m if isarr(x)}
    return ns.pop() if len(ns) == 1 else None


tm.IDX_HOOKS.append(idx_hook)
tm.LEN_HOOKS.append(len_hook)
tm.ATTR_HOOKS.append(attr_hook)
tm.GET_HOOKS.append(get_hook)

def dok(ip, args, kw, st, fr):
    """a fresh sparse matrix: what it was built from, then the entries written"""
    fz = _frz(ip, st)
    t = app("call:scipy.sparse.dok_matrix", *[fz.freeze(a) for a in args],
            *[raw("kw", k, fz.freeze(v)) for k, v in sorted(kw.items())])
    return ip.newref(("dok",), st, raw("map", raw("splm", t)))


def dok_form(c):
    if c.op == "ite":
        return tm.mapleaves(c, dok_form)
    if c.op == "map" and len(c.a) == 1 and c.a[0].op == "splm":
        return c.a[0].a[0]
    return app("dok", c)


def dok_shape(ip, t, st):
    """shape of a matrix as it was built"""
    t = dok_base(t)
    if t.op == "app" and t.a[0] == "call:scipy.sparse.dok_matrix" and len(t.a) > 1:
        x = t.a[1]
        if x.op == "tuple" and len(x.a) == 2:
            return x
        if x.op == "seq" and len(x.a) == 1 and x.a[0].op == "one":
            r = x.a[0].a[0]
            return raw("tuple", ONE, length(r) if r.op == "seq" or ty(r) != "any" else app("len", r))
    return shape_of(ip, t, st)


def dok_base(t):
    while t.op == "app" and t.a[0] == "dok" and t.a[1].op == "map" and t.a[1].a and t.a[1].a[0].op == "splm":
        t = t.a[1].a[0].a[0]
    return t


EXT = {
    "scipy.sparse.dok_matrix": dok,
    "vg.app": i_app, "vg.autoname": i_autoname, "vg.dvar": i_dvar, "vg.linform": i_linform, "vg.quadform": i_quadform,
    "copy.deepcopy": deepcopy, "copy.copy": shallow,
    "collections.defaultdict": defaultdict,
    "collections.OrderedDict": f_dict,
    "numpy.zeros": npzeros, "numpy.ones": npones,
    "numpy.array": nparray, "numpy.asarray": nparray,
    "numpy.dot": npdot_, "numpy.sum": npsum,
    "itertools.combinations": combinations, "itertools.product": product, "itertools.chain": chain,
    "typing.cast": cast, "numpy.hypot": hypot, "math.hypot": hypot,
    "numpy.transpose": lambda ip, a, k, s, f: transpose(val(ip, a[0], s)),
    "numpy.float64": f_float, "numpy.int64": f_int,
    "numpy.maximum": lambda ip, a, k, s, f: tm.tmax(a[0], a[1]) if ty(a[0]) in NUM else None,
    "numpy.minimum": lambda ip, a, k, s, f: tm.tmin(a[0], a[1]) if ty(a[0]) in NUM else None,
}

for n_, t_ in {
    "floor": "int", "ceil": "int", "int": "int", "len": "int", "round": "num", "log": "num", "abs": "num",
}.items():
    tm.CALL_TY.setdefault(n_, t_)
tm.CALL_TY.setdefault("call:numpy.argmax", "int")
tm.CALL_TY.setdefault("call:numpy.argmin", "int")
for n_ in ("to_qubo.msg", "get_compatibility_msg"):
    tm.CALL_TY.setdefault("m:" + n_, "str")


def apply_lam(ip, f, args):
    n, body = f.a
    if len(args) < n:
        return ip.opq("lam-arity")
    b = body
    for x in args[:n]:
        v = fresh()
        b = subst(tm.openb(b, v)[0], {v: x})
    return b
