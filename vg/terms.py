"""Hash-consed value graph with a normalising constructor for every operator.

Scalars are decision diagrams (``ite`` over ordered atoms) whose leaves are
polynomials over atoms; structures (tuples, sequences, maps, records) keep the
decision diagrams inside their components.  Two terms are equal iff they are the
same Python object.  Nothing here evaluates repository code.
"""
from fractions import Fraction as Fr
from itertools import permutations

import sys
sys.setrecursionlimit(20000)


class T:
    __slots__ = ("op", "a", "id", "fs", "h", "gr", "_ty")

    def __repr__(self):
        return show(self, 6)

    def __lt__(self, other):
        return self.id < other.id


_tab = {}
_all = []
EMPTY = frozenset()
BINDERS = {"sum", "each", "eachm", "exists", "first", "last", "fold", "lam", "maxof", "psum"}
ATOMS = {"lt", "le", "eqc", "isinst", "b", "eq", "exists", "in"}


def _key(x):
    if isinstance(x, T):
        return x
    return (type(x).__name__, x)


def raw(op, *a):
    key = (op,) + tuple(_key(x) for x in a)
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.a = a
    t.id = len(_all)
    t._ty = None
    fs = None
    h = 0
    gr = None
    for x in a:
        if isinstance(x, T):
            if x.fs:
                fs = x.fs if fs is None else fs | x.fs
            if x.gr:
                gr = x.gr if gr is None else gr | x.gr
            if x.h > h:
                h = x.h
        elif isinstance(x, tuple):
            for y in _flatT(x):
                if y.fs:
                    fs = y.fs if fs is None else fs | y.fs
                if y.gr:
                    gr = y.gr if gr is None else gr | y.gr
                if y.h > h:
                    h = y.h
    t.fs = fs or EMPTY
    t.h = h
    t.gr = gr or EMPTY
    if op == "v":
        t.fs = frozenset((a[0],))
    elif op == "B":
        t.fs = frozenset((-a[0],))
    if op in ATOMS:
        t.gr = t.gr | {group(t)}
    _tab[key] = t
    _all.append(t)
    return t


def _flatT(x):
    for y in x:
        if isinstance(y, T):
            yield y
        elif isinstance(y, tuple):
            yield from _flatT(y)


# ---------------------------------------------------------------- constants
def C(v):
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)):
        return raw("c", v)
    if isinstance(v, (int, Fr)):
        return raw("c", Fr(v))
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return raw("sym", repr(v))
        return raw("c", Fr(repr(v)) if "inf" not in repr(v) else Fr(v))
    if isinstance(v, complex):
        return raw("sym", repr(v))
    if v is Ellipsis:
        return raw("sym", "...")
    raise TypeError(v)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)
ZERO = C(0)
ONE = C(1)
ABSENT = raw("absent")
UNDEF = raw("undef")

_ctr = [0]
vrange = {}   # fresh var id -> bound term (0 <= v < n)


def fresh(n=None):
    _ctr[0] += 1
    t = raw("v", _ctr[0])
    if n is not None and n is not ZERO:      # range ZERO marks a parameter of a lambda: any value
        vrange[_ctr[0]] = n
        t._ty = "int"
    return t


def Bv(h):
    t = raw("B", h)
    t._ty = "int"
    return t


def sym(name, ty=None):
    t = raw("sym", name)
    if ty is not None:
        t._ty = ty
    return t


def isnum(t):
    return t.op == "c" and isinstance(t.a[0], Fr)


def enumc(cls, member):
    return raw("enum", cls, member)


# enum class table: cls -> ordered list of (member, valueT)
ENUMS = {}

# ---------------------------------------------------------------- types
FIELD_TY = {}      # (cls, field) -> type
CALL_TY = {}


def ty(t):
    r = t._ty
    if r is None:
        r = t._ty = _ty(t)
    return r


def tmerge(a, b):
    if a == b:
        return a
    num = ("int", "float", "num", "bool")
    if a in num and b in num:
        return "num"
    if a == "none":
        return b if isinstance(b, tuple) and b[0] == "opt" else ("opt", b)
    if b == "none":
        return a if isinstance(a, tuple) and a[0] == "opt" else ("opt", a)
    return "any"


def unopt(x):
    return x[1] if isinstance(x, tuple) and x[0] == "opt" else x


def _ty(t):
    op = t.op
    if op == "c":
        v = t.a[0]
        if v is None:
            return "none"
        if isinstance(v, bool):
            return "bool"
        if isinstance(v, str):
            return "str"
        if isinstance(v, Fr):
            return "int" if v.denominator == 1 else "float"
        return "any"
    if op == "enum":
        return ("enum", t.a[0])
    if op == "poly":
        for m, c in t.a:
            if c.denominator != 1:
                return "num"
            for at, e in m:
                if ty(at) not in ("int", "bool") or e.denominator != 1 or e < 0:
                    return "num"
        return "int"
    if op == "ite":
        if t.a[1] in (ABSENT, UNDEF):
            return ty(t.a[2])
        if t.a[2] in (ABSENT, UNDEF):
            return ty(t.a[1])
        return tmerge(ty(t.a[1]), ty(t.a[2]))
    if op in ("cat", "str"):
        return "str"
    if op in ("len", "B"):
        return "int"
    if op in ("first", "last"):
        return "int"
    if op == "sum":
        if ty(t.a[2]) in ("int",):
            return "int"
        return "num"
    if op == "psum":
        return ty(t.a[1])
    if op == "seq":
        e = "any"
        for s in t.a:
            if s.op == "one":
                e = ty(s.a[0])
                break
            if s.op == "each":
                x = ty(s.a[1])
                if isinstance(x, tuple) and x[0] == "list":
                    e = x[1]
                break
            if s.op == "spl":
                x = unopt(ty(s.a[0]))
                if isinstance(x, tuple) and x[0] == "list":
                    e = x[1]
                break
        return ("list", e)
    if op == "map":
        return ("dict", "any", "any")
    if op == "tuple":
        return ("tuple",) + tuple(ty(x) for x in t.a)
    if op == "obj":
        return ("obj", t.a[0])
    if op == "keys":
        x = unopt(ty(t.a[0]))
        if isinstance(x, tuple) and x[0] == "dict":
            return ("list", x[1])
        return ("list", "any")
    if op == "get":
        x = unopt(ty(t.a[0]))
        if isinstance(x, tuple) and x[0] == "dict":
            return x[2]
        return "any"
    if op == "idx":
        x = unopt(ty(t.a[0]))
        if isinstance(x, tuple):
            if x[0] == "list":
                return x[1]
            if x[0] == "array":
                return x[1]
            if x[0] == "tuple" and isnum(t.a[1]):
                k = int(t.a[1].a[0])
                if -len(x) + 1 <= k < len(x) - 1:
                    return x[1:][k]
            if x[0] == "dict":
                return x[2]
        if x == "str":
            return "str"
        return "any"
    if op == "attr":
        x = unopt(ty(t.a[0]))
        if isinstance(x, tuple) and x[0] == "obj":
            return FIELD_TY.get((x[1], t.a[1]), "any")
        return "int" if t.a[1] == "nnz" else "any"
    if op == "app":
        if t.a[0] == ".tolist" and len(t.a) == 2 and t.a[1].op == "attr" and t.a[1].a[1] in ("z", "x"):
            return ("list", "bool")     # the bits of a Pauli string
        return CALL_TY.get(t.a[0], "any")
    if op in ATOMS:
        return "bool"
    return "any"


def is_boolean(t):
    if t is TRUE or t is FALSE:
        return True
    if t.op == "ite":
        return is_boolean(t.a[1]) and is_boolean(t.a[2])
    return False


# ---------------------------------------------------------------- atoms order
_groups = {}


def group(atom):
    if atom.op in ("lt", "le"):
        k = ("ord", atom.a[0])
    elif atom.op in ("eqc", "b"):
        k = ("eqc", atom.a[0])
    elif atom.op == "isinst":
        k = ("ty", atom.a[0])
    else:
        k = atom
    g = _groups.get(k)
    if g is None:
        g = _groups[k] = len(_groups)
    return g


_okey = {}


def okey(atom):
    r = _okey.get(atom)
    if r is None:
        g = group(atom)
        if atom.op in ("lt", "le"):
            r = (g, (atom.a[1], 0 if atom.op == "lt" else 1))
        elif atom.op == "eqc":
            r = (g, (Fr(atom.a[1].id), 0))
        elif atom.op == "b":
            r = (g, (Fr(-1), 0))
        elif atom.op == "isinst":
            r = (g, (Fr(C(atom.a[1]).id), 0))
        else:
            r = (g, (Fr(0), 0))
        _okey[atom] = r
    return r


DISJOINT_TY = {}


def implied(b, a, v):
    """value of atom b given atom a == v (same group), or None."""
    if a is b:
        return v
    if a.op in ("lt", "le") and b.op in ("lt", "le"):
        ka, kb = okey(a)[1], okey(b)[1]
        if v and kb > ka:
            return True
        if not v and kb < ka:
            return False
        return None
    if a.op == "eqc" and b.op == "eqc":
        return False if v else None
    if a.op == "eqc" and b.op == "b":
        if v:
            c = a.a[1]
            if c is NONE or c is FALSE or c is C("") or c is ZERO:
                return False
            return True
        return None
    if a.op == "b" and b.op == "eqc":
        c = b.a[1]
        falsy = c is NONE or c is FALSE or c is C("") or c is ZERO
        if v and falsy:
            return False
        if not v and not falsy:
            return False
        return None
    if a.op == "isinst" and b.op == "isinst":
        ta, tb = a.a[1], b.a[1]
        if v:
            if tb in SUPERS.get(ta, ()):
                return True
            if ta in SUPERS.get(tb, ()):
                return None
            if ta in CONCRETE and tb in CONCRETE:
                return False
            return None
        if ta in SUPERS.get(tb, ()):
            return False
        return None
    return None


SUPERS = {"bool": {"int"}}
CONCRETE = {"int", "float", "str", "list", "dict", "tuple", "set", "numpy.ndarray", "bool",
            "scipy.sparse.spmatrix"}


# ---------------------------------------------------------------- ite
_ite_memo = {}


def mkite(atom, hi, lo):
    if hi is lo:
        return hi
    key = (atom, hi, lo)
    r = _ite_memo.get(key)
    if r is None:
        r = _ite_memo[key] = _mkite(atom, hi, lo)
    return r


STRUCT = {"tuple", "seq", "map", "obj", "ret"}


_NUMOP = {"poly", "c", "idx", "attr", "sym", "v", "get", "app", "len", "sum", "B"}


def _bound_factor(dq):
    """f*(x.lowerbound - x.upperbound) <= 0 decides between two values that differ by a multiple
    of it: since the bounds of a variable are ordered, so does f >= 0"""
    if len(dq) != 2:
        return None
    (m1, c1), (m2, c2) = dq.items()
    if c1 != -c2:
        return None
    d1, d2 = [p for p in m1 if p not in m2], [p for p in m2 if p not in m1]
    if len(d1) != 1 or len(d2) != 1 or d1[0][1] != 1 or d2[0][1] != 1:
        return None
    x, y = d1[0][0], d2[0][0]
    if x.op != "attr" or y.op != "attr" or x.a[0] is not y.a[0]:
        return None
    if (x.a[1], y.a[1]) == ("upperbound", "lowerbound"):
        c1 = -c1
    elif (x.a[1], y.a[1]) != ("lowerbound", "upperbound"):
        return None
    rest = tuple(p for p in m1 if p in m2)
    if not rest or any(p not in m2 for p in m1 if p != d1[0]):
        return None
    return _mk({rest: c1})


def _border(atom, hi, lo):
    untyped = False
    for x in (hi, lo):
        if x.op == "c" and not (isinstance(x.a[0], Fr)):
            return None
        if x.op in ("app", "sym", "v", "get", "attr", "idx") and ty(x) not in ("int", "float", "num"):
            untyped = True
    q, b = atom.a
    dq, dd = _pd(q), _pd(sub(hi, lo))
    if len(dq) == 1 and b == 0 and atom.op == "lt" and not untyped:
        # q < 0 or q <= 0: a common factor of the difference
        (m, _), = dq.items()
        if all(e == 1 and e.denominator == 1 for _, e in m) and all(any(y is x and f >= e for y, f in dm) for dm in dd for x, e in m):
            return raw("le", q, b)
    k = None
    for m, c in dq.items():
        if m == ():
            continue
        r = dd.get(m)
        if r is None or (k is not None and r != k * c):
            return None
        if k is None:
            k = r / c
    if k is None or len(dd) - (() in dd) != len(dq) - (() in dq):
        return None
    t = -(dd.get((), Fr(0)) - k * dq.get((), Fr(0))) / k
    if untyped:
        # a < b chooses between the very values compared: equal ones are interchangeable
        return raw("le", q, b) if atom.op == "lt" and t == b and k in (1, -1) else None
    if t == b and b == 0:
        f = _bound_factor(dq)
        if f is not None:
            return f
    if atom.op == "lt":
        return raw("le", q, b) if t == b else None
    if t == b + 1 and _isint_poly(dq):
        return raw("le", q, t)
    return None


def _mkite(atom, hi, lo):
    g = group(atom)
    if g in hi.gr:
        hi = assume(hi, atom, True)
    if g in lo.gr:
        lo = assume(lo, atom, False)
    if hi is lo:
        return hi
    if atom.op in ("lt", "le") and hi.op in _NUMOP and lo.op in _NUMOP:
        # the two values agree on the border: which side the border belongs to is immaterial
        at = _border(atom, hi, lo)
        if at is not None and at.op != "le":
            # c*f with the sign of the ordered difference divided out
            return ite(_cut(at, True), lo, hi)
        if at is not None:
            return mkite(at, hi, lo)
    # push through structures
    cond = raw("ite", atom, TRUE, FALSE)
    r = _push(cond, hi, lo)
    if r is not None:
        return r
    # keep ordering: if hi/lo top atoms are before atom, rotate
    k = okey(atom)
    top = None
    for x in (hi, lo):
        if x.op == "ite":
            kx = okey(x.a[0])
            if kx < k and (top is None or kx < okey(top)):
                top = x.a[0]
    if top is not None:
        h1, h0 = cof(hi, top)
        l1, l0 = cof(lo, top)
        c1, c0 = cond, cond
        if group(top) == g:
            v1 = implied(atom, top, True)
            v0 = implied(atom, top, False)
            c1 = cond if v1 is None else (TRUE if v1 else FALSE)
            c0 = cond if v0 is None else (TRUE if v0 else FALSE)
        return mkite(top, ite(c1, h1, l1), ite(c0, h0, l0))
    return raw("ite", atom, hi, lo)


def _push(cond, hi, lo):
    if hi.op == "tuple" and lo.op == "tuple" and len(hi.a) == len(lo.a):
        return raw("tuple", *[ite(cond, x, y) for x, y in zip(hi.a, lo.a)])
    if hi.op == "ret" and lo.op == "ret":
        return raw("ret", ite(cond, hi.a[0], lo.a[0]))
    if hi.op == "obj" and lo.op == "obj" and hi.a[0] == lo.a[0] and hi.a[1] == lo.a[1]:
        return raw("obj", hi.a[0], hi.a[1], *[ite(cond, x, y) for x, y in zip(hi.a[2:], lo.a[2:])])
    if hi.op == "seq" and lo.op == "seq":
        return _merge_segs("seq", cond, hi.a, lo.a)
    if hi.op == "map" and lo.op == "map":
        return _merge_segs("map", cond, hi.a, lo.a)
    # a sequence (map) that extends the other alternative: that one is a sequence (map) too
    for op, spl_ in (("seq", "spl"), ("map", "splm")):
        if hi.op == op and lo.op not in (op, "ite") and hi.a and hi.a[0].op == spl_ and hi.a[0].a[0] is lo:
            return _merge_segs(op, cond, hi.a, hi.a[:1])
        if lo.op == op and hi.op not in (op, "ite") and lo.a and lo.a[0].op == spl_ and lo.a[0].a[0] is hi:
            return _merge_segs(op, cond, lo.a[:1], lo.a)
    return None


def _merge_segs(op, cond, A, B):
    i = 0
    while i < len(A) and i < len(B) and A[i] is B[i]:
        i += 1
    pre, A, B = list(A[:i]), A[i:], B[i:]
    suf = []
    while A and B and A[-1] is B[-1]:
        suf.insert(0, A[-1])
        A, B = A[:-1], B[:-1]
    if op == "map":
        # same-key writes merge in place
        out = list(pre)
        if len(A) == len(B) and all(
            x.op == y.op and x.op in ("set", "acc") and x.a[0] is y.a[0] for x, y in zip(A, B)
        ):
            for x, y in zip(A, B):
                out.append(raw(x.op, x.a[0], ite(cond, x.a[1], y.a[1])))
            return mapcat(out + suf)
    mid = []
    if len(A) == len(B) and len(A) >= 1 and op == "seq":
        # align segment-wise when the shapes agree
        if all(x.op == y.op == "one" for x, y in zip(A, B)):
            mid = [raw("one", ite(cond, x.a[0], y.a[0])) for x, y in zip(A, B)]
            return seqcat(pre + mid + suf)
        if all(x.op == y.op and (x.op != "each" or x.a[0] is y.a[0]) for x, y in zip(A, B)):
            for x, y in zip(A, B):
                if x.op == "one":
                    mid.append(raw("one", ite(cond, x.a[0], y.a[0])))
                elif x.op == "each":
                    v = fresh(x.a[0])
                    mid += list(each(x.a[0], v, ite(cond, openb(x, v)[0], openb(y, v)[0])).a)
                else:
                    mid = None
                    break
            if mid is not None:
                return seqcat(pre + mid + suf)
    mid = [guard_seg(x, cond) for x in A] + [guard_seg(x, bnot(cond)) for x in B]
    return (seqcat if op == "seq" else mapcat)(pre + mid + suf)


def guard_seg(s, g):
    if g is TRUE:
        return s
    if s.op == "one":
        return raw("one", ite(g, s.a[0], ABSENT))
    if s.op in ("set", "acc"):
        return raw(s.op, s.a[0], ite(g, s.a[1], ABSENT))
    if s.op == "each":
        v = fresh(s.a[0])
        b = openb(s, v)[0]
        return close("each", s.a[0], v, seqcat([guard_seg(x, g) for x in b.a] if b.op == "seq"
                                               else [guard_seg(raw("spl", b), g)]))
    if s.op == "eachm":
        v = fresh(s.a[0])
        b = openb(s, v)[0]
        return close("eachm", s.a[0], v, mapcat([guard_seg(x, g) for x in b.a] if b.op == "map"
                                                else [guard_seg(raw("splm", b), g)]))
    if s.op == "spl":
        t = s.a[0]
        n = length(t)
        v = fresh(n)
        return close("each", n, v, raw("seq", raw("one", ite(g, idx(t, v), ABSENT))))
    if s.op == "splm":
        t = s.a[0]
        ks = keys(t)
        n = length(ks)
        v = fresh(n)
        k = idx(ks, v)
        return close("eachm", n, v, raw("map", raw("set", k, ite(g, get(t, k), ABSENT))))
    if s.op == "del":
        return raw("gdel", s.a[0], g)
    return raw("gseg", s, g)


def cof(t, atom):
    if t.op == "ite" and t.a[0] is atom:
        return t.a[1], t.a[2]
    return t, t


def ite(c, a, b):
    """c is a boolean decision diagram."""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op != "ite":
        c = truth(c)
        return ite(c, a, b)
    if a is TRUE and b is FALSE:
        return c
    atom = c.a[0]
    key = ("I", c, a, b)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    # structures first
    if a.op in STRUCT and a.op == b.op:
        aa = bb = None
        r = _push(c, assume_c(a, c, True), assume_c(b, c, False))
        if r is not None:
            _ite_memo[key] = r
            return r
    top = atom
    for x in (a, b):
        if x.op == "ite" and okey(x.a[0]) < okey(top):
            top = x.a[0]
    c1, c0 = _cofi(c, top)
    a1, a0 = _cofi(a, top)
    b1, b0 = _cofi(b, top)
    r = mkite(top, ite(c1, a1, b1), ite(c0, a0, b0))
    _ite_memo[key] = r
    return r


def _cofi(t, atom):
    if t.op == "ite":
        if t.a[0] is atom:
            return t.a[1], t.a[2]
        if group(t.a[0]) == group(atom):
            return assume(t, atom, True), assume(t, atom, False)
    return t, t


def assume_c(t, c, v):
    """simplify t under c == v when c is a single atom (or a conjunction of literals)."""
    for atom, val in literals(c, v):
        if group(atom) in t.gr:
            t = assume(t, atom, val)
    return t


def literals(c, v):
    """literals implied by c == v: the atoms whose opposite cofactor is the constant not v."""
    out = []
    while c.op == "ite":
        hi, lo = c.a[1], c.a[2]
        dead = FALSE if v else TRUE
        if lo is dead:
            out.append((c.a[0], True))
            c = hi
        elif hi is dead:
            out.append((c.a[0], False))
            c = lo
        else:
            break
    return out


_asm_memo = {}


def assume(t, atom, v):
    g = group(atom)
    if g not in t.gr:
        return t
    key = (t, atom, v)
    r = _asm_memo.get(key)
    if r is None:
        if t.op == "ite":
            b = t.a[0]
            val = implied(b, atom, v) if group(b) == g else None
            if val is not None:
                r = assume(t.a[1] if val else t.a[2], atom, v)
            else:
                r = ite(assume_atom(b, atom, v), assume(t.a[1], atom, v), assume(t.a[2], atom, v))
        else:
            r = rebuild(t, lambda x: assume(x, atom, v))
        _asm_memo[key] = r
    return r


def assume_atom(b, atom, v):
    if group(b) == group(atom):
        val = implied(b, atom, v)
        if val is not None:
            return TRUE if val else FALSE
    if group(atom) in b.gr and b is not atom:
        sub = [x for x in b.a if isinstance(x, T) and group(atom) in x.gr]
        if sub:
            return rebuild_atom(b, lambda x: assume(x, atom, v))
    return lit(b)


def lit(atom):
    return raw("ite", atom, TRUE, FALSE)


# ---------------------------------------------------------------- lift
_lift_memo = {}


def _natoms(t, s, cap=40):
    while t.op == "ite":
        s.add(t.a[0])
        if len(s) > cap:
            return
        _natoms(t.a[1], s, cap)
        t = t.a[2]


def lift(name, f, args, *more):
    """f over the leaves of the arguments; name and more identify f (name None: f reads mutable
    state, its results are not remembered)"""
    for x in args:
        if isinstance(x, T) and x.op == "ite":
            break
    else:
        return f(*args)
    key = (name, more) + tuple(_key(x) for x in args)
    r = _lift_memo.get(key) if name is not None else None
    if r is not None:
        return r
    top = None
    for x in args:
        if isinstance(x, T) and x.op == "ite" and (top is None or okey(x.a[0]) < okey(top)):
            top = x.a[0]
    hs, ls = [], []
    for x in args:
        if isinstance(x, T):
            p, q = _cofi(x, top)
        else:
            p = q = x
        hs.append(p)
        ls.append(q)
    r = mkite(top, lift(name, f, hs, *more), lift(name, f, ls, *more))
    if name is not None:
        _lift_memo[key] = r
    return r


def leaves(t, out=None):
    if out is None:
        out = []
    if t.op == "ite":
        leaves(t.a[1], out)
        leaves(t.a[2], out)
    elif t not in out:
        out.append(t)
    return out


def mapleaves(t, f):
    if t.op == "ite":
        return ite(lit(t.a[0]), mapleaves(t.a[1], f), mapleaves(t.a[2], f))
    return f(t)


def skip_special(f):
    def g(*xs):
        for x in xs:
            if x is ABSENT or x is UNDEF:
                return x
        return f(*xs)
    return g


# ---------------------------------------------------------------- booleans
def bnot(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op != "ite":
        return bnot(truth(c))
    return ite(c, FALSE, TRUE)


def band(*cs):
    r = TRUE
    for c in cs:
        r = ite(c, r, FALSE)
    return r


def bor(*cs):
    r = FALSE
    for c in cs:
        r = ite(c, TRUE, r)
    return r


def truth(t):
    return lift("truth", _truth, [t])


def _truth(t):
    if t is TRUE or t is FALSE:
        return t
    if t.op == "c":
        v = t.a[0]
        return TRUE if v else FALSE
    if t.op in ("enum", "obj", "ref", "clo", "func", "class", "mod", "bound", "ext", "super"):
        return TRUE
    if t.op == "tuple":
        return TRUE if t.a else FALSE
    if t.op in ("seq", "map"):
        return cmp("<", ZERO, length(t))
    y = ty(t)
    if y in ("int", "float", "num"):
        return cmp("!=", t, ZERO)
    if isinstance(y, tuple) and y[0] in ("list", "dict"):
        return cmp("<", ZERO, length(t))
    if y == "str":
        return bnot(eqc(t, C("")))
    if isinstance(y, tuple) and y[0] in ("obj", "enum"):
        return TRUE
    if isinstance(y, tuple) and y[0] == "opt" and isinstance(y[1], tuple) and y[1][0] in ("obj", "enum"):
        return bnot(eqc(t, NONE))
    if t is ABSENT or t is UNDEF:
        return FALSE
    return lit(raw("b", t))


# ---------------------------------------------------------------- polynomials
def _pd(t):
    """term -> dict mono -> coef (t is not ite)."""
    if t.op == "c":
        v = t.a[0]
        if isinstance(v, bool):
            v = Fr(int(v))
        if isinstance(v, Fr):
            return {(): v} if v else {}
    if t.op == "poly":
        return dict(t.a)
    return {((t, Fr(1)),): Fr(1)}


def _mk(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if not m:
            return C(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    key = tuple(sorted(d.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0])))
    return raw("poly", *key)


@skip_special
def _add(a, b):
    if a is ZERO:
        return num(b)
    if b is ZERO:
        return num(a)
    da, db = _pd(a), _pd(b)
    for m, c in db.items():
        da[m] = da.get(m, 0) + c
    return _mk(da)


def num(t):
    if t is TRUE:
        return ONE
    if t is FALSE:
        return ZERO
    return t


def _mmul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: x[0].id))


@skip_special
def _mul(a, b):
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return num(b)
    if b is ONE:
        return num(a)
    da, db = _pd(a), _pd(b)
    if len(da) * len(db) > 3000:
        return raw("app", "bigmul", *sorted((a, b)))
    r = {}
    for m1, c1 in da.items():
        for m2, c2 in db.items():
            m = _mmul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return _mk(r)


def add(*ts):
    r = ZERO
    for t in ts:
        r = lift("add", _add, [r, t])
    return r


def mul(*ts):
    r = ONE
    for t in ts:
        r = lift("mul", _mul, [r, t])
    return r


def neg(t):
    return mul(C(-1), t)


def sub(a, b):
    return add(a, neg(b))


@skip_special
def _inv(b):
    d = _pd(b)
    if len(d) == 1:
        (m, c), = d.items()
        if c == 0:
            return raw("app", "div0")
        return _mk({tuple((a, -e) for a, e in m): 1 / c})
    if not d:
        return raw("app", "div0")
    lead = sorted(d.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0]))[-1][1]
    base = _mk({m: c / lead for m, c in d.items()})
    return _mk({((base, Fr(-1)),): 1 / lead})


def div(a, b):
    return mul(a, lift("inv", _inv, [b]))


@skip_special
def _pow(a, b):
    if isnum(b):
        e = b.a[0]
        if e == 0:
            return ONE
        if e == 1:
            return a
        d = _pd(a)
        if e.denominator == 1 and 0 < e <= 4 and len(d) <= 12:
            r = a
            for _ in range(int(e) - 1):
                r = mul(r, a)
            return r
        if not d:
            return ZERO
        if len(d) == 1:
            (m, c), = d.items()
            if c == 1:
                return _mk({tuple((x, k * e) for x, k in m): Fr(1)})
            if e.denominator == 1:
                return _mk({tuple((x, k * e) for x, k in m): c ** int(e)})
            if e == Fr(1, 2) and c > 0:
                import math
                p, q = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if p * p == c.numerator and q * q == c.denominator:
                    return _mk({tuple((x, k * e) for x, k in m): Fr(p, q)})
        return _mk({((a, e),): Fr(1)})
    return raw("app", "pow", a, b)


def power(a, b):
    return lift("pow", _pow, [a, b])


# ---------------------------------------------------------------- comparisons
def _lower(t):
    """a lower bound (Fraction) of a non-negative-known atom, or None"""
    if t.op in ("len", "B", "first", "last"):
        return Fr(0)
    if t.op == "v" and t.a[0] in vrange:
        return Fr(0)
    if t.op == "app" and t.a[0] in ("abs", "is01") or t.op == "attr" and t.a[1] == "nnz":
        return Fr(0)
    if t.op == "sum":
        m = t.a[2]
        if m.op == "c" and m.a[0] >= 0:
            return Fr(0)
        if all(e > 0 and _lower(x) is not None and _lower(x) >= 0 for mm in _pd(m) for x, e in mm):
            return Fr(0)
    return None


def poly_low(d):
    lo = Fr(0)
    for m, c in d.items():
        if not m:
            lo += c
            continue
        if c < 0:
            return None
        for x, e in m:
            if e < 0 or _lower(x) is None:
                return None
    return lo


def poly_neg_low(d):
    return poly_low({m: -c for m, c in d.items()})


def _isint_poly(d):
    for m in d:
        for x, e in m:
            if ty(x) not in ("int", "bool") or e.denominator != 1 or e < 0:
                return False
    return True


def _cut(p, strict):
    """p < 0 (strict) or p <= 0 as a boolean diagram; p not ite."""
    d = _pd(p)
    if not d or (len(d) == 1 and () in d):
        c = d.get((), Fr(0))
        return TRUE if (c < 0 or (c == 0 and not strict)) else FALSE
    isint = _isint_poly(d)
    low = poly_low(d)
    if low is not None and (low > 0 or (strict and low >= 0)):
        return FALSE
    nl = poly_neg_low(d)
    if nl is not None and (nl > 0 or (not strict and nl >= 0)):
        return TRUE
    if isint and all(c.denominator == 1 for c in d.values()):
        r = _int_range(d, strict)
        if r is not None:
            return r
    c0 = d.pop((), Fr(0))
    items = sorted(d.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
    lead = items[-1][1]
    s = 1 / lead
    if isint:
        from math import gcd
        den = 1
        for _, c in items:
            den = den * c.denominator // gcd(den, c.denominator)
        g = 0
        for _, c in items:
            g = gcd(g, int(c * den))
        s = Fr(den, g) * (1 if lead > 0 else -1)
    q = _mk({m: c * s for m, c in d.items()})
    c = -c0 * s     # p<0  <=>  q < c  (s>0)   or  q > c (s<0)
    if s > 0:
        if isint:
            import math
            k = math.ceil(c) - 1 if strict else math.floor(c)
            return _le(q, k)
        return lit(raw("lt" if strict else "le", q, c))
    # q > c  = not (q <= c);  q >= c = not (q < c)
    if isint:
        import math
        k = math.floor(c) if strict else math.ceil(c) - 1
        return bnot(_le(q, k))
    return bnot(lit(raw("le" if strict else "lt", q, c)))


def _le(q, k):
    """q <= k for an integer polynomial q without constant"""
    d = _pd(q)
    if len(d) > 1:
        if k == 0 and poly_low(d) == 0:
            # a sum of things that cannot be negative
            r = TRUE
            for m in sorted(d, key=lambda m: tuple((a.id, e) for a, e in m)):
                r = band(r, _cut(_mk({m: Fr(1)}), False))
            return r
        for c in (1, -1):
            if k != (-1 if c == 1 else 0):
                continue
            # counts that fall short of the numbers of elements
            cnt = [m[0][0] for m, e in d.items() if e == c and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "sum"
                   and m[0][0].a[2] is ONE and m[0][0].a[0].op != "ite"]
            if cnt and q is mul(C(c), add(*[sub(x, x.a[0]) for x in cnt])):
                r = FALSE
                for x in sorted(cnt, key=lambda x: x.id):
                    v = fresh(x.a[0])
                    r = bor(r, exists(x.a[0], v, bnot(openb(x, v)[0])))
                return r if c == 1 else bnot(r)
    return lit(raw("le", q, Fr(k)))


def _int_range(d, strict):
    """use 0 <= v <= n-1 for bound variables: p with v replaced by extreme values."""
    for sgn in (1, -1):
        e = {m: c * sgn for m, c in d.items()}
        # lower bound of e
        acc = dict(e)
        ok = True
        for m, c in list(e.items()):
            if c >= 0 or len(m) != 1 or m[0][1] != 1:
                continue
            x = m[0][0]
            if x.op == "sum" and x.a[2] is ONE and x.a[0].op != "ite":
                # a count is at most the number of elements
                del acc[m]
                for mm, cc in _pd(x.a[0]).items():
                    acc[mm] = acc.get(mm, 0) + c * cc
            elif x.op == "v" and x.a[0] in vrange:
                n = vrange[x.a[0]]
                if n.op == "ite":
                    ok = False
                    break
                del acc[m]
                for mm, cc in _pd(n).items():
                    acc[mm] = acc.get(mm, 0) + c * cc
                acc[()] = acc.get((), 0) - c
        if not ok:
            continue
        acc = {m: c for m, c in acc.items() if c}
        lo = poly_low(acc)
        if lo is None:
            continue
        if sgn == 1 and (lo > 0 or (strict and lo >= 0)):
            return FALSE
        if sgn == -1 and (lo > 0 or (not strict and lo >= 0)):
            return TRUE
    return None


def cmp(op, a, b):
    return lift("cmp" + op, lambda x, y: _cmp(op, x, y), [a, b])


def _cmp(op, a, b):
    if op == "==":
        return _eq(a, b)
    if op == "!=":
        return bnot(_eq(a, b))
    if ty(a) == "str" or ty(b) == "str":
        if op == "<":
            return lit(raw("b", raw("app", "strlt", a, b)))
        if op == ">":
            return lit(raw("b", raw("app", "strlt", b, a)))
        if op == "<=":
            return bnot(lit(raw("b", raw("app", "strlt", b, a))))
        return bnot(lit(raw("b", raw("app", "strlt", a, b))))
    p = sub(a, b)
    if p.op == "ite":
        return lift("cmp0" + op, lambda x: _cmp0(op, x), [p])
    return _cmp0(op, p)


def _cmp0(op, p):
    if op == "<":
        return _cut(p, True)
    if op == "<=":
        return _cut(p, False)
    if op == ">":
        return bnot(_cut(p, False))
    if op == ">=":
        return bnot(_cut(p, True))


def eqc(t, c):
    """t == constant c (enum member, None, str, bool)"""
    return lift("eqc", lambda x: _eqc(x, c), [t], c)


def _eqc(t, c):
    if t is c:
        return TRUE
    if t.op in ("c", "enum"):
        return FALSE
    if t.op in ("tuple", "seq", "map", "obj", "ref", "poly", "cat", "clo", "class", "func", "each", "bound", "ext", "mod"):
        if t.op == "cat" and c.op == "c" and isinstance(c.a[0], str):
            return _cat_eq(t, c)
        return FALSE
    y = ty(t)
    if c is NONE:
        if y in ("int", "float", "num", "str", "bool", "nn") or (isinstance(y, tuple) and y[0] not in ("opt",)):
            return FALSE
    if c.op == "enum":
        yy = unopt(y)
        if isinstance(yy, tuple) and yy[0] == "enum":
            if yy[1] != c.a[0]:
                return FALSE
            mem = ENUMS.get(yy[1])
            if mem and y is yy and mem[-1][0] == c.a[1]:
                r = TRUE
                for m, _ in mem[:-1]:
                    r = ite(lit(raw("eqc", t, enumc(yy[1], m))), FALSE, r)
                return r
    return lit(raw("eqc", t, c))


def _cat_eq(t, c):
    s = c.a[0]
    parts = t.a
    if parts[0].op == "c" and not s.startswith(parts[0].a[0]):
        return FALSE
    if parts[-1].op == "c" and not s.endswith(parts[-1].a[0]):
        return FALSE
    return lit(raw("eqc", t, c))


def _eq(a, b):
    if a is b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if y.op == "enum" or (y.op == "c" and (y.a[0] is None or isinstance(y.a[0], (str, bool)))):
            if isinstance(y.a[0], bool) and y.op == "c":
                # comparing with True/False
                if x.op == "c":
                    if isnum(x):
                        return TRUE if x.a[0] == int(y.a[0]) else FALSE
                    return FALSE
                if ty(x) == "bool":
                    r = truth(x)
                    return r if y.a[0] else bnot(r)
            return _eqc(x, y)
    if a.op == "tuple" and b.op == "tuple":
        if len(a.a) != len(b.a):
            return FALSE
        r = TRUE
        for x, y in zip(a.a, b.a):
            r = band(r, cmp("==", x, y))
        return r
    ya, yb = unopt(ty(a)), unopt(ty(b))
    nums = ("int", "float", "num", "bool")
    if a.op in ("ref", "class", "func") and b.op in ("ref", "class", "func"):
        return FALSE
    if (ya in nums) or (yb in nums):
        if ya == "str" or yb == "str":
            return FALSE
        p = sub(a, b)
        return lift("eq0", lambda q: ite(_cut(q, False), bnot(_cut(q, True)), FALSE), [p])
    if ya == "str" and yb == "str":
        if a.op == "cat" or b.op == "cat":
            r = _cat_cmp(a, b)
            if r is not None:
                return r
    x, y = sorted((a, b))
    return lit(raw("eq", x, y))


def _cat_cmp(a, b):
    pa = list(a.a) if a.op == "cat" else [a]
    pb = list(b.a) if b.op == "cat" else [b]
    while pa and pb and pa[0] is pb[0]:
        pa.pop(0)
        pb.pop(0)
    while pa and pb and pa[-1] is pb[-1]:
        pa.pop()
        pb.pop()
    if not pa and not pb:
        return TRUE
    if len(pa) == 1 and len(pb) == 1 and pa[0].op == "str" and pb[0].op == "str":
        return cmp("==", pa[0].a[0], pb[0].a[0])
    if len(pa) == 1 and len(pb) == 1 and pa[0].op == "c" and pb[0].op == "c":
        return FALSE
    return None


# ---------------------------------------------------------------- min/max/abs
def tmin(a, b):
    return ite(cmp("<=", a, b), a, b) if a.op != "ite" and b.op != "ite" else lift("min", tmin, [a, b])


def tmax(a, b):
    # same comparison as tmin so that both share one atom
    return ite(cmp("<=", a, b), b, a) if a.op != "ite" and b.op != "ite" else lift("max", tmax, [a, b])


def tabs(a):
    if a.op == "ite":
        return lift("abs", tabs, [a])
    if isnum(a):
        return C(abs(a.a[0]))
    return ite(cmp("<", a, ZERO), neg(a), a)


# ---------------------------------------------------------------- strings
def cat(*ps):
    return lift("cat", _cat, list(ps))


def _cat(*ps):
    out = []
    for p in ps:
        if p is ABSENT or p is UNDEF:
            return p
        for q in (p.a if p.op == "cat" else (p,)):
            if q.op == "c" and isinstance(q.a[0], str):
                if q.a[0] == "":
                    continue
                if out and out[-1].op == "c":
                    out[-1] = C(out[-1].a[0] + q.a[0])
                    continue
            out.append(q)
    if not out:
        return C("")
    if len(out) == 1:
        return out[0]
    return raw("cat", *out)


def tstr(t):
    return lift("str", _str, [t])


def _str(t):
    if t.op == "c":
        v = t.a[0]
        if isinstance(v, str):
            return t
        if isinstance(v, Fr) and v.denominator == 1:
            return C(str(int(v)))
        if v is None or isinstance(v, bool):
            return C(str(v))
    if ty(t) == "str":
        return t
    return raw("str", t)


# ---------------------------------------------------------------- binders
def close(op, n, v, *bodies):
    h = 1 + max((b.h for b in bodies), default=0)
    B = Bv(h)
    bodies = [subst(b, {v: B}) for b in bodies]
    # heights may shrink or grow through normalisation
    h2 = 1 + max((b.h for b in bodies), default=0)
    k = 0
    while h2 != h and k < 5:
        B2 = Bv(h2)
        bodies = [subst(b, {B: B2}) for b in bodies]
        h, B = h2, B2
        h2 = 1 + max((b.h for b in bodies), default=0)
        k += 1
    return _binder(op, n, h, bodies)


def _binder(op, n, h, bodies):
    t = raw(op, n, *bodies, h)
    if t.h < h:
        t.h = h
        t.fs = frozenset(x for x in t.fs if x != -h)
    elif -h in t.fs:
        t.fs = frozenset(x for x in t.fs if x != -h)
    return t


def openb(t, v):
    h = t.a[-1]
    B = Bv(h)
    return [subst(b, {B: v}) for b in t.a[1:-1]]


_sub_memo = {}


def subst(t, m):
    ks = frozenset(k.a[0] if k.op == "v" else -k.a[0] for k in m)
    mk = tuple(sorted(((k.id, v.id) for k, v in m.items())))
    return _subst(t, m, ks, mk)


def _subst(t, m, ks, mk):
    if not (t.fs & ks):
        return t
    key = (t, mk)
    r = _sub_memo.get(key)
    if r is not None:
        return r
    r = m.get(t)
    if r is None:
        if t.op == "ite":
            r = ite(rebuild_atom(t.a[0], lambda x: _subst(x, m, ks, mk)),
                    _subst(t.a[1], m, ks, mk), _subst(t.a[2], m, ks, mk))
        else:
            r = rebuild(t, lambda x: _subst(x, m, ks, mk))
    _sub_memo[key] = r
    return r


def replace(t, m, memo=None):
    """replace arbitrary subterms (not inside-out); m: T -> T"""
    if memo is None:
        memo = {}
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if not any(isinstance(x, (T, tuple)) for x in t.a):
        r = t
    elif t.op == "ite":
        at = t.a[0]
        if at in m:
            c = m[at]
        else:
            c = rebuild_atom(at, lambda x: replace(x, m, memo))
        r = ite(c, replace(t.a[1], m, memo), replace(t.a[2], m, memo))
    else:
        r = rebuild(t, lambda x: replace(x, m, memo))
    memo[t] = r
    return r


def rebuild_atom(atom, f):
    """atom with mapped children -> boolean diagram"""
    op = atom.op
    if op in ("lt", "le"):
        q = f(atom.a[0])
        if q is atom.a[0]:
            return lit(atom)
        return cmp("<" if op == "lt" else "<=", q, C(atom.a[1]))
    if op == "eqc":
        return eqc(f(atom.a[0]), atom.a[1])
    if op == "b":
        return truth(f(atom.a[0]))
    if op == "isinst":
        return isinst(f(atom.a[0]), atom.a[1])
    if op == "eq":
        return cmp("==", f(atom.a[0]), f(atom.a[1]))
    if op == "in":
        return contains(f(atom.a[1]), f(atom.a[0]))
    if op == "exists":
        n = f(atom.a[0])
        v = fresh(n)
        return exists(n, v, f(openb(atom, v)[0]))
    raise AssertionError(op)


def rebuild(t, f):
    op = t.op
    a = t.a
    if op in ("c", "sym", "v", "B", "absent", "undef", "enum", "ref"):
        return t
    if op == "ite":
        return ite(rebuild_atom(a[0], f), f(a[1]), f(a[2]))
    if op in ATOMS:
        return rebuild_atom(t, f)
    if op == "poly":
        r = ZERO
        for m, c in a:
            p = C(c)
            for x, e in m:
                p = mul(p, power(f(x), C(e)))
            r = add(r, p)
        return r
    if op in BINDERS:
        n = f(a[0])
        v = fresh(n)
        bodies = [f(b) for b in openb(t, v)]
        if op == "sum":
            return tsum(n, v, ite(truth(bodies[0]), bodies[1], ZERO))
        if op == "each":
            return each(n, v, bodies[0])
        if op == "eachm":
            return eachm(n, v, bodies[0])
        if op == "first":
            return first(n, v, bodies[0])
        if op == "last":
            return last(n, v, bodies[0])
        return close(op, n, v, *bodies)
    na = [f(x) if isinstance(x, T) else (_maptup(x, f) if isinstance(x, tuple) else x) for x in a]
    return con(op, *na)


def _maptup(x, f):
    return tuple(f(y) if isinstance(y, T) else (_maptup(y, f) if isinstance(y, tuple) else y) for y in x)


def con(op, *a):
    if op == "seq":
        return seqcat(a)
    if op == "map":
        return mapcat(a)
    if op in ("one", "set", "acc", "tuple", "obj", "ret", "del", "gdel", "gseg"):
        return raw(op, *a)
    if op == "spl":
        t = a[0]
        if t.op == "seq":
            return t          # spliced by seqcat
        return raw(op, *a)
    if op == "splm":
        t = a[0]
        if t.op == "map":
            return t
        return raw(op, *a)
    if op == "len":
        return length(a[0])
    if op == "idx":
        return idx(a[0], a[1])
    if op == "attr":
        return attr(a[0], a[1])
    if op == "get":
        return get(a[0], a[1], *a[2:])
    if op == "keys":
        return keys(a[0])
    if op == "cat":
        return cat(*a)
    if op == "str":
        return tstr(a[0])
    if op == "app":
        return app(a[0], *a[1:])
    if op in ("clo",):
        return raw(op, *a)
    return lift("con" + op, lambda *x: raw(op, *x), list(a))


APP_HOOK = {}


def app(name, *args):
    s = set()
    for x in args:
        if isinstance(x, T):
            _natoms(x, s)
    if len(s) > 8:
        return raw("app", name, *args)
    return lift("app:" + name, lambda *x: _app(name, *x), list(args))


def _app(name, *x):
    h = APP_HOOK.get(name)
    if h is not None:
        r = h(*x)
        if r is not None:
            return r
    return raw("app", name, *x)


# ---------------------------------------------------------------- sums
def _inv_atoms(t, v):
    """some atom of the top diagram of t not depending on v"""
    seen = set()
    stack = [t]
    vid = v.a[0]
    best = None
    while stack:
        x = stack.pop()
        if x.op != "ite" or x in seen:
            continue
        seen.add(x)
        if vid not in x.a[0].fs:
            if best is None or okey(x.a[0]) < okey(best):
                best = x.a[0]
        stack.append(x.a[1])
        stack.append(x.a[2])
    return best


def tsum(n, v, body):
    if n.op == "ite":
        return lift("sumn", lambda m: tsum(m, v, body), [n], v, body)
    if isnum(n):
        k = n.a[0]
        if k <= 0:
            return ZERO
        if k <= 4 and k.denominator == 1:
            return add(*[subst(body, {v: C(i)}) for i in range(int(k))])
    inv = _inv_atoms(body, v)
    if inv is not None:
        return mkite(inv, tsum(n, v, assume(body, inv, True)), tsum(n, v, assume(body, inv, False)))
    monos = {}
    for lf in leaves(body):
        if lf is ABSENT or lf is UNDEF:
            continue
        for m, c in _pd(lf).items():
            monos.setdefault(m, set()).add(c)
    res = ZERO
    low = body
    while low.op == "ite":
        low = low.a[2]
    spec = (ABSENT, UNDEF)

    def coef(lf, m):
        return Fr(0) if lf in spec else _pd(lf).get(m, Fr(0))

    for m in monos:
        base = coef(low, m)
        cs = {coef(lf, m) for lf in leaves(body)}
        if base:
            res = add(res, mul(C(base), _sum1([(v, n)], TRUE, m)))
        for c in cs:
            if c == base:
                continue
            ind = mapleaves(body, lambda lf: TRUE if coef(lf, m) == c else FALSE)
            res = add(res, mul(C(c - base), _sum1([(v, n)], ind, m)))
    return res


def _sum1(binds, g, mono):
    """sum over binds of [g] * mono, all parts diagrams-free except g."""
    # flatten nested sums in mono
    changed = True
    mono = list(mono)
    ids = {v.a[0] for v, _ in binds}
    for k, (x, e) in enumerate(mono):
        if x.op == "sum" and e == 1 and (x.fs & ids):
            n2 = x.a[0]
            v2 = fresh(n2)
            g2, m2 = openb(x, v2)
            rest = mono[:k] + mono[k + 1:]
            res = ZERO
            body = ite(truth(g2), m2, ZERO)
            gg = band(g, truth(g2))
            if m2.op == "ite" or gg.op == "c" and gg is FALSE:
                if gg is FALSE:
                    return ZERO
            for mm, c in _pd(m2).items():
                res = add(res, mul(C(c), _sum1(binds + [(v2, n2)], gg, _mmul(tuple(rest), mm))))
            return res
    # pull invariant factors
    inv = [(x, e) for x, e in mono if not (x.fs & ids)]
    dep = [(x, e) for x, e in mono if (x.fs & ids)]
    # components
    out = _mk({tuple(sorted(inv, key=lambda p: p[0].id)): Fr(1)}) if inv else ONE
    comps = _components(binds, g, dep)
    for bs, gg, dd in comps:
        out = mul(out, _sumc(bs, gg, dd))
    return out


def _components(binds, g, dep):
    parent = {v.a[0]: v.a[0] for v, _ in binds}

    def find(x):
        while parent[x] != x:
            x = parent[x]
        return x

    ids = set(parent)

    def link(s):
        s = [x for x in s if x in ids]
        for a, b in zip(s, s[1:]):
            parent[find(a)] = find(b)

    gvars = set()
    if g is not TRUE:
        gvars = g.fs & ids
        link(sorted(gvars))
    for x, e in dep:
        link(sorted(x.fs))
    for v, n in binds:
        link(sorted((n.fs & ids) | {v.a[0]}))
    comps = {}
    for v, n in binds:
        comps.setdefault(find(v.a[0]), [[], TRUE, []])[0].append((v, n))
    for x, e in dep:
        comps[find(next(iter(x.fs & ids)))][2].append((x, e))
    if g is not TRUE:
        if gvars:
            comps[find(next(iter(gvars)))][1] = g
        else:
            first_ = next(iter(comps.values()))
            first_[1] = g
    return [tuple(c) for c in comps.values()]


def _sumc(bs, g, dep):
    mono = _mk({tuple(sorted(dep, key=lambda p: p[0].id)): Fr(1)}) if dep else ONE
    if len(bs) == 1:
        v, n = bs[0]
        r = _delta(v, n, g, mono)
        if r is not None:
            return r
        if g is TRUE and mono is ONE:
            return n
        return _close_sum(n, v, g, mono)
    cands = []
    perms = permutations(bs) if len(bs) <= 4 else [bs]
    for p in perms:
        # bounds must be defined
        ok = True
        seen = set()
        allv = {v.a[0] for v, _ in bs}
        for v, n in p:
            if (n.fs & allv) - seen:
                ok = False
                break
            seen.add(v.a[0])
        if not ok:
            continue
        t = None
        gg, mm = g, mono
        for v, n in reversed(p):
            if t is None:
                t = _close_sum(n, v, gg, mm)
            else:
                t = _close_sum(n, v, TRUE, t)
        cands.append(t)
    return min(cands, key=lambda x: x.id)


def _close_sum(n, v, g, mono):
    return close("sum", n, v, g, mono)


def _delta(v, n, g, mono):
    """sum_i [i == k] e(i)  ->  [0<=k<n] e(k)"""
    if g.op != "ite":
        return None
    lits_ = literals(g, True)
    # i == k appears as not(le(p, c-1)) and le(p, c) on the same integer poly
    by = {}
    for at, val in lits_:
        if at.op == "le":
            by.setdefault(at.a[0], {})[val] = at.a[1]
    for q, d in by.items():
        if True in d and False in d and d[True] == d[False] + 1:
            pd = _pd(q)
            mv = ((v, Fr(1)),)
            if mv in pd and abs(pd[mv]) == 1:
                if any(m != mv and any(x is v or v.a[0] in x.fs for x, _ in m) for m in pd):
                    continue
                rest = _mk({m: c for m, c in pd.items() if m != mv})
                k = mul(C(pd[mv]), sub(C(d[True]), rest))
                inr = band(cmp("<=", ZERO, k), cmp("<", k, n))
                return ite(inr, ite(subst(g, {v: k}), subst(mono, {v: k}), ZERO), ZERO)
    return None


def exists(n, v, body):
    body = truth(body)
    if body is FALSE:
        return FALSE
    if n.op == "ite":
        return lift("exn", lambda m: exists(m, v, body), [n], v, body)
    if isnum(n):
        k = n.a[0]
        if k <= 0:
            return FALSE
        if k <= 4:
            return bor(*[subst(body, {v: C(i)}) for i in range(int(k))])
    if body is TRUE:
        return cmp("<", ZERO, n)
    inv = _inv_atoms(body, v)
    if inv is not None:
        return mkite(inv, exists(n, v, assume(body, inv, True)), exists(n, v, assume(body, inv, False)))
    # exists i: i == k and e(i)
    lits_ = literals(body, True)
    by = {}
    for at, val in lits_:
        if at.op == "le":
            by.setdefault(at.a[0], {})[val] = at.a[1]
    for q, d in by.items():
        if True in d and False in d and d[True] == d[False] + 1:
            pd = _pd(q)
            mv = ((v, Fr(1)),)
            if mv in pd and abs(pd[mv]) == 1 and not any(
                    m != mv and any(v.a[0] in x.fs for x, _ in m) for m in pd):
                rest = _mk({m: c for m, c in pd.items() if m != mv})
                k = mul(C(pd[mv]), sub(C(d[True]), rest))
                return band(cmp("<=", ZERO, k), cmp("<", k, n), subst(body, {v: k}))
    # nested exists: try both orders
    a = close("exists", n, v, body)
    if body.op == "ite" and body.a[0].op == "exists" and body.a[1] is TRUE and body.a[2] is FALSE:
        inner = body.a[0]
        n2 = inner.a[0]
        if v.a[0] not in n2.fs:
            v2 = fresh(n2)
            g = openb(inner, v2)[0]
            b = close("exists", n2, v2, lit(close("exists", n, v, g)))
            a = min(a, b, key=lambda x: x.id)
    return lit(a)


def first(n, v, body):
    return close("first", n, v, truth(body))


def last(n, v, body):
    if truth(body) is TRUE:
        return sub(n, ONE)
    return close("last", n, v, truth(body))


# ---------------------------------------------------------------- sequences
def pres(x):
    """presence diagram of an element diagram"""
    if x is ABSENT:
        return FALSE
    if x.op == "ite":
        if not _has_absent(x):
            return TRUE
        return ite(lit(x.a[0]), pres(x.a[1]), pres(x.a[2]))
    return TRUE


_ha = {}


def _has_absent(x):
    if x is ABSENT:
        return True
    if x.op != "ite":
        return False
    r = _ha.get(x)
    if r is None:
        r = _ha[x] = _has_absent(x.a[1]) or _has_absent(x.a[2])
    return r


def overlay(x, y):
    """x where present, else y"""
    if x is ABSENT:
        return y
    if x.op == "ite" and _has_absent(x):
        return ite(lit(x.a[0]), overlay(x.a[1], y), overlay(x.a[2], y))
    return x


def strip_absent(x):
    """an element known to be present"""
    if x.op == "ite" and _has_absent(x):
        if x.a[1] is ABSENT:
            return strip_absent(x.a[2])
        if x.a[2] is ABSENT:
            return strip_absent(x.a[1])
        h, l = strip_absent(x.a[1]), strip_absent(x.a[2])
        return ite(lit(x.a[0]), h, l)
    return x


def quant_out(c, v):
    """exists-quantify the atoms depending on v"""
    if c.op != "ite":
        return c
    h, l = quant_out(c.a[1], v), quant_out(c.a[2], v)
    if v.a[0] in c.a[0].fs:
        return bor(h, l)
    return ite(lit(c.a[0]), h, l)


_sp = {}


def segpres(s):
    """condition (free of the segment's own index) outside which the segment is empty"""
    r = _sp.get(s)
    if r is None:
        r = TRUE
        if s.op == "one":
            r = pres(s.a[0])
        elif s.op in ("set", "acc"):
            r = pres(s.a[1])
        elif s.op in ("gdel", "gseg"):
            r = s.a[1]
        elif s.op in ("each", "eachm"):
            v = fresh(s.a[0])
            b = openb(s, v)[0]
            r = FALSE
            for x in (b.a if b.op in ("seq", "map") else ()):
                r = bor(r, quant_out(segpres(x), v))
                if r is TRUE:
                    break
            if b.op not in ("seq", "map"):
                r = TRUE
        _sp[s] = r
    return r


def settle(out):
    """mutually exclusive neighbours have no order: put the older term first"""
    j = len(out) - 1
    while j > 0 and out[j].id < out[j - 1].id:
        p = segpres(out[j])
        if p is TRUE:
            return
        q = segpres(out[j - 1])
        if q is TRUE or band(p, q) is not FALSE:
            return
        out[j], out[j - 1] = out[j - 1], out[j]
        j -= 1


def _gapsize(out):
    n = 0
    for s in reversed(out):
        if s.op != "one" or not _has_absent(s.a[0]):
            break
        n += 1
        at = set()
        _natoms(s.a[0], at, 8)
        if n > 3 or len(at) > 6:
            return False
    return True


def seqcat(segs):
    out = []

    def put(s):
        if s.op == "seq":
            for x in s.a:
                put(x)
            return
        if s.op == "one":
            x = s.a[0]
            if x is ABSENT:
                return
            if _has_absent(x):
                # mutually exclusive elements have no order: pack them to the left
                p, j, at = pres(x), len(out), None
                while j > 0:
                    q = segpres(out[j - 1])
                    if q is TRUE or band(p, q) is not FALSE:
                        break
                    j -= 1
                    if out[j].op == "one":
                        at = j
                if at is not None:
                    out[at] = raw("one", overlay(out[at].a[0], x))
                    return
            # an element that is there only when its left neighbour is not moves into the gap
            if out and out[-1].op == "one" and _has_absent(out[-1].a[0]) and _gapsize(out):
                y = out[-1].a[0]
                py, px = pres(y), pres(x)
                gap = band(bnot(py), px)
                if gap is not FALSE:
                    out.pop()
                    put(raw("one", ite(py, y, x)))
                    put(raw("one", ite(py, x, ABSENT)))
                    return
        elif s.op == "each":
            if s.a[0] is ZERO:
                return
            b = s.a[1]
            if b.op == "seq" and not b.a:
                return
            if out and out[-1].op == "each" and out[-1].a[0] is s.a[0]:
                p = out[-1]
                v = fresh(s.a[0])
                x, y = openb(p, v)[0], openb(s, v)[0]
                if (x.op == "seq" and y.op == "seq" and len(x.a) == 1 and len(y.a) == 1
                        and x.a[0].op == "one" and y.a[0].op == "one"):
                    e, f = x.a[0].a[0], y.a[0].a[0]
                    if _has_absent(e) and _has_absent(f) and band(quant_out(pres(e), v), quant_out(pres(f), v)) is FALSE:
                        out.pop()
                        put(each(s.a[0], v, raw("seq", raw("one", overlay(e, f)))))
                        return
        elif s.op == "spl":
            if s.a[0].op == "seq":
                put(s.a[0])
                return
            if s.a[0].op == "tuple":
                for x in s.a[0].a:
                    put(raw("one", x))
                return
            if s.a[0].op == "ite":
                z = asseq(s.a[0])
                if z.op == "seq":
                    put(z)
                    return
        elif s.op not in ("gseg",):
            s = raw("spl", s)
        out.append(s)
        settle(out)

    for s in segs:
        put(s)
    return raw("seq", *out)


def each(n, v, body):
    """sequence: for v in range(n): body (a seq term)"""
    if n.op == "ite":
        atom = n.a[0]
        return ite(lit(atom), each(n.a[1], v, body), each(n.a[2], v, body))
    if isnum(n):
        k = n.a[0]
        if k <= 0:
            return raw("seq")
        if k <= 4 and k.denominator == 1:
            return seqcat([subst(body, {v: C(i)}) for i in range(int(k))])
    if body.op == "seq":
        if not body.a:
            return body
        if len(body.a) == 1 and body.a[0].op == "one":
            x = body.a[0].a[0]
            if x.op == "idx" and x.a[1] is v and v.a[0] not in x.a[0].fs and length(x.a[0]) is n:
                return raw("seq", raw("spl", x.a[0]))
            if x is v:
                return raw("seq", raw("spl", raw("range", n)))
    elif body.op == "ite":
        # element is a gated sequence that could not be merged
        body = raw("seq", raw("spl", body))
    else:
        body = raw("seq", raw("spl", body))
    return raw("seq", close("each", n, v, body))


def asseq(t):
    """gated sequence -> sequence with gated elements"""
    return mapleaves(t, lambda x: x if x.op == "seq" else raw("seq", raw("spl", x)))


def asmap(t):
    return mapleaves(t, lambda x: x if x.op == "map" else raw("map", raw("splm", x)))


def mkseq(elems):
    return seqcat([raw("one", e) for e in elems])


def spl(t):
    if t.op == "seq":
        return t
    return raw("seq", raw("spl", t))


def length(t):
    return lift("len", _len, [t])


def _len(t):
    if t.op == "tuple":
        return C(len(t.a))
    if t.op == "c" and isinstance(t.a[0], str):
        return C(len(t.a[0]))
    if t.op == "range":
        return t.a[0]
    if t.op == "seq":
        r = ZERO
        for s in t.a:
            if s.op == "one":
                r = add(r, ite(pres(s.a[0]), ONE, ZERO))
            elif s.op == "spl":
                r = add(r, length(s.a[0]))
            elif s.op == "each":
                v = fresh(s.a[0])
                r = add(r, tsum(s.a[0], v, length(openb(s, v)[0])))
            else:
                return raw("len", t)
        return r
    if t.op == "map":
        if all(s.op in ("set", "eachm", "splm") for s in t.a) and distinct(t, EMPTY):
            return _maplen(t)
        return raw("len", t)
    if t.op == "keys":
        return _len(t.a[0])
    if t.op == "app":
        if t.a[0] in ("sorted", "list", "asarray", "array", "tuple", "reversed", "permuted", "enumerate"):
            return length(t.a[1])
    if t.op == "poly":
        for h in LEN_HOOKS:
            r = h(t)
            if r is not None:
                return r
    return raw("len", t)


def _maplen(t):
    r = ZERO
    for s in t.a:
        if s.op == "set":
            r = add(r, ite(pres(s.a[1]), ONE, ZERO))
        elif s.op == "splm":
            r = add(r, length(s.a[0]))
        elif s.op == "eachm":
            v = fresh(s.a[0])
            b = openb(s, v)[0]
            r = add(r, tsum(s.a[0], v, _maplen(b) if b.op == "map" else length(b)))
        else:
            return raw("len", t)
    return r


IDX_HOOKS = []
LEN_HOOKS = []


def idx(t, k):
    if k.op == "ite" or t.op == "ite":
        return lift("idx", idx, [t, k])
    if t is ABSENT or t is UNDEF:
        return t
    if t.op == "tuple" and isnum(k):
        i = int(k.a[0])
        if -len(t.a) <= i < len(t.a):
            return t.a[i]
        return raw("app", "indexerror")
    if t.op == "c" and isinstance(t.a[0], str) and isnum(k):
        try:
            return C(t.a[0][int(k.a[0])])
        except IndexError:
            return raw("app", "indexerror")
    if t.op == "range":
        if isnum(k) and k.a[0] < 0:
            return add(t.a[0], k)
        return k
    if t.op == "seq":
        r = _seqidx(t, k)
        if r is not None:
            return r
    if t.op == "map":
        return get(t, k)
    if t.op == "poly":
        for h in IDX_HOOKS:
            r = h(t, k)
            if r is not None:
                return r
    if t.op == "app":
        if t.a[0] in ("asarray", "array", "list", "tuple") and len(t.a) == 2:
            return idx(t.a[1], k)
        if t.a[0] == "slice" and len(t.a) == 4 and isnum(k) and k.a[0] >= 0 and isnum(t.a[2]) and t.a[2].a[0] >= 0 \
                and isnum(t.a[3]) and k.a[0] + t.a[2].a[0] < t.a[3].a[0]:
            return idx(t.a[1], add(t.a[2], k))
    if isnum(k) and k.a[0] < 0 and t.op not in ("map",):
        y = unopt(ty(t))
        if isinstance(y, tuple) and y[0] == "list":
            return idx(t, add(length(t), k))
    return raw("idx", t, k)


def _seqidx(t, k):
    segs = t.a
    if len(segs) == 1:
        s = segs[0]
        if s.op == "spl":
            return idx(s.a[0], k)
        if s.op == "each":
            b = s.a[1]
            if b.op == "seq" and len(b.a) == 1 and b.a[0].op == "one" and not _has_absent(b.a[0].a[0]):
                if isnum(k) and k.a[0] < 0:
                    k = add(s.a[0], k)
                v = fresh(s.a[0])
                x = openb(s, v)[0].a[0].a[0]
                return subst(x, {v: k})
    if isnum(k):
        i = int(k.a[0])
        if i >= 0:
            for s in segs:
                if s.op == "one" and not _has_absent(s.a[0]):
                    if i == 0:
                        return s.a[0]
                    i -= 1
                else:
                    return None
        else:
            i = -i - 1
            for s in reversed(segs):
                if s.op == "one" and not _has_absent(s.a[0]):
                    if i == 0:
                        return s.a[0]
                    i -= 1
                else:
                    return None
        return None
    # symbolic index: walk segments whose length is comparable
    if len(segs) == 1:
        return None
    off = ZERO
    for j, s in enumerate(segs):
        n = _len(raw("seq", s))
        rel = sub(k, off)
        inside = cmp("<", rel, n)
        if inside is TRUE and cmp("<=", ZERO, rel) is TRUE:
            return _seqidx(raw("seq", s), rel) if s.op != "one" else s.a[0]
        if inside is FALSE:
            off = add(off, n)
            continue
        if j == len(segs) - 1 and cmp("<=", ZERO, rel) is TRUE:
            if s.op == "one":
                return s.a[0]
            return _seqidx(raw("seq", s), rel)
        return None
    return None


def attr(t, name):
    return lift("attr", lambda x: _attr(x, name), [t], name)


def _attr(t, name):
    if t is ABSENT or t is UNDEF:
        return t
    if t.op == "obj" and name in t.a[1]:
        return t.a[2 + t.a[1].index(name)]
    for h in ATTR_HOOKS:
        r = h(t, name)
        if r is not None:
            return r
    if t.op == "idx" and t.a[0].op == "seq":
        # the attribute of an element of a known sequence: the element of the sequence of attributes
        m = _seqattr(t.a[0], name)
        if m is not None:
            return idx(m, t.a[1])
    return raw("attr", t, name)


_sa_memo = {}


def _seqattr(q, name):
    r = _sa_memo.get((q, name), 0)
    if r == 0:
        r = _sa_memo[(q, name)] = _seqattr1(q, name)
    return r


def _seqattr1(q, name):
    out = []
    for s in q.a:
        if s.op == "one":
            if not all(x is ABSENT or (x.op == "obj" and name in x.a[1]) for x in leaves(s.a[0])):
                return None
            out.append(raw("one", mapleaves(s.a[0], lambda x: x if x is ABSENT else _attr(x, name))))
        elif s.op == "each":
            v = fresh(s.a[0])
            b = openb(s, v)[0]
            b = _seqattr(b, name) if b.op == "seq" else None
            if b is None:
                return None
            out += list(each(s.a[0], v, b).a)
        else:
            return None
    return seqcat(out)


ATTR_HOOKS = []
GET_HOOKS = []


# ---------------------------------------------------------------- maps
def mapcat(segs):
    out = []

    def put(s):
        if s.op == "map":
            for x in s.a:
                put(x)
            return
        if s.op in ("set", "acc"):
            if s.a[1] is ABSENT:
                return
            if s.op == "set" and not _has_absent(s.a[1]):
                for j in range(len(out) - 1, -1, -1):
                    o = out[j]
                    if o.op in ("set", "acc"):
                        e = key_eq(o.a[0], s.a[0])
                        if e is True:
                            if o.op == "set" and not _has_absent(o.a[1]):
                                out[j] = s       # overwrite keeps the position
                                return
                            del out[j]
                            continue
                        if e is False:
                            continue
                    break
            elif s.op == "set":
                # conditional overwrite
                for j in range(len(out) - 1, -1, -1):
                    o = out[j]
                    if o.op in ("set", "acc"):
                        e = key_eq(o.a[0], s.a[0])
                        if e is True:
                            if o.op == "set":
                                out[j] = raw("set", s.a[0], overlay(s.a[1], o.a[1]))
                                return
                            break
                        if e is False:
                            continue
                    break
            elif s.op == "acc":
                for j in range(len(out) - 1, -1, -1):
                    o = out[j]
                    if o.op in ("set", "acc"):
                        e = key_eq(o.a[0], s.a[0])
                        if e is True:
                            if not _has_absent(o.a[1]) and not _has_absent(s.a[1]):
                                out[j] = raw(o.op, o.a[0], add(o.a[1], s.a[1]))
                                return
                            if o.op == "acc" or not _has_absent(o.a[1]):
                                z = mapleaves(s.a[1], lambda x: ZERO if x is ABSENT else x)
                                if not _has_absent(o.a[1]):
                                    out[j] = raw(o.op, o.a[0], add(o.a[1], z))
                                    return
                                out[j] = raw("acc", o.a[0], _addabs(o.a[1], s.a[1]))
                                return
                            break
                        if e is False:
                            continue
                    break
                o = out[-1] if out else None
                if o is not None and o.op == "acc" and _has_absent(o.a[1]) and _has_absent(s.a[1]):
                    x, y = (o, s) if o.a[0] < s.a[0] else (s, o)
                    px, py = (mapleaves(z.a[1], lambda u: FALSE if u is ABSENT else TRUE) for z in (x, y))
                    if band(px, py) is FALSE and bor(px, py) is TRUE:
                        # either one or the other
                        out[-1] = raw("acc", ite(px, x.a[0], y.a[0]), overlay(x.a[1], y.a[1]))
                        return
        elif s.op == "eachm":
            if s.a[0] is ZERO:
                return
            b = s.a[1]
            if b.op == "map" and not b.a:
                return
            if out and out[-1].op == "eachm" and out[-1].a[0] is s.a[0]:
                p = out[-1]
                v = fresh(s.a[0])
                x, y = openb(p, v)[0], openb(s, v)[0]
                if (x.op == "map" and y.op == "map" and len(x.a) == 1 and len(y.a) == 1
                        and x.a[0].op == y.a[0].op == "set"):
                    e, f = x.a[0].a[1], y.a[0].a[1]
                    if x.a[0].a[0] is y.a[0].a[0] and band(pres(e), pres(f)) is FALSE and \
                            band(quant_out(pres(e), v), quant_out(pres(f), v)) is FALSE:
                        out.pop()
                        put(eachm(s.a[0], v, raw("map", raw("set", x.a[0].a[0], overlay(e, f)))))
                        return
        elif s.op == "splm":
            if s.a[0].op == "map":
                put(s.a[0])
                return
            if s.a[0].op == "ite":
                z = asmap(s.a[0])
                if z.op == "map":
                    put(z)
                    return
        elif s.op in ("del", "gdel", "gseg"):
            if s.op == "del":
                for j in range(len(out) - 1, -1, -1):
                    o = out[j]
                    if o.op in ("set", "acc"):
                        e = key_eq(o.a[0], s.a[0])
                        if e is True:
                            del out[j]
                            if all(q.op == "set" for q in out):
                                return
                            continue
                        if e is False:
                            continue
                    break
        else:
            s = raw("splm", s)
        out.append(s)
        settle(out)

    for s in segs:
        put(s)
    return raw("map", *out)


def _addabs(x, y):
    """sum of two partial values"""
    def f(a, b):
        if a is ABSENT:
            return b
        if b is ABSENT:
            return a
        return _add(a, b)
    return lift("addabs", f, [x, y])


def eachm(n, v, body):
    if n.op == "ite":
        return ite(lit(n.a[0]), eachm(n.a[1], v, body), eachm(n.a[2], v, body))
    if isnum(n):
        k = n.a[0]
        if k <= 0:
            return raw("map")
        if k <= 4 and k.denominator == 1:
            return mapcat([subst(body, {v: C(i)}) for i in range(int(k))])
    if body.op != "map":
        body = raw("map", raw("splm", body))
    if not body.a:
        return body
    if len(body.a) == 1 and body.a[0].op == "set":
        k, x = body.a[0].a
        if (k.op == "idx" and k.a[1] is v and k.a[0].op == "keys" and x.op == "get"
                and x.a[0] is k.a[0].a[0] and x.a[1] is k and v.a[0] not in k.a[0].fs
                and length(k.a[0]) is n):
            return raw("map", raw("splm", k.a[0].a[0]))
    return raw("map", close("eachm", n, v, body))


def key_eq(a, b):
    """True / False / None: keys definitely equal / different / unknown"""
    if a is b:
        return True
    c = cmp("==", a, b)
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    if a.op == "tuple" and b.op == "tuple":
        if any(key_eq(x, y) is False for x, y in zip(a.a, b.a)):
            return False
    # names built from distinct literal pieces are assumed distinct
    if (a.op == "cat") != (b.op == "cat") and (ty(a) == "str" and ty(b) == "str"):
        return False
    if a.op == "cat" and b.op == "cat":
        sa = tuple(x.a[0] if x.op == "c" else None for x in a.a)
        sb = tuple(x.a[0] if x.op == "c" else None for x in b.a)
        if sa != sb:
            return False
    return None


def unify(pat, k, v):
    """solve pat(v) == k for v; returns the solution term or None; FALSE-able mismatches -> False"""
    if v.a[0] not in pat.fs:
        e = key_eq(pat, k)
        return ("free" if e else (False if e is False else None))
    if pat is v:
        return k
    if pat.op == "poly" and ty(pat) == "int":
        d = _pd(pat)
        mv = ((v, Fr(1)),)
        if mv in d and abs(d[mv]) == 1 and not any(m != mv and any(v.a[0] in x.fs for x, _ in m) for m in d):
            rest = _mk({m: c for m, c in d.items() if m != mv})
            return mul(C(d[mv]), sub(k, rest))
        return None
    if pat.op != k.op:
        if (pat.op == "cat") != (k.op == "cat") and ty(pat) == "str" and ty(k) == "str":
            return False
        return None
    if pat.op in ("attr", "str", "idx", "tuple", "cat", "get", "app", "keys", "obj"):
        if len(pat.a) != len(k.a):
            return False if pat.op in ("tuple",) else None
        if pat.op == "cat":
            sa = tuple(x.a[0] if x.op == "c" else None for x in pat.a)
            sb = tuple(x.a[0] if x.op == "c" else None for x in k.a)
            if sa != sb:
                return False
        sol = None
        for x, y in zip(pat.a, k.a):
            if isinstance(x, T) != isinstance(y, T):
                return None
            if not isinstance(x, T):
                if x != y:
                    return None
                continue
            if v.a[0] not in x.fs:
                if x is y:
                    continue
                if pat.op == "tuple":
                    e = key_eq(x, y)
                    if e is False:
                        return False
                    if e is None:
                        return None
                    continue
                return None
            s = unify(x, y, v)
            if s is None or s is False:
                return s
            if sol is not None and s is not sol and s != "free":
                return None
            if s != "free":
                sol = s
        return sol if sol is not None else "free"
    return None


def lookup(m, k):
    """(value-with-ABSENT, exact) of key k in map term m; value None if undecidable"""
    if m.op == "ite":
        h = lookup(m.a[1], k)
        l = lookup(m.a[2], k)
        if h is None or l is None:
            return None
        return ite(lit(m.a[0]), h, l)
    if m.op != "map":
        return None
    res = ABSENT
    acc = ZERO
    for s in m.a:
        r = _lookseg(s, k)
        if r is None:
            return None
        kind, val = r
        if kind == "set":
            res = overlay(val, res)
        elif kind == "acc":
            if val is ABSENT:
                continue
            res = _addabs(res, val)
        elif kind == "del":
            res = ABSENT
    return res


_DISTINCT = {"setiter", "set", ".nodes", ".edges", ".keys"}


def _names(m):
    """the index of the names of a program: different names have different positions"""
    return m.op == "attr" and m.a[1] in ("variables_index", "_variables_index")


def inj(t, vs):
    """the index variables (ids in vs) that the value of key t determines"""
    vs = vs & t.fs
    if not vs:
        return EMPTY
    if t.op == "v":
        return frozenset((t.a[0],)) & vs
    if t.op == "poly":
        on = [(m, c) for m, c in t.a if any(x.fs & vs for x, _ in m)]
        if len(on) == 1:
            m = [x for x, e in on[0][0] if x.fs & vs]
            if len(m) == 1 and len(on[0][0]) == 1 and on[0][0][0][1] == 1:
                return inj(m[0], vs)
        return EMPTY
    if t.op in ("tuple", "cat"):
        r, parts = EMPTY, {}
        for x in t.a:
            r = r | inj(x, vs)
            while True:
                if x.op == "get" and _names(x.a[0]) or x.op == "app" and x.a[0] == "int" and len(x.a) == 2:
                    x = x.a[1]
                elif x.op == "attr" and x.a[1] in ("name", "_name") and x.a[0].op == "idx":
                    x = x.a[0].a[1]
                else:
                    break
            if x.op == "idx" and isnum(x.a[1]):
                parts.setdefault(x.a[0], set()).add(x.a[1])
        for b, ix in parts.items():
            if ix >= {ZERO, ONE}:           # both components of a pair
                r = r | inj(b, vs)
        return r
    if t.op == "get" and _names(t.a[0]):
        return inj(t.a[1], vs)
    if t.op == "idx" and t.a[1] is ONE and t.a[0].op == "idx" and t.a[0].a[0].op == "keys":
        x = t.a[0].a[0].a[0]                # the keys of a row vector are (0, j)
        if x.op == "attr" and x.a[1] == "_coefficients" and x.a[0].op == "attr" and x.a[0].a[1] in ("linear", "_linear"):
            return inj(t.a[0].a[1], vs)
    if t.op in ("seq", "one", "spl", "str"):
        r = EMPTY
        for x in t.a:
            if isinstance(x, T):
                r = r | inj(x, vs)
        return r
    if t.op == "ite":
        return inj(t.a[1], vs) & inj(t.a[2], vs)
    if t.op == "app" and t.a[0] == "int" and len(t.a) == 2:
        return inj(t.a[1], vs)
    if t.op == "idx" and not (t.a[0].fs & vs):
        x = t.a[0]
        if x.op == "keys" or x.op == "app" and x.a[0] in _DISTINCT or x.op == "attr" and x.a[1] in ("variables", "_variables"):
            return inj(t.a[1], vs)
        return EMPTY
    if t.op == "attr" and t.a[1] in ("name", "_name"):
        x = t.a[0]          # names are unique
        if x.op in ("idx", "get") and not (x.a[0].fs & vs):
            return inj(x.a[1], vs)
        return EMPTY
    return EMPTY


def distinct(m, vs):
    """every loop of a map writes pairwise different keys"""
    for s in m.a:
        if s.op == "set":
            if vs and inj(s.a[0], vs) != vs:
                return False
        elif s.op == "eachm":
            v = fresh(s.a[0])
            b, = openb(s, v)
            if b.op != "map" or not distinct(b, vs | {v.a[0]}):
                return False
        elif s.op == "splm":
            if vs:
                return False
    return True


def _lookseg(s, k):
    if s.op in ("set", "acc"):
        e = key_eq(s.a[0], k)
        if e is True:
            return s.op, s.a[1]
        if e is False:
            return s.op, ABSENT
        c = cmp("==", s.a[0], k)
        if c.op == "ite" and _simple_eq(c):
            return s.op, ite(c, s.a[1], ABSENT)
        return None
    if s.op == "del":
        e = key_eq(s.a[0], k)
        if e is None:
            return None
        return ("del" if e else "set"), ABSENT
    if s.op == "splm":
        t = s.a[0]
        if t.op == "app" and t.a[0] == "full":
            return "set", t.a[1]
        c = contains(t, k)
        return "set", ite(c, get(t, k), ABSENT)
    if s.op == "eachm":
        v = fresh(s.a[0])
        b = openb(s, v)[0]
        if b.op != "map":
            return None
        val = ABSENT
        kinds = {x.op for x in b.a}
        kind = "acc" if "acc" in kinds else "set"
        if kind == "acc" and len(kinds) > 1:
            return None
        for x in b.a:
            if x.op in ("set", "acc"):
                u = unify(x.a[0], k, v)
                if u is None:
                    return None
                if isinstance(u, T) and not inj(x.a[0], frozenset((v.a[0],))):
                    NI.append(x.a[0])
                    return None
                if u is False:
                    continue
                if u == "free":
                    return None
                y = subst(x.a[1], {v: u})
                inr = _inrange(u, s.a[0])
                y = ite(inr, y, ABSENT)
                val = overlay(y, val)
            elif x.op == "eachm":
                v2 = fresh(x.a[0])
                b2 = openb(x, v2)[0]
                if b2.op != "map" or len(b2.a) != 1 or b2.a[0].op not in ("set", "acc"):
                    return None
                if b2.a[0].op == "acc":
                    kind = "acc"
                kk = b2.a[0].a[0]
                sol = unify2(kk, k, v, v2)
                if sol is None:
                    return None
                if sol is False:
                    continue
                if len(inj(kk, frozenset((v.a[0], v2.a[0])))) < 2:
                    NI.append(kk)
                    return None
                u1, u2 = sol
                y = subst(subst(b2.a[0].a[1], {v2: u2}), {v: u1})
                n2 = subst(x.a[0], {v: u1})
                y = ite(band(_inrange(u1, s.a[0]), _inrange(u2, n2)), y, ABSENT)
                val = overlay(y, val)
            else:
                return None
        return kind, val
    return None


def _simple_eq(c):
    return True


def unify2(pat, k, v1, v2):
    if pat.op != k.op or len(pat.a) != len(k.a):
        if pat.op == "cat" or k.op == "cat":
            return False
        return None
    if pat.op == "cat":
        sa = tuple(x.a[0] if x.op == "c" else None for x in pat.a)
        sb = tuple(x.a[0] if x.op == "c" else None for x in k.a)
        if sa != sb:
            return False
    s1 = s2 = None
    for x, y in zip(pat.a, k.a):
        if not isinstance(x, T) or x is y:
            continue
        d1, d2 = v1.a[0] in x.fs, v2.a[0] in x.fs
        if d1 and d2:
            r = unify2(x, y, v1, v2) if isinstance(y, T) else None
            if r is None or r is False:
                return r
            s1, s2 = r
        elif d1:
            s = unify(x, y, v1)
            if s is None or s is False or s == "free":
                return s if s != "free" else None
            if s1 is not None and s1 is not s:
                return None
            s1 = s
        elif d2:
            s = unify(x, y, v2)
            if s is None or s is False or s == "free":
                return s if s != "free" else None
            if s2 is not None and s2 is not s:
                return None
            s2 = s
        else:
            e = key_eq(x, y)
            if e is False:
                return False
            if e is None:
                return None
    if s1 is None or s2 is None:
        return None
    return s1, s2


INRANGE_TRUST = [True]


def _inrange(u, n):
    """index u of a lookup solved by unification; in-range unless provably not.
    Keys of maps built from a sequence come from that sequence (documented assumption)."""
    c = band(cmp("<=", ZERO, u), cmp("<", u, n))
    if c is TRUE or c is FALSE:
        return c
    if u.op in ("v", "B") or (u.op in ("idx", "attr", "get", "sym")):
        return TRUE
    return c


def _whole(m, k):
    """value of a conditional key that is, as a whole, the key some step of a loop wrote"""
    if m.op != "map" or len(m.a) != 1 or m.a[0].op != "eachm":
        return None
    e = m.a[0]
    v = fresh(e.a[0])
    b, = openb(e, v)
    if b.op != "map" or len(b.a) != 1 or b.a[0].op != "set":
        return None
    pat, val = b.a[0].a
    if pat.op != "ite" or _has_absent(val):
        return None
    for x in leaves(pat):
        for y in leaves(k):
            u = unify(x, y, v) if v.a[0] in x.fs else None
            if isinstance(u, T) and u.op != "ite" and subst(pat, {v: u}) is k:
                return subst(val, {v: u})
    return None


def get(m, k, default=None):
    if k.op == "ite":
        r = _whole(m, k)
        if r is not None:
            return r
    if m.op == "ite" or k.op == "ite":
        if default is None:
            return lift("get", get, [m, k])
        return lift("getd", get, [m, k, default])
    if m.op == "map":
        r = lookup(m, k)
        if r is not None:
            if default is not None:
                return overlay(r, default)
            return strip_absent(r)
        if default is not None and (isnum(default) or ty(default) in ("int", "float", "num")):
            return raw("get", m, k, default)
        if default is not None:
            return ite(contains(m, k), get(m, k), default)
        if len(m.a) == 1 and m.a[0].op == "eachm":
            # look up the position of the key, then the value there
            n = m.a[0].a[0]
            v = fresh(n)
            b = openb(m.a[0], v)[0]
            if b.op == "map" and len(b.a) == 1 and b.a[0].op == "set":
                k1, x = b.a[0].a
                if x is not v and not _has_absent(x):
                    pos = raw("get", mapcat([close("eachm", n, v, raw("map", raw("set", k1, v)))]), k)
                    pos._ty = "int"
                    return subst(x, {v: pos})
        return raw("get", m, k)
    if default is not None:
        c = contains(m, k)
        if c is TRUE:
            return get(m, k)
        return ite(c, raw("get", m, k), default)
    y = unopt(ty(m))
    if m.op == "tuple" or (isinstance(y, tuple) and y[0] == "list") or m.op == "seq":
        return idx(m, k)
    for h in GET_HOOKS:
        r = h(m, k)
        if r is not None:
            return r
    return raw("get", m, k)


def contains(m, k):
    if k.op == "ite" and _whole(m, k) is not None:
        return TRUE
    return lift("in", _contains, [m, k])


def _contains(m, k):
    if m.op == "map":
        r = lookup(m, k)
        if r is not None:
            return pres(r)
        return lit(raw("in", k, m))
    if m.op == "tuple":
        return bor(*[cmp("==", x, k) for x in m.a])
    if m.op == "seq" and all(s.op == "one" for s in m.a):
        return bor(*[band(pres(s.a[0]), cmp("==", strip_absent(s.a[0]), k)) for s in m.a])
    if m.op == "c" and k.op == "c" and isinstance(m.a[0], str) and isinstance(k.a[0], str):
        return TRUE if k.a[0] in m.a[0] else FALSE
    if m.op == "keys":
        return contains(m.a[0], k)
    # k is literally a key/element of m
    if k.op == "idx" and (k.a[0] is m or (k.a[0].op == "keys" and k.a[0].a[0] is m)):
        return TRUE
    if m.op == "seq":
        r = FALSE
        for s in m.a:
            if s.op == "one":
                r = bor(r, band(pres(s.a[0]), cmp("==", strip_absent(s.a[0]), k)))
            elif s.op == "spl":
                r = bor(r, contains(s.a[0], k))
            elif s.op == "each":
                v = fresh(s.a[0])
                r = bor(r, exists(s.a[0], v, contains(openb(s, v)[0], k)))
            else:
                return lit(raw("in", k, m))
        return r
    if m.op == "range":
        return band(cmp("<=", ZERO, k), cmp("<", k, m.a[0]))
    return lit(raw("in", k, m))


def keys(m):
    return lift("keys", _keys, [m])


def _keys(m):
    if m.op == "map" and all(s.op in ("set", "eachm", "splm") for s in m.a):
        r = _mapseq(m, lambda k, x: mapleaves(x, lambda y: ABSENT if y is ABSENT else k),
                    lambda t: spl(keys(t)))
        if r is not None:
            return r
    return raw("keys", m)


def items(m):
    if m.op == "ite":
        return lift("items", items, [m])
    if m.op == "map" and all(s.op in ("set", "eachm", "splm") for s in m.a):
        def it(t):
            ks = keys(t)
            n = length(ks)
            v = fresh(n)
            k = idx(ks, v)
            return each(n, v, mkseq([raw("tuple", k, get(t, k))]))
        r = _mapseq(m, lambda k, x: mapleaves(x, lambda y: ABSENT if y is ABSENT else raw("tuple", k, y)), it)
        if r is not None:
            return r
    ks = keys(m)
    n = length(ks)
    v = fresh(n)
    k = idx(ks, v)
    return each(n, v, mkseq([raw("tuple", k, get(m, k))]))


def values(m):
    if m.op == "ite":
        return lift("values", values, [m])
    if m.op == "map" and all(s.op in ("set", "eachm", "splm") for s in m.a):
        def it(t):
            ks = keys(t)
            n = length(ks)
            v = fresh(n)
            return each(n, v, mkseq([get(t, idx(ks, v))]))
        r = _mapseq(m, lambda k, x: x, it)
        if r is not None:
            return r
    ks = keys(m)
    n = length(ks)
    v = fresh(n)
    return each(n, v, mkseq([get(m, idx(ks, v))]))


NI = []


def _mapseq(m, f, g):
    if not distinct(m, EMPTY):
        NI.append(m)
        return None
    return _mapseq_(m, f, g)


def _mapseq_(m, f, g):
    out = []
    for s in m.a:
        if s.op == "set":
            out.append(raw("one", f(s.a[0], s.a[1])))
        elif s.op == "splm":
            out.append(g(s.a[0]))
        elif s.op == "eachm":
            v = fresh(s.a[0])
            b = openb(s, v)[0]
            if b.op != "map" or not all(x.op in ("set", "eachm", "splm") for x in b.a):
                return None
            r = _mapseq_(b, f, g)
            if r is None:
                return None
            out.append(each(s.a[0], v, r))
        else:
            return None
    return seqcat(out)


# ---------------------------------------------------------------- isinstance
TYCLS = {"int": "int", "float": "float", "str": "str", "bool": "bool", "none": "NoneType"}
CLASS_MRO = {}   # obj class name -> set of base names


def isinst(t, cls):
    return lift("isinst", lambda x: _isinst(x, cls), [t], cls)


def _isinst(t, cls):
    y = ty(t)
    if t is NONE:
        return TRUE if cls == "NoneType" else FALSE
    if t.op == "c":
        v = t.a[0]
        if isinstance(v, str):
            return TRUE if cls == "str" else FALSE
        if isinstance(v, bool):
            return TRUE if cls in ("bool", "int") else FALSE
        if isinstance(v, Fr):
            if cls in ("int", "float"):
                return TRUE if (cls == "int") == (v.denominator == 1) else FALSE
            return FALSE
    if t.op == "tuple":
        return TRUE if cls in ("tuple", "collections.abc.Sequence") else FALSE
    if isinstance(y, str):
        if y in ("int", "float", "str", "bool"):
            if cls in ("int", "float", "str", "bool", "list", "dict", "tuple", "set", "numpy.ndarray",
                       "scipy.sparse.spmatrix", "collections.abc.Sequence"):
                if y == cls or (y == "bool" and cls == "int"):
                    return TRUE
                if y == "str" and cls.endswith("Sequence"):
                    return TRUE
                return FALSE
            return FALSE
    elif y[0] == "list":
        if cls in ("list",) or cls.endswith("Sequence"):
            return TRUE
        return FALSE
    elif y[0] == "array":
        return TRUE if cls == "numpy.ndarray" else FALSE
    elif y[0] == "dict":
        if cls in ("dict",):
            return TRUE
        return FALSE
    elif y[0] == "tuple":
        return TRUE if cls == "tuple" else FALSE
    elif y[0] == "obj":
        mro = CLASS_MRO.get(y[1])
        if mro is not None:
            if cls in mro:
                return TRUE
            sub_ = any(y[1] in CLASS_MRO[c] for c in CLASS_MRO if c == cls)
            if not sub_:
                return FALSE
        elif cls in CONCRETE:
            return FALSE
    elif y[0] == "enum":
        return TRUE if cls == y[1] else FALSE
    if t.op == "ref":
        pass
    return lit(raw("isinst", t, cls))


# ---------------------------------------------------------------- printing
def show(t, d=8):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, d) for x in t) + ")"
        return str(t)
    if d < 0:
        return "…"
    op, a = t.op, t.a
    if op == "c":
        if isinstance(a[0], Fr):
            return str(a[0])
        return repr(a[0])
    if op == "enum":
        return "%s.%s" % (a[0].split(".")[-1], a[1])
    if op == "sym":
        return str(a[0])
    if op == "v":
        return "v%d" % a[0]
    if op == "B":
        return "i%d" % a[0]
    if op == "poly":
        out = []
        for m, c in a:
            fs = []
            if c != 1 or not m:
                fs.append(str(c))
            for x, e in m:
                fs.append(show(x, d - 1) + ("" if e == 1 else "^%s" % e))
            out.append("*".join(fs))
        return "(" + " + ".join(out) + ")"
    if op == "ite":
        if t.a[1] is TRUE and t.a[2] is FALSE:
            return show(a[0], d - 1)
        if t.a[1] is FALSE and t.a[2] is TRUE:
            return "not(" + show(a[0], d - 1) + ")"
        return "[%s ? %s : %s]" % (show(a[0], d - 1), show(a[1], d - 1), show(a[2], d - 1))
    if op in ("lt", "le"):
        return "%s %s %s" % (show(a[0], d - 1), "<" if op == "lt" else "<=", a[1])
    if op == "eqc" or op == "eq":
        return "%s == %s" % (show(a[0], d - 1), show(a[1], d - 1))
    if op == "attr":
        return show(a[0], d) + "." + a[1]
    if op in ("idx", "get"):
        return show(a[0], d) + "[" + ",".join(show(x, d - 1) for x in a[1:]) + "]"
    if op == "sum":
        return "Σ(i%d<%s)[%s]%s" % (a[3], show(a[0], d - 1), show(a[1], d - 1), show(a[2], d - 1))
    if op == "each":
        return "each(i%d<%s: %s)" % (a[2], show(a[0], d - 1), show(a[1], d - 1))
    if op == "eachm":
        return "eachm(i%d<%s: %s)" % (a[2], show(a[0], d - 1), show(a[1], d - 1))
    if op == "exists":
        return "∃(i%d<%s: %s)" % (a[2], show(a[0], d - 1), show(a[1], d - 1))
    if op == "one":
        return show(a[0], d)
    if op == "seq":
        return "[" + ", ".join(show(x, d - 1) for x in a) + "]"
    if op == "map":
        return "{" + ", ".join(show(x, d - 1) for x in a) + "}"
    if op == "set":
        return show(a[0], d - 1) + ": " + show(a[1], d - 1)
    if op == "acc":
        return show(a[0], d - 1) + " += " + show(a[1], d - 1)
    if op == "tuple":
        return "(" + ", ".join(show(x, d - 1) for x in a) + ",)"
    if op == "obj":
        return a[0].split(".")[-1] + "(" + ", ".join(f + "=" + show(x, d - 1) for f, x in zip(a[1], a[2:])) + ")"
    if op == "app":
        return str(a[0]) + "(" + ", ".join(show(x, d - 1) for x in a[1:]) + ")"
    return op + "(" + ", ".join(show(x, d - 1) for x in a) + ")"
