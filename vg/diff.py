"""Localises the differences between two outcome terms and decides whether they are definite.

A difference is definite when both sides are fully understood: the differing
sub-terms contain nothing the analyser gave up on (opaque values, unsolved
recurrences that only one side has, external functions only one side uses)."""
from . import terms as tm
from .terms import T

GIVEUP = {"opaque"}
LOOPS = {"while", "fold", "whileret", "whilestop"}


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for y in x.a:
            if isinstance(y, T):
                st.append(y)
            elif isinstance(y, tuple):
                st.extend(tm._flatT(y))
    return seen


def tags(ts):
    """features of the given terms that the normaliser cannot see through"""
    g, f = set(), {}
    for x in ts:
        if x.op in GIVEUP:
            g.add(x.op + ":" + str(x.a[0])[:60])
        elif x.op == "app":
            h = x.a[0]
            if h in LOOPS:
                g.add(h)
            f[h] = f.get(h, 0) + 1
        elif x.op in ("first", "last", "maxof", "psum", "gseg", "gdel", "del"):
            f[x.op] = f.get(x.op, 0) + 1
    return g, f


class Pair:
    __slots__ = ("path", "a", "b", "definite", "why", "judged")

    def __init__(self, path, a, b):
        self.path, self.a, self.b = path, a, b
        self.definite, self.why, self.judged = True, "", False


def align(a, b, path="", out=None, depth=0):
    out = [] if out is None else out
    if a is b or len(out) > 60:
        return out
    if depth > 200:
        out.append(Pair(path, a, b))
        return out

    def rec(x, y, p):
        align(x, y, p, out, depth + 1)

    if a.op == b.op and a.op not in GIVEUP:
        op = a.op
        if op == "ite":
            if a.a[0] is b.a[0]:
                rec(a.a[1], b.a[1], path)
                rec(a.a[2], b.a[2], path)
                return out
            if a.a[1] is b.a[1] and a.a[2] is b.a[2] and a.a[0].op == b.a[0].op:
                rec(a.a[0], b.a[0], path + "?")
                return out
            return stuck(a, b, path, out, depth)
        if op == "ret":
            rec(a.a[0], b.a[0], path)
            return out
        if op == "tuple" and len(a.a) == len(b.a):
            for i, (x, y) in enumerate(zip(a.a, b.a)):
                rec(x, y, "%s[%d]" % (path, i))
            return out
        if op == "obj" and a.a[0] == b.a[0]:
            fa, fb = dict(zip(a.a[1], a.a[2:])), dict(zip(b.a[1], b.a[2:]))
            for f in sorted(set(fa) | set(fb)):
                x, y = fa.get(f, tm.UNDEF), fb.get(f, tm.UNDEF)
                if x is not y:
                    rec(x, y, "%s.%s" % (path, f))
            return out
        if op in ("seq", "map") and len(a.a) == len(b.a):
            for i, (x, y) in enumerate(zip(a.a, b.a)):
                if x is not y:
                    rec(x, y, "%s<%d>" % (path, i))
            return out
        if op in tm.BINDERS and a.a[0] is b.a[0] and len(a.a) == len(b.a):
            v = tm.fresh(a.a[0])
            for x, y in zip(tm.openb(a, v), tm.openb(b, v)):
                if x is not y:
                    rec(x, y, path + ":" + op)
            return out
        if op == "poly":
            ma, mb = dict(a.a), dict(b.a)
            ra = {m: c for m, c in ma.items() if mb.get(m) != c}
            rb = {m: c for m, c in mb.items() if ma.get(m) != c}
            if len(ra) == len(rb) == 1:
                (m1, c1), = ra.items()
                (m2, c2), = rb.items()
                if c1 == c2 and len(m1) == len(m2):
                    d = [(x, y) for x, y in zip(m1, m2) if x != y]
                    if len(d) == 1 and d[0][0][1] == d[0][1][1]:
                        rec(d[0][0][0], d[0][1][0], path + "+")
                        return out
            return stuck(a, b, path, out, depth)
        if op == "app" and a.a[0] in LOOPS and a.a[0] == b.a[0]:
            return loop(a, b, path, out, depth)
        if op == "idx" and all(x.a[0].op == "app" and x.a[0].a[0] in LOOPS for x in (a, b)) and a.a[0] is not b.a[0]:
            # which component of the state it is matters only when the loops correspond
            sub = [p if p.judged else judge(p) for p in align(a.a[0], b.a[0], path, None, depth + 1)]
            for p in sub:
                p.judged = True
            out.extend(sub)
            if any(not p.definite for p in sub) or a.a[1] is b.a[1]:
                return out
            rec(a.a[1], b.a[1], path + "/idx")
            return out
        if len(a.a) == len(b.a) and op not in ("c", "sym", "v", "B", "enum"):
            nt = [(x, y) for x, y in zip(a.a, b.a) if not isinstance(x, T) or not isinstance(y, T)]
            if all(x == y for x, y in nt):
                for x, y in zip(a.a, b.a):
                    if isinstance(x, T) and x is not y:
                        rec(x, y, path + "/" + op)
                return out
    return stuck(a, b, path, out, depth)


def loop(a, b, path, out, depth):
    """two loops of the same shape differ: in their trip count, initial state or step"""
    if len(a.a) != len(b.a) or depth > 190:
        out.append(Pair(path, a, b))
        return out
    sub = []
    # the state of a loop is what its author chose to carry: with a different number of
    # components, or other initial values and another step, both may describe the same thing
    other = shape(a) != shape(b)
    if not other:
        i = shape(a)[3]
        other = a.a[i] is not b.a[i] and any(x is not y for x, y in zip(a.a[i + 1:], b.a[i + 1:]))
    if other:
        p = Pair(path, a, b)
        p.definite, p.judged, p.why = False, True, "loops that carry different state"
        out.append(p)
        return out
    for i, (x, y) in enumerate(zip(a.a[1:], b.a[1:])):
        if isinstance(x, T) and isinstance(y, T):
            if x is not y:
                align(x, y, "%s/%s%d" % (path, a.a[0], i), sub, depth + 1)
        elif x != y:
            sub.append(Pair(path, a, b))
    sub = [p if p.judged else judge(p) for p in sub]
    if not sub or any(not p.definite for p in sub):
        p = Pair(path, a, b)
        p.definite, p.judged = False, True
        p.why = "not understood: %s (%s)" % (a.a[0], "; ".join(sorted({q.why for q in sub if q.why}))[:200])
        out.append(p)
        return out
    for p in sub:
        p.judged = True
    out.extend(sub)
    return out


def loops_in(t, other):
    """outermost loops of t, free of variables bound inside t, which other does not share"""
    seen, st, r = set(), [t], []
    while st:
        x = st.pop()
        if x in seen or x in other:
            continue
        seen.add(x)
        if x.op == "app" and x.a[0] in ("fold", "while") and all(v > 0 for v in x.fs):
            r.append(x)
            continue
        for y in x.a:
            if isinstance(y, T):
                st.append(y)
            elif isinstance(y, tuple):
                st.extend(tm._flatT(y))
    return r


def shape(x):
    i = 1 if x.a[0] == "while" else 2
    return x.a[0], len(x.a), len(x.a[i].a) if x.a[i].op == "tuple" else 0, i


def stuck(a, b, path, out, depth):
    """no common structure left: identify the corresponding loops of both sides, then look at the rest"""
    if depth < 180:
        la, lb = loops_in(a, subterms(b)), loops_in(b, subterms(a))
        if la and lb and len(la) <= 12 and len(lb) <= 12:
            m, sub = {}, []
            for x in la:
                c = [y for y in lb if y not in m and shape(y) == shape(x)]
                if not c:
                    continue
                c.sort(key=lambda y: (sum(p is not q for p, q in zip(x.a[1:-1], y.a[1:-1])), -len(subterms(x) & subterms(y))))
                m[c[0]] = x
                loop(x, c[0], path, sub, depth + 1)
            if m:
                b2 = tm.replace(b, m)
                out.extend(sub)
                if b2 is not a:
                    align(a, b2, path, out, depth + 1)
                return out
    out.append(Pair(path, a, b))
    return out


KNOWN = {"abs", "round", "min", "max", "int", "float", "len", "str", "cat"}


def known(h):
    """functions whose meaning the normaliser knows: one more or one less is a real difference"""
    return isinstance(h, str) and h.split(".")[-1] in KNOWN


def judge(p):
    sa, sb = subterms(p.a), subterms(p.b)
    only_a, only_b = sa - sb, sb - sa
    ga, fa = tags(only_a)
    gb, fb = tags(only_b)
    if ga or gb:
        p.definite, p.why = False, "not understood: " + ", ".join(sorted(ga | gb)[:3])
        return p
    da, db = set(fa) - set(fb), set(fb) - set(fa)
    if da or db:
        # a function that the other side calls too, with arguments that are shared
        da -= set(tags(sb & sa)[1])
        db -= set(tags(sb & sa)[1])
    da, db = {h for h in da if not known(h)}, {h for h in db if not known(h)}
    if da or db:
        if p.a.op == p.b.op == "app" and len(p.a.a) == len(p.b.a) and p.a.a[1:] == p.b.a[1:]:
            return p
        p.definite, p.why = False, "external functions differ: " + ", ".join(sorted(str(x) for x in (da | db))[:4])
    return p


def compare(a, b):
    """('equal'|'different'|'undecided', pairs)"""
    if a is b:
        return "equal", []
    ps = [p if p.judged else judge(p) for p in align(a, b)]
    if not ps:
        return "undecided", []
    if any(p.definite for p in ps):
        return "different", ps
    return "undecided", ps
