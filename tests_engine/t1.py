from typing import List
def f_spec(xs: List[float], g):
    best, arg = 10, None
    for x in xs:
        v = g(x)
        if v < best:
            best, arg = v, x
    return best, arg
def f_impl(xs: List[float], g):
    b = (10, None)
    for x in xs:
        v = g(x)
        if v < b[0]:
            b = (v, x)
    return b
def w_spec(n: int, g):
    best, arg = 10, None
    while g(best):
        v = g(best + n)
        if v == 7:
            return arg
        if v < best:
            best, arg = v, n
        elif v == 3:
            break
    return best, arg
def w_impl(n: int, g):
    b = (10, None)
    while g(b[0]):
        v = g(b[0] + n)
        if v == 7:
            return b[1]
        if v < b[0]:
            b = (v, n)
        elif v == 3:
            break
    return b
def g_spec(a: int, b: int, xs: list):
    r = []
    for x in xs:
        if a == x:
            r += [1]
        elif b == x:
            r += [2, 1]
        else:
            r += [2]
    return r
def g_impl(a: int, b: int, xs: list):
    r = []
    for x in xs:
        if a != x:
            r.append(2)
        if a == x or b == x:
            r.append(1)
    return r
def ne_g_spec(a: int, b: int, xs: list):
    r = []
    if a > 0:
        r.append(1)
    if b > 0:
        r.append(2)
    return r
def ne_g_impl(a: int, b: int, xs: list):
    r = []
    if b > 0:
        r.append(2)
    if a > 0:
        r.append(1)
    return r
def s_spec(n: int, xs: list, g):
    return g(xs[:n]), g(xs[:2])
def s_impl(n: int, xs: list, g):
    k = min(n, len(xs))
    return g(xs[:k]), g(xs[:min(2, len(xs))])
def s_impl2(n: int, xs: list, g):
    k = min(len(xs), n)
    return g(xs[:k]), g([xs[i] for i in range(min(2, len(xs)))])
def m_spec(a: float, b: float, n: int, m: int):
    return min(a, b), max(n, m), max(n, 3)
def m_impl(a: float, b: float, n: int, m: int):
    return (a if a < b else b), (n if n > m else m), (n if n >= 3 else 3)
def m_impl2(a: float, b: float, n: int, m: int):
    return (b if a >= b else a), (m if n <= m else n), (3 if n <= 3 else n)
def m_impl3(a: float, b: float, n: int, m: int):
    return min(b, a), max(m, n), (3 if 3 > n else n)
