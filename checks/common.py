"""small helpers for the specifications"""
from fractions import Fraction
import math
from symx import ctx as C, term as T
from symx.term import *
from symx.ctx import *
from symx.harness import ERR, H, to_py
from symx.interp import StrV
from symx.plops import Lst, Col
from symx.plops import tlt, teq, br
from symx.runner import Ob

def K(x):
    return x if isinstance(x, (Poly, FSpec)) else ipoly(x) if isinstance(x, SI) else Poly.const(Fraction(x))

def num(v):
    """a number the python code returned (floats in real mode)"""
    if hasattr(v, "p") and isinstance(v, (int, float)):
        return fl(v.p)
    return v if isinstance(v, (Poly, FSpec)) else fl(float(v))

def fsum_(xs):
    r = T.ZERO
    for x in xs:
        r = fadd(r, K(x))
    return r

def mean_(xs):
    return fdiv(fsum_(xs), K(len(xs)))

def dot_(a, b):
    return fsum_(fmul(K(x), K(y)) for x, y in zip(a, b))

def sq(x):
    return fmul(x, x)

def var_(xs, ddof=1):
    m = mean_(xs)
    return fdiv(fsum_(sq(fsub(K(x), m)) for x in xs), K(len(xs) - ddof))

def cov_(a, b, ddof=1):
    ma, mb = mean_(a), mean_(b)
    return fdiv(fsum_(fmul(fsub(x, ma), fsub(y, mb)) for x, y in zip(a, b)), K(len(a) - ddof))

def lt(a, b):
    """a < b, decided on the path (finite numbers or integers)"""
    return br(flt(K(a), K(b)))

def le(a, b):
    return not lt(b, a)

def eq(a, b):
    return br(cmp0(K(a) - K(b), "eq0"))

def sort_(xs):
    out = []
    for x in xs:
        i = len(out)
        while i > 0 and lt(x, out[i - 1]):
            i -= 1
        out.insert(i, x)
    return out

def argsort_(xs):
    out = []
    for j, x in enumerate(xs):
        i = len(out)
        while i > 0 and lt(x, xs[out[i - 1]]):
            i -= 1
        out.insert(i, j)
    return out

def median_(xs):
    s = sort_(xs)
    n = len(s)
    return s[n // 2] if n % 2 else fdiv(fadd(s[n // 2 - 1], s[n // 2]), K(2))

def max_(xs):
    m = xs[0]
    for x in xs[1:]:
        if lt(m, x):
            m = x
    return m

def min_(xs):
    m = xs[0]
    for x in xs[1:]:
        if lt(x, m):
            m = x
    return m

def nonneg(h, x):
    h.assume(fle(T.ZERO, x))

def pos(h, *xs):
    for x in xs:
        h.assume(flt(T.ZERO, x))

def distinct(h, xs):
    for i in range(len(xs)):
        for j in range(i):
            h.assume(bnot(cmp0(K(xs[i]) - K(xs[j]), "eq0")))

def level_quantile(xs, q, method):
    """the q-quantile of xs for an arbitrary level 0 <= q <= 1 by the named rule"""
    s = sort_(xs)
    f = fmul(K(q), K(len(s) - 1))
    lo = max(k for k in range(len(s)) if le(K(k), f))
    hi = lo if eq(f, K(lo)) else lo + 1
    if method == "lower":
        return s[lo]
    if method == "higher":
        return s[hi]
    if method == "midpoint":
        return fdiv(fadd(s[lo], s[hi]), K(2))
    if method == "linear":
        return fadd(s[lo], fmul(fsub(f, K(lo)), fsub(s[hi], s[lo])))
    return s[hi] if hi != lo and le(K(Fraction(1, 2)), fsub(f, K(lo))) else s[lo]
