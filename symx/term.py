"""Symbolic values.

Poly    : a finite real number: polynomial with rational coefficients over atoms
FSpec   : NaN / +inf / -inf (always concrete on a path)
SI      : a symbolic machine integer (mathematical value, interval, wraps are explicit)
SBool   : a lazy boolean formula (branching on it forks the path)
Atoms   : input variables and definitional terms (quotient, sqrt, abs, ln, exp ...), each
          with the constraints that define it; the constraints go to the solver with every
          query that mentions the atom.
"""
from fractions import Fraction
import math
import z3

class Unsupported(Exception):
    pass

class PathPanic(Exception):
    """the analysed code panics on this path"""

class PathError(Exception):
    """the analysed code returns an error value (PolarsError / PyErr / python exception)"""

# ----------------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("id", "kind", "args", "isint", "z", "name", "key")

ATOMS = []
_BYKEY = {}

def _mk_atom(kind, args, isint, key, name=None):
    a = _BYKEY.get(key)
    if a is not None:
        return a
    a = Atom()
    a.id = len(ATOMS)
    a.kind = kind
    a.args = args
    a.isint = isint
    a.name = name or f"{kind}!{a.id}"
    a.z = z3.Int(a.name) if isint else z3.Real(a.name)
    a.key = key
    ATOMS.append(a)
    _BYKEY[key] = a
    return a

PRODS = {}      # canonical product polynomial -> its two factors (as multiplied by the code)

def reset_atoms():
    ATOMS.clear()
    _CLOSED.clear()
    _BYKEY.clear()
    PRODS.clear()

# ----------------------------------------------------------------------------- polynomials
def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))

class Poly:
    __slots__ = ("t", "_h", "_z")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._z = None

    # construction
    @staticmethod
    def const(c):
        c = c if isinstance(c, Fraction) else Fraction(c)
        return Poly({(): c} if c else {})

    @staticmethod
    def atom(a):
        return Poly({((a.id, 1),): Fraction(1)})

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), Fraction(0))

    def key(self):
        if self._h is None:
            self._h = frozenset(self.t.items())
        return self._h

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in list(self.t.items())[:12]:
            s = "*".join((ATOMS[a].name if e == 1 else f"{ATOMS[a].name}^{e}") for a, e in m)
            out.append((f"{c}*{s}" if c != 1 else s) if s else str(c))
        return " + ".join(out) + (" + ..." if len(self.t) > 12 else "")

    def __add__(self, o):
        if len(self.t) < len(o.t):
            self, o = o, self
        t = dict(self.t)
        for m, c in o.t.items():
            n = t.get(m)
            if n is None:
                t[m] = c
            else:
                n = n + c
                if n:
                    t[m] = n
                else:
                    del t[m]
        return Poly(t)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, c):
        if not c:
            return ZERO
        return Poly({m: k * c for m, k in self.t.items()})

    def __mul__(self, o):
        if self.is_const():
            return o.scale(self.cval())
        if o.is_const():
            return self.scale(o.cval())
        if len(self.t) * len(o.t) > 60000:
            raise Unsupported("polynomial too large")
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mono_mul(m1, m2)
                t[m] = t.get(m, 0) + c1 * c2
        p = Poly({m: c for m, c in t.items() if c})
        return _reduce(p)

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def lead(self):
        """(leading monomial, coefficient) under a fixed order"""
        m = max(self.t.keys(), key=lambda m: (sum(e for _, e in m), m))
        return m, self.t[m]

    def canon(self):
        """(q, c) with self = c*q and q having leading coefficient 1"""
        _, c = self.lead()
        if c == 1:
            return self, c
        return self.scale(1 / c), c

    def is_int(self):
        return all(c.denominator == 1 for c in self.t.values()) and all(ATOMS[a].isint for a in self.atoms())

    def nonneg_syntactic(self):
        """all coefficients > 0 and every monomial is even, or made of atoms known >= 0"""
        for m, c in self.t.items():
            if c < 0:
                return False
            for a, e in m:
                if e % 2 and not ATOMS[a].kind in ("sqrt", "abs", "exp"):
                    return False
        return True

    def z3(self):
        if self._z is not None:
            return self._z
        as_int = self.is_int()
        terms = []
        for m, c in sorted(self.t.items(), key=lambda x: x[0]):
            fs = []
            if c != 1 or not m:
                fs.append(z3.IntVal(c.numerator) if as_int else z3.RealVal(str(c)))
            for a, e in m:
                z = ATOMS[a].z
                if ATOMS[a].isint and not as_int:
                    z = z3.ToReal(z)
                fs.extend([z] * e)
            r = fs[0]
            for f in fs[1:]:
                r = r * f
            terms.append(r)
        if not terms:
            r = z3.IntVal(0) if as_int else z3.RealVal(0)
        else:
            r = terms[0] if len(terms) == 1 else z3.Sum(terms)
        self._z = r
        return r

ZERO = Poly({})
ONE = Poly({(): Fraction(1)})

def _reduce(p):
    """sqrt(x)^2 -> x ; abs(x)^2 -> x^2 inside monomials"""
    bad = None
    for m in p.t:
        for a, e in m:
            if e >= 2 and ATOMS[a].kind in ("sqrt", "abs"):
                bad = (m, a, e)
                break
        if bad:
            break
    if not bad:
        return p
    m, a, e = bad
    c = p.t[m]
    t = dict(p.t)
    del t[m]
    rest = tuple((x, y) for x, y in m if x != a)
    if e % 2:
        rest = tuple(sorted(rest + ((a, 1),)))
    base = ATOMS[a].args[0]
    if ATOMS[a].kind == "abs":
        base = base * base
    acc = Poly({rest: c})
    for _ in range(e // 2):
        acc = acc * base
    return _reduce(Poly(t) + acc)

def var(name, isint=False):
    return Poly.atom(_mk_atom("var", (), isint, ("var", name), name))

class FSpec:
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return self.k

NAN, PINF, NINF = FSpec("nan"), FSpec("inf"), FSpec("-inf")

def is_float(v):
    return isinstance(v, (Poly, FSpec))

def fl(x):
    """python number -> float value"""
    if isinstance(x, (Poly, FSpec)):
        return x
    if isinstance(x, SI):
        return x.p
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, float):
        if math.isnan(x):
            return NAN
        if math.isinf(x):
            return PINF if x > 0 else NINF
        return Poly.const(Fraction(x))
    return Poly.const(x)

# ----------------------------------------------------------------------------- integers
RANGES = {}
for _w in (8, 16, 32, 64, 128):
    RANGES[f"u{_w}"] = (0, 2**_w - 1)
    RANGES[f"i{_w}"] = (-(2 ** (_w - 1)), 2 ** (_w - 1) - 1)
RANGES["usize"] = RANGES["u64"]
RANGES["isize"] = RANGES["i64"]
RANGES["char"] = (0, 0x10FFFF)
RANGES["bool"] = (0, 1)

class SI:
    __slots__ = ("p", "lo", "hi")

    def __init__(self, p, lo, hi):
        self.p = p
        self.lo = lo
        self.hi = hi

    def __repr__(self):
        return f"SI({self.p})[{self.lo},{self.hi}]"

def si(p, lo, hi):
    if p.is_const():
        c = p.cval()
        return int(c)
    if lo == hi:
        return lo
    return SI(p, lo, hi)

def ipoly(v):
    if isinstance(v, SI):
        return v.p
    if isinstance(v, bool):
        return Poly.const(int(v))
    return Poly.const(v)

def ibounds(v):
    if isinstance(v, SI):
        return v.lo, v.hi
    return int(v), int(v)

# ----------------------------------------------------------------------------- booleans
class SBool:
    """kinds: cmp (p, rel) with rel in lt0 le0 eq0 ; not ; and ; or ; var"""
    __slots__ = ("k", "a")

    def __init__(self, k, *a):
        self.k = k
        self.a = a

    def __repr__(self):
        return f"{self.k}{self.a}"

    def z3(self):
        k = self.k
        if k == "cmp":
            p, rel = self.a
            z = p.z3()
            return z < 0 if rel == "lt0" else z <= 0 if rel == "le0" else z == 0
        if k == "not":
            return z3.Not(bz3(self.a[0]))
        if k == "and":
            return z3.And(*[bz3(x) for x in self.a])
        if k == "or":
            return z3.Or(*[bz3(x) for x in self.a])
        if k == "var":
            return z3.Bool(self.a[0])
        raise AssertionError

    def polys(self):
        if self.k == "cmp":
            return [self.a[0]]
        if self.k == "var":
            return []
        r = []
        for x in self.a:
            if isinstance(x, SBool):
                r += x.polys()
        return r

def bz3(b):
    return b.z3() if isinstance(b, SBool) else z3.BoolVal(bool(b))

def bnot(b):
    if isinstance(b, SBool):
        return b.a[0] if b.k == "not" else SBool("not", b)
    return not b

def band(*bs):
    out = []
    for b in bs:
        if isinstance(b, SBool):
            out.append(b)
        elif not b:
            return False
    if not out:
        return True
    return out[0] if len(out) == 1 else SBool("and", *out)

def bor(*bs):
    out = []
    for b in bs:
        if isinstance(b, SBool):
            out.append(b)
        elif b:
            return True
    if not out:
        return False
    return out[0] if len(out) == 1 else SBool("or", *out)

NEAR = None          # real mode: called when a comparison is decided by less than the rounding of doubles

def cmp0(p, rel):
    if p.is_const():
        if NEAR is not None and p.cval() != 0 and abs(p.cval()) < Fraction(1, 10 ** 9):
            NEAR()
        c = p.cval()
        return c < 0 if rel == "lt0" else c <= 0 if rel == "le0" else c == 0
    if p.t:
        v = closed(p)
        if v is not None:
            if NEAR is not None and abs(v) < 1e-9:
                NEAR()
            if abs(v) > 1e-40:
                return v < 0 if rel != "eq0" else False
    return SBool("cmp", p, rel)

_CLOSED = {}
_MPFN = {"ln": "log", "exp": "exp", "cosh": "cosh", "cos": "cos", "sin": "sin", "tan": "tan", "tanh": "tanh", "sinh": "sinh", "atan": "atan", "asin": "asin", "cbrt": "cbrt"}

def closed(p):
    """80-digit value of a polynomial without variables, None if it has some"""
    import mpmath
    with mpmath.workdps(80):
        return _closed(p, mpmath)

def _closed(p, mp):
    s = mp.mpf(0)
    for m, c in p.t.items():
        x = mp.mpf(c.numerator) / c.denominator if isinstance(c, Fraction) else mp.mpf(c)
        for a, e in m:
            v = _closed_atom(ATOMS[a], mp)
            if v is None:
                return None
            x = x * v ** e
        s += x
    return s

def _closed_atom(a, mp):
    key = id(a)
    r = _CLOSED.get(key)
    if r is not None and r[0] is a:
        return r[1]
    v = None
    if a.kind in ("sqrt", "abs", "quot"):
        xs = [_closed(x, mp) for x in a.args]
        if None not in xs:
            if a.kind == "sqrt":
                v = mp.sqrt(xs[0]) if xs[0] > 1e-40 else None
            elif a.kind == "abs":
                v = abs(xs[0])
            else:
                v = xs[0] / xs[1] if abs(xs[1]) > 1e-40 else None
    elif a.kind == "fn" and a.args[0] in _MPFN and len(a.args) == 2 and isinstance(a.args[1], Poly):
        x = _closed(a.args[1], mp)
        if x is not None and (a.args[0] != "ln" or x > 1e-40) and abs(x) < 1000:
            v = getattr(mp, _MPFN[a.args[0]])(x) if not (a.args[0] == "cbrt" and x < 0) else None
            if not isinstance(v, mp.mpf):
                v = None
    _CLOSED[key] = (a, v)
    return v

def bvar(name):
    return SBool("var", name)

# integer comparisons
def ilt(a, b):
    if isinstance(a, SI) or isinstance(b, SI):
        (la, ha), (lb, hb) = ibounds(a), ibounds(b)
        if ha < lb:
            return True
        if la >= hb:
            return False
        return cmp0(ipoly(a) - ipoly(b), "lt0")
    return a < b

def ile(a, b):
    return bnot(ilt(b, a))

def ieq(a, b):
    if isinstance(a, SI) or isinstance(b, SI):
        (la, ha), (lb, hb) = ibounds(a), ibounds(b)
        if ha < lb or hb < la:
            return False
        return cmp0(ipoly(a) - ipoly(b), "eq0")
    return a == b

# float comparisons (IEEE: NaN compares false)
_ORD = {"-inf": -1, "inf": 1}

def flt(a, b):
    if isinstance(a, Poly) and isinstance(b, Poly):
        return cmp0(a - b, "lt0")
    if (a is NAN) or (b is NAN):
        return False
    ra = 0 if isinstance(a, Poly) else _ORD[a.k]
    rb = 0 if isinstance(b, Poly) else _ORD[b.k]
    return ra < rb

def fle(a, b):
    if isinstance(a, Poly) and isinstance(b, Poly):
        return cmp0(a - b, "le0")
    if (a is NAN) or (b is NAN):
        return False
    ra = 0 if isinstance(a, Poly) else _ORD[a.k]
    rb = 0 if isinstance(b, Poly) else _ORD[b.k]
    return ra <= rb

def feq(a, b):
    if isinstance(a, Poly) and isinstance(b, Poly):
        return cmp0(a - b, "eq0")
    if (a is NAN) or (b is NAN):
        return False
    return (not isinstance(a, Poly)) and (not isinstance(b, Poly)) and a.k == b.k
