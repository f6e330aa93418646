"""Numbers the package's own python code computes with while it is executed symbolically: python numbers (stand-ins) that
carry their symbolic value."""
import numpy as np
from fractions import Fraction
from . import ctx as C, term as T
from .term import *
from .ctx import *
from .interp import StrV
from .plops import *
from .plops import PolarsError

CUR = None       # harness of the obligation under execution

def fresh_float(v):
    CUR._np += 1
    a = round(0.2712345 + CUR._np * 0.0019310871, 10)
    CUR.sub[a] = v
    return a

def fresh_int(v):
    CUR._np += 1
    a = 1700000003 + 977 * CUR._np
    CUR.sub[a] = v
    return a

def val(x):
    """symbolic value of a python number"""
    if isinstance(x, (SymF, SymI)):
        return x.p
    if isinstance(x, bool) or isinstance(x, np.bool_):
        return int(x)
    if isinstance(x, (int, np.integer)):
        x = int(x)
        return CUR.sub.get(x, x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        return CUR.sub[x] if x in CUR.sub else fl(x)
    if isinstance(x, (Poly, FSpec, SI)):
        return x
    return None

def wrap(v):
    """a python value for a symbolic one"""
    if v is None or isinstance(v, (bool, int, str)):
        return v
    if isinstance(v, SBool):
        return C.CTX.branch(v)
    if isinstance(v, FSpec):
        return float(v.k)
    if isinstance(v, Poly):
        if v.is_const():
            f = float(v.cval())
            if Fraction(f) == v.cval():
                return f
        return SymF(v)
    if isinstance(v, SI):
        return SymI(v)
    if isinstance(v, StrV):
        if all(isinstance(c, int) for c in v.c):
            return "".join(chr(c) for c in v.c)
        CUR._np += 1
        k = f"\u0001symstr{CUR._np}"
        CUR.sub[k] = v
        return k
    if isinstance(v, Lst):
        from .sframe import series
        return series("", v.dt, v.v)
    raise Unsupported(f"python value of {type(v).__name__}")

def _num2(op, a, b):
    x, y = val(a), val(b)
    if x is None or y is None:
        return NotImplemented
    if op in ("+", "-", "*") and not is_float(x) and not is_float(y):
        return wrap({"+": iadd, "-": isub, "*": imul}[op](x, y, "i64"))
    if op == "//" or op == "%" or op == "**":
        raise Unsupported(f"python {op} on a symbolic number")
    x, y = fl(x), fl(y)
    if op == "/":
        if C.CTX.branch(feq(y, T.ZERO)):
            raise ZeroDivisionError("division by zero")
        return wrap(fdiv(x, y))
    return wrap({"+": fadd, "-": fsub, "*": fmul}[op](x, y))

def _cmp2(op, a, b):
    x, y = val(a), val(b)
    if x is None or y is None:
        return NotImplemented
    x, y = fl(x), fl(y)
    r = {"<": lambda: flt(x, y), "<=": lambda: fle(x, y), ">": lambda: flt(y, x), ">=": lambda: fle(y, x), "==": lambda: feq(x, y), "!=": lambda: bnot(feq(x, y))}[op]()
    return C.CTX.branch(r) if isinstance(r, SBool) else bool(r)

class _Num:
    def __add__(s, o): return _num2("+", s, o)
    def __radd__(s, o): return _num2("+", o, s)
    def __sub__(s, o): return _num2("-", s, o)
    def __rsub__(s, o): return _num2("-", o, s)
    def __mul__(s, o): return _num2("*", s, o)
    def __rmul__(s, o): return _num2("*", o, s)
    def __truediv__(s, o): return _num2("/", s, o)
    def __rtruediv__(s, o): return _num2("/", o, s)
    def __floordiv__(s, o): return _num2("//", s, o)
    def __mod__(s, o): return _num2("%", s, o)
    def __pow__(s, o, m=None): return _num2("**", s, o)
    def __neg__(s): return _num2("*", -1, s)
    def __pos__(s): return s
    def __abs__(s): return s if _cmp2(">=", s, 0) else -s
    def __lt__(s, o): return _cmp2("<", s, o)
    def __le__(s, o): return _cmp2("<=", s, o)
    def __gt__(s, o): return _cmp2(">", s, o)
    def __ge__(s, o): return _cmp2(">=", s, o)
    def __eq__(s, o): return _cmp2("==", s, o)
    def __ne__(s, o): return _cmp2("!=", s, o)
    def __bool__(s): return _cmp2("!=", s, 0)
    def __round__(s, n=None): return s
    def __repr__(s): return f"<{s.p!r}>"
    def __format__(s, f): return repr(s)
    __str__ = __repr__

class SymF(_Num, float):
    def __new__(cls, p):
        o = float.__new__(cls, fresh_float(p))
        o.p = p
        return o
    __hash__ = float.__hash__
    def __reduce__(s): return (float, (float.__add__(s, 0.0),))

class SymI(_Num, int):
    def __new__(cls, p):
        o = int.__new__(cls, fresh_int(p))
        o.p = p
        return o
    __hash__ = int.__hash__
    def __reduce__(s): return (int, (int.__add__(s, 0),))
    def __int__(s): raise Unsupported("int() of a symbolic integer")
    def __index__(s): return int.__index__(s)
    def __float__(s): return fresh_float(fl(s.p))

