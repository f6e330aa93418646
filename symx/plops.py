"""Columns of symbolic values and the semantics of the polars operations on them."""
import math
from fractions import Fraction
from . import ctx as C, term as T
from .term import *
from .ctx import *
from .interp import StrV

INTS = ("i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64")
FLOATS = ("f32", "f64", "dyn_f")
NUM = INTS + FLOATS + ("dyn_i",)

class PolarsError(T.PathError):
    """the expression raises (ComputeError etc.)"""

class Lst:
    """the value of one row of a list column"""
    __slots__ = ("v", "dt")

    def __init__(self, v, dt):
        self.v = v
        self.dt = dt

    def __repr__(self):
        return f"L{self.v}"

class Col:
    __slots__ = ("name", "dt", "vals", "scalar", "ch")
    byref = True

    def __init__(self, name, dt, vals, scalar=False, ch=None):
        self.name = name
        self.dt = dt
        self.vals = vals
        self.scalar = scalar
        self.ch = ch

    def __repr__(self):
        return f"Col({self.name}:{self.dt} {self.vals})"

    def __len__(self):
        return len(self.vals)

    @property
    def chunks(self):
        return self.ch if self.ch is not None else [len(self.vals)]

    def clone_sym(self):
        return Col(self.name, self.dt, list(self.vals), self.scalar, self.ch)

    def w(self, vals, dt=None, scalar=False, name=None):
        return Col(self.name if name is None else name, dt or self.dt, vals, scalar)

    def nulls(self):
        return sum(1 for v in self.vals if v is None)

    def field(self, n):
        """field of a struct column"""
        for i, (fn, dt) in enumerate(self.dt[1]):
            if fn == n:
                return Col(fn, dt, [None if v is None else v[i] for v in self.vals], self.scalar)
        raise PolarsError(f"struct field {n} not found in {[x for x, _ in self.dt[1]]}")

    # hooks used by the models of std traits
    def not_sym(self, it):
        return self.w([None if v is None else bnot(v) for v in self.vals], "bool")

    def logic_sym(self, it, op, x, y):
        return binary("And" if op == "BitAnd" else "Or", x, y)

    def arith_sym(self, it, op, x, y):
        x = x if isinstance(x, Col) else Col("", "f64" if is_float(x) else "dyn_i", [x])
        y = y if isinstance(y, Col) else Col("", "f64" if is_float(y) else "dyn_i", [y])
        return binary({"Add": "Plus", "Sub": "Minus", "Mul": "Multiply", "Div": "Divide"}[op], x, y)

def br(b):
    return C.CTX.branch(b) if isinstance(b, SBool) else bool(b)

# ------------------------------------------------------------------ scalar relations (total order of polars)
def teq(a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, Lst):
        return len(a.v) == len(b.v) and band(*[teq(x, y) for x, y in zip(a.v, b.v)])
    if isinstance(a, tuple):
        return band(*[teq(x, y) for x, y in zip(a, b)])
    if isinstance(a, StrV) or isinstance(b, StrV):
        return a.eq_sym(b)
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        if isinstance(a, SBool) or isinstance(b, SBool):
            return bor(band(a, b), band(bnot(a), bnot(b)))
        return a == b
    if is_float(a) or is_float(b):
        a, b = fl(a), fl(b)
        if a is NAN or b is NAN:
            return a is b
        return feq(a, b)
    return ieq(a, b)

def tlt(a, b):
    """a < b for non-null values; NaN is the largest"""
    if isinstance(a, StrV):
        return br_lt_str(a, b)
    if isinstance(a, (bool, SBool)):
        return band(bnot(a), b)
    if is_float(a) or is_float(b):
        a, b = fl(a), fl(b)
        if a is NAN:
            return False
        if b is NAN:
            return True
        return flt(a, b)
    if isinstance(a, tuple):
        for x, y in zip(a, b):
            if x is None or y is None:
                if x is None and y is None:
                    continue
                return x is None
            if br(teq(x, y)):
                continue
            return tlt(x, y)
        return False
    return ilt(a, b)

def br_lt_str(a, b):
    for x, y in zip(a.c, b.c):
        if br(ieq(x, y)):
            continue
        return ilt(x, y)
    return len(a.c) < len(b.c)

def tle(a, b):
    return bnot(tlt(b, a))

def ssort(xs, lt=tlt):
    """stable insertion sort of non-null values (forks)"""
    out = []
    for x in xs:
        i = len(out)
        while i > 0 and br(lt(x, out[i - 1])):
            i -= 1
        out.insert(i, x)
    return out

def argsort(vals, desc=False, nulls_last=False):
    """stable order of the indices"""
    nn = [i for i, v in enumerate(vals) if v is not None]
    nu = [i for i, v in enumerate(vals) if v is None]
    lt = (lambda i, j: tlt(vals[j], vals[i])) if desc else (lambda i, j: tlt(vals[i], vals[j]))
    o = ssort(nn, lt)
    return o + nu if nulls_last else nu + o

def argsort_multi(cols, desc, nulls_last):
    n = len(cols[0])

    def lt(i, j):
        for c, d, nl in zip(cols, desc, nulls_last):
            a, b = c.vals[i], c.vals[j]
            if a is None or b is None:
                if a is None and b is None:
                    continue
                return (b is None) if nl else (a is None)
            if br(teq(a, b)):
                continue
            return tlt(b, a) if d else tlt(a, b)
        return False
    return ssort(list(range(n)), lt)

def groups(keys):
    """groups of equal keys in order of first appearance: [(key, [indices])]"""
    out = []
    for i, k in enumerate(keys):
        for g in out:
            if br(teq(g[0], k)):
                g[1].append(i)
                break
        else:
            out.append((k, [i]))
    return out

# ------------------------------------------------------------------ types
def supertype(a, b):
    if a == b:
        return a
    if a == "null":
        return b
    if b == "null":
        return a
    for x, y in ((a, b), (b, a)):
        if x == "dyn_i":
            if y in INTS or y in ("f32", "f64", "dyn_f"):
                return y
            if y == "bool":
                return "i32"
        if x == "dyn_f":
            if y in ("f32", "f64"):
                return y
            if y in INTS or y == "bool":
                return "f64"
        if x == "bool" and y in NUM:
            return y
    if a in ("f32", "f64") and b in ("f32", "f64"):
        return "f64"
    for x, y in ((a, b), (b, a)):
        if x == "f64" and y in INTS:
            return "f64"
        if x == "f32" and y in INTS:
            return "f32" if y in ("i8", "i16", "u8", "u16") else "f64"
    if a in INTS and b in INTS:
        sa, sb = a[0], b[0]
        wa, wb = int(a[1:]), int(b[1:])
        if sa == sb:
            return a if wa >= wb else b
        u, s = (wa, wb) if sa == "u" else (wb, wa)
        if s > u:
            return f"i{s}"
        if u == 64:
            return "f64"
        return f"i{u * 2}"
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == "list" == b[0]:
        return ("list", supertype(a[1], b[1]))
    raise PolarsError(f"no supertype of {a} and {b}")

def concrete_dt(dt):
    return {"dyn_i": "i32", "dyn_f": "f64"}.get(dt, dt) if isinstance(dt, str) else dt

def conv(v, src, dst, strict=True):
    """cast one value"""
    if v is None or src == dst:
        return v
    if dst in FLOATS:
        if isinstance(v, (bool, SBool)):
            return T.ONE if br(v) else T.ZERO
        if isinstance(v, StrV):
            return str_num(v, float, strict)
        if src == "f64" and dst == "f32":
            return v
        return fl(v)
    if dst in INTS or dst == "dyn_i":
        if isinstance(v, (bool, SBool)):
            return 1 if br(v) else 0
        if isinstance(v, StrV):
            return str_num(v, int, strict)
        if dst == "dyn_i":
            return v
        lo, hi = T.RANGES[dst]
        if is_float(v):
            if not isinstance(v, Poly):
                if strict:
                    raise PolarsError("cast of a non-finite value")
                return None
            t = ftrunc(v)
            if t.is_const():
                k = int(t.cval())
                if lo <= k <= hi:
                    return k
                if strict:
                    raise PolarsError("cast out of range")
                return None
            ok = band(cmp0(Poly.const(lo) - t, "le0"), cmp0(t - Poly.const(hi), "le0"))
            if br(ok):
                return si(t, lo, hi)
            if strict:
                raise PolarsError("cast out of range")
            return None
        l, h = ibounds(v)
        if lo <= l and h <= hi:
            return v
        ok = band(ile(lo, v), ile(v, hi))
        if br(ok):
            return si(ipoly(v), max(lo, l), min(hi, h))
        if strict:
            raise PolarsError("cast out of range")
        return None
    if dst == "bool":
        if is_float(v):
            return bnot(feq(v, T.ZERO))
        if isinstance(v, (int, SI)):
            return bnot(ieq(v, 0))
        return v
    if dst == "str":
        if isinstance(v, bool):
            return StrV("true" if v else "false")
        if isinstance(v, SBool):
            return StrV("true" if br(v) else "false")
        if isinstance(v, int):
            return StrV(str(v))
        if isinstance(v, SI):
            return StrV(str(iconc(v)))
        if isinstance(v, Poly) and v.is_const():
            return StrV(repr(float(v.cval())))
        if isinstance(v, StrV) or hasattr(v, "eq_sym"):     # interval labels print their break points, which tells them apart
            return v
        raise Unsupported("cast to string of a symbolic float")
    if isinstance(dst, tuple) and dst[0] == "list":
        if isinstance(v, Lst):
            return Lst([conv(x, v.dt, dst[1], strict) for x in v.v], dst[1])
    if dst == "cat" or src == "cat":
        return v
    if isinstance(dst, tuple) and dst[0] == "struct":
        return v
    raise Unsupported(f"cast {src} -> {dst}")

def str_num(v, f, strict):
    s = v.concrete()
    if s is None:
        raise Unsupported("parse of a symbolic string")
    try:
        return fl(f(s)) if f is float else int(s)
    except ValueError:
        if strict:
            raise PolarsError("parse")
        return None

def cast(c, dt, strict=True):
    if c.dt == dt:
        return c
    r = c.w([conv(v, c.dt, dt, strict) for v in c.vals], dt)
    r.scalar = c.scalar
    return r

# ------------------------------------------------------------------ broadcasting, binary operations
def bcast(*cols):
    n = None
    for c in cols:
        if len(c) != 1:
            if n is None:
                n = len(c)
            elif n != len(c):
                raise PolarsError(f"lengths don't match: {n} and {len(c)}")
    if n is None:
        n = 1
    return n, [c.vals if len(c) == n else c.vals * n for c in cols]

CMP = {"Eq": lambda a, b: teq(a, b), "NotEq": lambda a, b: bnot(teq(a, b)), "Lt": lambda a, b: tlt(a, b), "LtEq": lambda a, b: bnot(tlt(b, a)),
       "Gt": lambda a, b: tlt(b, a), "GtEq": lambda a, b: bnot(tlt(a, b))}

def ar(op, a, b, dt):
    if op == "Plus":
        return fadd(a, b) if dt in FLOATS else iadd(a, b, imt(dt))
    if op == "Minus":
        return fsub(a, b) if dt in FLOATS else isub(a, b, imt(dt))
    if op == "Multiply":
        return fmul(a, b) if dt in FLOATS else imul(a, b, imt(dt))
    if op in ("TrueDivide",) or (op == "Divide" and dt in FLOATS):
        return fdiv(fl(a), fl(b))
    if op in ("FloorDivide", "Divide"):
        if dt in FLOATS:
            return ffloor(fdiv(a, b))
        if br(ieq(b, 0)):
            return None
        if op == "FloorDivide" and ibounds(b)[0] > 0:
            return idivmod_floor(a, b)[0]
        q = idiv(a, b, imt(dt))
        if op == "FloorDivide":
            r = irem(a, b, imt(dt))
            if br(band(bnot(ieq(r, 0)), bnot(bor(band(ilt(r, 0), ilt(b, 0)), band(ilt(0, r), ilt(0, b)))))):
                return isub(q, 1, imt(dt))
        return q
    if op == "Modulus":
        if dt in FLOATS:
            return fsub(a, fmul(ffloor(fdiv(a, b)), b))
        if br(ieq(b, 0)):
            return None
        if ibounds(b)[0] > 0:
            return idivmod_floor(a, b)[1]
        raise Unsupported("modulus of a negative")
    raise Unsupported("arith " + op)

def imt(dt):
    return "i64" if dt == "dyn_i" else dt

def binary(op, l, r):
    n, (lv, rv) = bcast(l, r)
    name = l.name
    sc = l.scalar and r.scalar
    if op in ("EqValidity", "NotEqValidity"):
        out = [teq(a, b) for a, b in zip(lv, rv)]
        if op[0] == "N":
            out = [bnot(x) for x in out]
        return Col(name, "bool", out, sc)
    if op in CMP:
        if l.dt != r.dt and "str" not in (l.dt, r.dt) and "cat" not in (l.dt, r.dt):
            st = supertype(l.dt, r.dt)
            if st in FLOATS:
                lv = [conv(v, l.dt, st) for v in lv]
                rv = [conv(v, r.dt, st) for v in rv]
        return Col(name, "bool", [None if a is None or b is None else CMP[op](a, b) for a, b in zip(lv, rv)], sc)
    if op in ("And", "Or", "Xor", "LogicalAnd", "LogicalOr"):
        if l.dt in INTS:
            raise Unsupported("bitwise")
        out = []
        for a, b in zip(lv, rv):
            if op.endswith("And"):
                if a is None or b is None:
                    o = b if a is None else a
                    out.append(False if (o is not None and not br(o)) else None)
                else:
                    out.append(band(a, b))
            elif op == "Xor":
                out.append(None if a is None or b is None else bor(band(a, bnot(b)), band(bnot(a), b)))
            else:
                if a is None or b is None:
                    o = b if a is None else a
                    out.append(True if (o is not None and br(o)) else None)
                else:
                    out.append(bor(a, b))
        return Col(name, "bool", out, sc)
    if l.dt == "str" or r.dt == "str":
        if op == "Plus":
            return Col(name, "str", [None if a is None or b is None else StrV(list(a.c) + list(b.c)) for a, b in zip(lv, rv)], sc)
        raise PolarsError("arithmetic on strings")
    if isinstance(l.dt, tuple) or isinstance(r.dt, tuple):
        if isinstance(l.dt, tuple) and l.dt[0] == "list":
            out, dt = [], None
            for a, b in zip(lv, rv):
                if a is None or b is None:
                    out.append(None)
                    continue
                if isinstance(b, Lst):
                    q = binary(op, Col("", a.dt, a.v), Col("", b.dt, b.v))
                else:
                    q = binary(op, Col("", a.dt, a.v), Col("", r.dt, [b]))
                dt = q.dt
                out.append(Lst(q.vals, q.dt))
            return Col(name, ("list", dt or l.dt[1]), out, sc)
        raise Unsupported("arithmetic on nested types")
    st = supertype(l.dt, r.dt)
    for x, y in ((l, r), (r, l)):        # an integer literal outside of the other side's type widens it
        if x.dt == "dyn_i" and y.dt in INTS and x.vals and isinstance(x.vals[0], int):
            lo, hi = T.RANGES[y.dt]
            if x.vals[0] < lo:
                st = "i64"
            elif x.vals[0] > hi:
                st = "u64" if y.dt[0] == "u" else "i64"
    if st == "null":
        return Col(name, "null", [None] * n, sc)
    if op == "TrueDivide":
        st = st if st in ("f32", "dyn_f") else "f64"
        if l.dt == "dyn_f" and r.dt in ("dyn_f", "dyn_i"):
            st = "dyn_f"
    if st == "bool":
        st = "u32" if op == "Plus" else st
        if st == "bool":
            raise PolarsError("arithmetic on booleans")
    lv = [conv(v, l.dt, st) for v in lv]
    rv = [conv(v, r.dt, st) for v in rv]
    return Col(name, st, [None if a is None or b is None else ar(op, a, b, st) for a, b in zip(lv, rv)], sc)

# ------------------------------------------------------------------ aggregations of lists with nulls
def nn(vals):
    return [v for v in vals if v is not None]

def tofl(c):
    return [conv(v, c.dt, "f64") for v in c.vals]

def agg_sum(c):
    xs = nn(c.vals)
    if c.dt == "bool":
        return Col(c.name, "u32", [sum(1 if br(x) else 0 for x in xs)], True)
    if c.dt in FLOATS:
        acc = T.ZERO
        for x in xs:
            acc = fadd(acc, x)
        return Col(c.name, c.dt, [acc], True)
    if c.dt == "null":
        return Col(c.name, "null", [None], True)
    if c.dt in INTS:
        dt = "i64" if c.dt in ("i8", "i16", "u8", "u16") else c.dt
        acc = 0
        for x in xs:
            acc = iadd(acc, x, dt)
        return Col(c.name, dt, [acc], True)
    if isinstance(c.dt, tuple) and c.dt[0] == "list":
        raise Unsupported("sum of lists")
    raise PolarsError(f"sum of {c.dt}")

def fsum(xs):
    acc = T.ZERO
    for x in xs:
        acc = fadd(acc, x)
    return acc

def agg_mean(c):
    if c.dt in ("str", "null"):
        return Col(c.name, "f64", [None], True)
    xs = nn(tofl(c))
    dt = "f32" if c.dt == "f32" else "f64"
    return Col(c.name, dt, [fdiv(fsum(xs), Poly.const(len(xs))) if xs else None], True)

def var_of(xs, ddof):
    n = len(xs)
    if n <= ddof:
        return None
    m = fdiv(fsum(xs), Poly.const(n))
    return fdiv(fsum([fmul(fsub(x, m), fsub(x, m)) for x in xs]), Poly.const(n - ddof))

def agg_var(c, ddof):
    v = var_of(nn(tofl(c)), ddof)
    return Col(c.name, "f32" if c.dt == "f32" else "f64", [v], True)

def agg_std(c, ddof):
    r = agg_var(c, ddof)
    v = r.vals[0]
    return r.w([None if v is None else fsqrt(v)], scalar=True)

def agg_minmax(c, mx):
    xs = nn(c.vals)
    if c.dt in FLOATS:
        ys = [x for x in xs if x is not NAN]
        if not ys and xs:
            return c.w([NAN], scalar=True)
        xs = ys
    if not xs:
        return c.w([None], scalar=True)
    m = xs[0]
    for x in xs[1:]:
        if br(tlt(m, x) if mx else tlt(x, m)):
            m = x
    return c.w([m], scalar=True)

def quantile_sorted(xs, q, method):
    """xs sorted, non-empty"""
    n = len(xs)
    if isinstance(q, Poly):
        return quantile_sym(xs, q, method)
    f = float(q) * (n - 1)
    lo, hi = math.floor(f), math.ceil(f)
    if method == "Nearest":
        k = int(math.floor(f + 0.5))
        if abs(f - math.floor(f) - 0.5) < 1e-12:
            k = round_half(f)
        return xs[min(k, n - 1)]
    if method == "Lower":
        return xs[lo]
    if method == "Higher":
        return xs[hi]
    if method == "Midpoint":
        return xs[lo] if lo == hi else fdiv(fadd(xs[lo], xs[hi]), Poly.const(2))
    if method == "Linear":
        if lo == hi:
            return xs[lo]
        return fadd(xs[lo], fmul(fl(f - lo), fsub(xs[hi], xs[lo])))
    if method == "Equiprobable":
        k = max(0, math.ceil(float(q) * n) - 1)
        return xs[min(k, n - 1)]
    raise Unsupported("quantile " + method)

def quantile_sym(xs, q, method):
    """the same for a symbolic level between 0 and 1: its place is decided by branching"""
    n = len(xs)
    f = fmul(q, Poly.const(n - 1))
    def floor_(v):
        for k in range(n):
            if br(flt(v, Poly.const(k + 1))):
                return k
        return n
    lo = floor_(f)
    whole = br(feq(f, Poly.const(lo)))
    hi = lo if whole else lo + 1
    if method == "Nearest":
        return xs[min(floor_(fadd(f, Poly.const(Fraction(1, 2)))), n - 1)]
    if method == "Lower":
        return xs[lo]
    if method == "Higher":
        return xs[hi]
    if method == "Midpoint":
        return xs[lo] if whole else fdiv(fadd(xs[lo], xs[hi]), Poly.const(2))
    if method == "Linear":
        return xs[lo] if whole else fadd(xs[lo], fmul(fsub(f, Poly.const(lo)), fsub(xs[hi], xs[lo])))
    raise Unsupported("symbolic quantile " + method)

def round_half(f):
    return int(math.floor(f + 0.5))

def agg_quantile(c, q, method):
    xs = ssort(nn(tofl(c)))
    return Col(c.name, "f32" if c.dt == "f32" else "f64", [quantile_sorted(xs, q, method) if xs else None], True)

def agg_median(c):
    return agg_quantile(c, 0.5, "Linear")

def unique_vals(vals):
    return [k for k, _ in groups(vals)]

def bsum(xs):
    """number of true values (forks)"""
    return sum(1 if br(x) else 0 for x in xs)

def rank(c, method, desc=False):
    idx = [i for i, v in enumerate(c.vals) if v is not None]
    o = ssort(idx, (lambda i, j: tlt(c.vals[j], c.vals[i])) if desc else (lambda i, j: tlt(c.vals[i], c.vals[j])))
    out = [None] * len(c.vals)
    # runs of equal values
    k = 0
    d = 0
    while k < len(o):
        j = k + 1
        while j < len(o) and br(teq(c.vals[o[j]], c.vals[o[k]])):
            j += 1
        d += 1
        for p in range(k, j):
            if method == "Average":
                out[o[p]] = Poly.const(Fraction(k + 1 + j, 2))
            elif method == "Min":
                out[o[p]] = k + 1
            elif method == "Max":
                out[o[p]] = j
            elif method == "Dense":
                out[o[p]] = d
            elif method == "Ordinal":
                out[o[p]] = p + 1
            else:
                raise Unsupported("rank " + method)
        k = j
    return Col(c.name, "f64" if method == "Average" else "u32", out)
