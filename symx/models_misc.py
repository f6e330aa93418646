"""Models of the numeric crates behind the plugins: cfavml, faer, ndarray, rapidfuzz, rand, realfft ..."""
from . import ctx as C, term as T, mir
from .term import *
from .ctx import *
from .interp import *
from .models_std import ListIt, It, STOP, items, into_it, truth
from .models_polars import emodel, fnode
from .plops import Col, Lst, PolarsError
from .plops import br

# ------------------------------------------------------------------ cfavml
def sl(v):
    """items of a slice argument"""
    v = deref(v)
    if isinstance(v, Col):
        return v.vals
    return items(v)

def put(v, xs):
    """overwrite a mutable slice"""
    v = deref(v)
    if isinstance(v, VecV):
        v.d[:] = xs
    elif isinstance(v, SliceV):
        v.d[v.o:v.o + v.n] = xs
    else:
        raise Unsupported(f"mutable slice {type(v).__name__}")

def same(*vs):
    if len({len(v) for v in vs}) != 1:
        raise PathPanic("slices of different lengths")

def fdot(a, b):
    r = T.ZERO
    for x, y in zip(a, b):
        r = fadd(r, fmul(x, y))
    return r

def _elem(op):
    def f(it, a, c):
        x, y = sl(a[0]), sl(a[1])
        same(x, y, sl(a[2]))
        put(a[2], [op(p, q) for p, q in zip(x, y)])
        return UNIT
    return f

model("cfavml::add_vector")(_elem(fadd))
model("cfavml::sub_vector")(_elem(fsub))
model("cfavml::mul_vector")(_elem(fmul))

@model("cfavml::dot")
def _(it, a, c):
    x, y = sl(a[0]), sl(a[1])
    same(x, y)
    return fdot(x, y)

@model("cfavml::squared_euclidean")
def _(it, a, c):
    x, y = sl(a[0]), sl(a[1])
    same(x, y)
    r = T.ZERO
    for p, q in zip(x, y):
        d = fsub(p, q)
        r = fadd(r, fmul(d, d))
    return r

@model("cfavml::squared_norm")
def _(it, a, c):
    x = sl(a[0])
    return fdot(x, x)

@model("cfavml::cosine")
def _(it, a, c):
    x, y = sl(a[0]), sl(a[1])
    same(x, y)
    return fsub(T.ONE, fdiv(fdot(x, y), fsqrt(fmul(fdot(x, x), fdot(y, y)))))

@model("cfavml::sum")
def _(it, a, c):
    r = T.ZERO
    for x in sl(a[0]):
        r = fadd(r, x)
    return r

for _k, _v in dict(is_infinite="IsInfinite", is_finite="IsFinite", is_nan="IsNan", is_not_nan="IsNotNan").items():
    emodel(_k, (lambda v: lambda e: fnode({"Boolean": v}, [e]))(_v))

# ------------------------------------------------------------------ realfft: the exact discrete Fourier transform
def _s(n):
    return fsqrt(Poly.const(n))

def cossin(j, n):
    """exact cos and sin of 2 pi j / n"""
    j %= n
    q = Fraction(j, n)
    if q > Fraction(1, 2):
        c, s = cossin(n - j, n)
        return c, fneg(s)
    if q > Fraction(1, 4):
        f = Fraction(1, 2) - q
        c, s = cossin(f.numerator, f.denominator)
        return fneg(c), s
    k = Poly.const
    H = Fraction(1, 2)
    if q == 0:
        return T.ONE, T.ZERO
    if q == Fraction(1, 4):
        return T.ZERO, T.ONE
    if q == Fraction(1, 8):
        return k(H) * _s(2), k(H) * _s(2)
    if q == Fraction(1, 6):
        return k(H), k(H) * _s(3)
    if q == Fraction(1, 12):
        return k(H) * _s(3), k(H)
    # multiples of 36 degrees: sin 72 = s, sin 36 = s (sqrt 5 - 1) / 2
    s72 = k(Fraction(1, 4)) * fsqrt(k(10) + k(2) * _s(5))
    if q == Fraction(1, 5):
        return k(Fraction(1, 4)) * (_s(5) - T.ONE), s72
    if q == Fraction(1, 10):
        return k(Fraction(1, 4)) * (_s(5) + T.ONE), k(H) * s72 * (_s(5) - T.ONE)
    raise Unsupported(f"Fourier transform of length {n}")

def dft(xs, n, m, sign):
    """xs: pairs; the first m outputs of the transform of length n"""
    out = []
    for k in range(m):
        re, im = T.ZERO, T.ZERO
        for j, (a, b) in enumerate(xs):
            c, s = cossin(j * k, n)
            if sign < 0:
                s = fneg(s)
            re = fadd(re, fsub(fmul(a, c), fmul(b, s)))
            im = fadd(im, fadd(fmul(a, s), fmul(b, c)))
        out.append((re, im))
    return out

@model("RealFftPlanner::new")
def _(it, a, c):
    return StructV("RealFftPlanner", [])

@model("RealFftPlanner::plan_fft_forward", "RealFftPlanner::plan_fft_inverse")
def _(it, a, c):
    return StructV("Fft", [iconc(a[1])])

class Cplx(StructV):
    __slots__ = ()

    def arith_sym(self, it, op, x, y):
        (a, b), (p, q) = ((deref(v).f if isinstance(deref(v), StructV) else (fl(deref(v)), T.ZERO)) for v in (x, y))
        if op == "Add":
            return cplx(fadd(a, p), fadd(b, q))
        if op == "Sub":
            return cplx(fsub(a, p), fsub(b, q))
        if op == "Mul":
            return cplx(fsub(fmul(a, p), fmul(b, q)), fadd(fmul(a, q), fmul(b, p)))
        raise Unsupported(f"complex {op}")

def cplx(re, im):
    return Cplx("Complex", [re, im])

@model("RealToComplex::make_output_vec", "ComplexToReal::make_input_vec")
def _(it, a, c):
    return VecV([cplx(T.ZERO, T.ZERO) for _ in range(deref(a[0]).f[0] // 2 + 1)])

@model("RealToComplex::process")
def _(it, a, c):
    n = deref(a[0]).f[0]
    x = list(sl(a[1]))
    if len(x) != n or len(sl(a[2])) != n // 2 + 1:
        return Err("wrong buffer length")
    put(a[2], [cplx(*z) for z in dft([(v, T.ZERO) for v in x], n, n // 2 + 1, -1)])
    put(a[1], [NAN] * n)        # the input buffer is scratch space
    return Ok(UNIT)

@model("ComplexToReal::process")
def _(it, a, c):
    n = deref(a[0]).f[0]
    z = [tuple(deref(v).f) for v in sl(a[1])]
    if len(z) != n // 2 + 1 or len(sl(a[2])) != n:
        return Err("wrong buffer length")
    z[0] = (z[0][0], T.ZERO)
    if n % 2 == 0:
        z[-1] = (z[-1][0], T.ZERO)
    full = z + [(r, fneg(i)) for r, i in (z[1:-1] if n % 2 == 0 else z[1:])[::-1]]
    put(a[2], [r for r, _ in dft(full, n, n, 1)])
    put(a[1], [cplx(NAN, NAN) for _ in z])
    return Ok(UNIT)
