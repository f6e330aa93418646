"""rand / rand_distr: every draw is an arbitrary value of the distribution's support, determined by the seed, the position in the
stream and the standard form of the distribution (uniform on [0,1), standard normal, standard exponential, integers below a bound)"""
from . import ctx as C, term as T
from .term import *
from .ctx import *
from .interp import *
from .models_std import FnIt

class Rng:
    def __init__(self, key):
        self.key, self.n = key, 0

    def draw(self, kind, mk):
        """the next draw of this stream for a standard form"""
        t = C.CTX.__dict__.setdefault("draws", {})
        k = (self.key, self.n, kind)
        self.n += 1
        if k not in t:
            t[k] = mk(f"rng{len(t)}")
        return t[k]

class Dist:
    def __init__(self, kind, *a):
        self.kind, self.a = kind, a

def unit(name):
    v = C.CTX.real(name, 0)
    C.CTX.assume(flt(v, T.ONE), None)
    return v

def normal(name):
    return C.CTX.real(name)

def exp1(name):
    return C.CTX.real(name, 0)

def integer(lo, hi):
    def mk(name):
        v = C.CTX.int(name, lo.lo if isinstance(lo, SI) else lo, hi.hi if isinstance(hi, SI) else hi)
        C.CTX.assume(ile(lo, v), None)
        C.CTX.assume(ile(v, hi), None)
        return v
    return mk

def char(name):
    v = C.CTX.int(name, 48, 122)
    C.CTX.assume(bor(*[band(ile(a, v), ile(v, b)) for a, b in ((48, 57), (65, 90), (97, 122))]), None)
    return v

def sample(d, g):
    d, g = deref(d), deref(g)
    k = d.kind if isinstance(d, Dist) else d.name
    if k == "uniform":
        lo, hi = d.a
        return fadd(lo, fmul(fsub(hi, lo), g.draw("u", unit)))
    if k == "uniform_int":
        lo, hi = d.a
        return g.draw(("i", repr(lo), repr(hi)), integer(lo, hi))
    if k == "StandardNormal":
        return g.draw("z", normal)
    if k == "normal":
        return fadd(d.a[0], fmul(d.a[1], g.draw("z", normal)))
    if k == "Exp1":
        return g.draw("e", exp1)
    if k == "exp":
        return fdiv(g.draw("e", exp1), d.a[0])
    if k == "binomial":
        n, p = d.a
        v = g.draw(("b", repr(n), repr(p)), integer(0, n))
        if br_(feq(p, T.ZERO)):
            C.CTX.assume(ieq(v, 0), None)
        if br_(feq(p, T.ONE)):
            C.CTX.assume(ieq(v, n), None)
        return v
    raise Unsupported(f"distribution {k}")

def br_(b):
    return C.CTX.branch(b)

@model("SeedableRng::seed_from_u64")
def _(it, a, c):
    return Rng(("seed", repr(a[0])))

@model("SeedableRng::from_entropy")
def _(it, a, c):
    C.CTX.__dict__["entropy"] = C.CTX.__dict__.get("entropy", 0) + 1
    return Rng(("entropy", C.CTX.__dict__["entropy"]))

@model("Uniform::new", "Uniform::new_inclusive")
def _(it, a, c):
    lo, hi = deref(a[0]), deref(a[1])
    inc = c.key.endswith("inclusive")
    if isinstance(lo, (int, SI)):
        if not br_((ile if inc else ilt)(lo, hi)):
            raise PathPanic("Uniform::new called with `low >= high`")
        return Dist("uniform_int", lo, hi if inc else (hi - 1 if isinstance(hi, int) else si(ipoly(hi) - T.ONE, hi.lo - 1, hi.hi - 1)))
    if inc or not (isinstance(lo, Poly) and isinstance(hi, Poly)):
        raise Unsupported("uniform distribution with special bounds")
    if not br_(flt(lo, hi)):
        raise PathPanic("Uniform::new called with `low >= high`")
    return Dist("uniform", lo, hi)

@model("Normal::new")
def _(it, a, c):
    return Ok(Dist("normal", a[0], a[1]))

@model("Exp::new")
def _(it, a, c):
    if not br_(fle(T.ZERO, a[0])):
        return Err(EnumV("ExpError", "LambdaTooSmall", []))
    return Ok(Dist("exp", a[0]))

@model("Binomial::new")
def _(it, a, c):
    if not br_(fle(T.ZERO, a[1])):
        return Err(EnumV("BinomialError", "ProbabilityTooSmall", []))
    if not br_(fle(a[1], T.ONE)):
        return Err(EnumV("BinomialError", "ProbabilityTooLarge", []))
    return Ok(Dist("binomial", a[0], a[1]))

@model("Rng::sample_iter", "Distribution::sample_iter")
def _(it, a, c):
    g, d = (a[0], a[1]) if c.key.startswith("Rng") else (a[1], a[0])
    return FnIt(lambda: sample(d, g))

@model("Rng::sample")
def _(it, a, c):
    return sample(a[1], a[0])

@model("Distribution::sample")
def _(it, a, c):
    return sample(a[0], a[1])

@model("DistString::sample_string")
def _(it, a, c):
    n, g = deref(a[2]), deref(a[1])
    if isinstance(n, SI):
        for k in range(n.lo, n.hi + 1):
            if br_(ieq(n, k)):
                n = k
                break
    return StrV([g.draw(("c", i), char) for i in range(n)])
