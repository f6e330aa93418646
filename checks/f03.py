"""Random columns: the draws are arbitrary values of the support of their distribution, a function of the seed and the position"""
from .strs import *

ASSUMPTIONS = ["rand / rand_distr draw from the support of the distribution; a seed determines the underlying standard draws"]

def obligations(tier):
    th = tier == "thorough"
    obs = []
    def add(name, fn, bounds, paths=3000):
        obs.append(Ob(name, fn, bounds, paths=paths))
    NS = (0, 1, 3, 5) if th else (0, 1, 3)
    LEN = ("pl.len()", "length")
    def frame(h, n):
        return h.frame(a=("f64", [fl(i) for i in range(n)]), lo=("f64", [fl(-2.5)] * n), i=("i64", [3] * n), j=("i64", [9] * n))
    def gen(h, call, inside, n, how, seed=7):
        """call(pds, pl, seed, **length): length, range, and the same values for the same seed"""
        m = n if how == "pl.len()" else n + 2
        kw = {} if how == "pl.len()" else {"length": m}
        f = frame(h, n if how == "pl.len()" else 4)
        r1 = h.run(f, lambda pds, pl: call(pds, pl, seed, **kw))
        r2 = h.run(f, lambda pds, pl: call(pds, pl, seed, **kw))
        h.eq(len(r1), m, "number of values")
        for x in r1:
            if x is None:
                h.true(False, "no nulls")
            else:
                inside(x)
        if seed is not None:
            h.eq(r2, r1, "same values for the same seed")
        return r1
    def within(h, lo, hi):
        def f(x):
            h.true(isinstance(x, Poly), f"finite, got {x}")
            h.true(fle(lo, x), "at least the lower bound")
            h.true(flt(x, hi), "below the upper bound")
        return f
    def iwithin(h, lo, hi):
        def f(x):
            h.true(band(ile(lo, x), ile(x, hi)), f"within {lo}..{hi}, got {x}")
        return f

    # ---------------------------------------------------------------- random
    def rnd(h, n, how, seed, kind):
        if kind == "default":
            return gen(h, lambda p, pl, s, **k: p.random(seed=s, **k), within(h, T.ZERO, T.ONE), n, how, seed)
        if kind == "ints":
            return gen(h, lambda p, pl, s, **k: p.random(-2, 3, seed=s, **k), within(h, K(-2), K(3)), n, how, seed)
        if kind == "expr":
            return gen(h, lambda p, pl, s, **k: p.random(pl.col("lo").min(), pl.col("i").max(), seed=s, **k), within(h, fl(-2.5), K(3)), n, how, seed)
        a, b = h.param("lo", -1000, 0), h.param("hi", 0.5, 1000)
        gen(h, lambda p, pl, s, **k: p.random(a.api, b.api, seed=s, **k), within(h, a.v, b.v), n, how, seed)
    for how in LEN:
        for n in NS:
            for kind in ("default", "ints", "expr", "arbitrary"):
                if kind == "expr" and n == 0:
                    continue
                for seed in (7, None) if n == 3 else (7,):
                    add(f"random[{kind},{how},seed={seed}]/n={n}", lambda h, a=(n, how, seed, kind): rnd(h, *a), "every draw; lower in [-1000, 0], upper in [0.5, 1000]")
    # scaling: the same seed gives the same underlying draws
    def scale(h, which):
        f = frame(h, 3)
        c = {"random": (lambda p, pl: p.random(0.0, 1.0, seed=3), lambda p, pl: p.random(-1.0, 3.0, seed=3), lambda u: fadd(K(-1), fmul(K(4), u))),
             "random_normal": (lambda p, pl: p.random_normal(0.0, 1.0, seed=3), lambda p, pl: p.random_normal(2.0, 3.0, seed=3), lambda z: fadd(K(2), fmul(K(3), z))),
             "random_normal[ints]": (lambda p, pl: p.random_normal(0, 1, seed=3), lambda p, pl: p.random_normal(2, 3, seed=3), lambda z: fadd(K(2), fmul(K(3), z))),
             "random_normal[expr]": (lambda p, pl: p.random_normal(0.0, 1.0, seed=3), lambda p, pl: p.random_normal(pl.col("lo").min(), pl.col("i").min(), seed=3), lambda z: fadd(fl(-2.5), fmul(K(3), z))),
             "random_exp": (lambda p, pl: p.random_exp(1.0, seed=3), lambda p, pl: p.random_exp(4.0, seed=3), lambda e: fdiv(e, K(4)))}[which]
        h.tol = 1e-9
        a, b = (h.run(f, lambda pds, pl, g=g: g(pds, pl)) for g in c[:2])
        h.eq(b, [c[2](x) for x in a])
    for w in ("random", "random_normal", "random_normal[ints]", "random_normal[expr]", "random_exp"):
        add(f"{w}/parameters", lambda h, w=w: scale(h, w), "every draw: location and scale act as documented")

    # ---------------------------------------------------------------- the other generators
    def ints(h, n, how, lo, hi, seed=7):
        if lo == "expr":
            return gen(h, lambda p, pl, s, **k: p.random_int(pl.col("i").min(), pl.col("j").max(), seed=s, **k), iwithin(h, 3, 8), n, how, seed)
        gen(h, lambda p, pl, s, **k: p.random_int(lo, hi, seed=s, **k), iwithin(h, lo, hi - 1), n, how, seed)
    for how in LEN:
        for n in NS:
            for lo, hi in ((0, 2), (-5, 5), (3, 4), (-2**31, 2**31 - 1), ("expr", None)):
                if lo == "expr" and n == 0:
                    continue
                add(f"random_int[{lo},{hi},{how}]/n={n}", lambda h, a=(n, how, lo, hi): ints(h, *a), "every draw")
    add("random_int[no seed]/n=3", lambda h: ints(h, 3, "pl.len()", 0, 3, None), "every draw")
    def strs(h, n, how, lo, hi, seed=7):
        a, b = min(lo, hi), max(lo, hi)
        def ok(s):
            if not isinstance(s, StrV):
                return h.true(False, f"text, got {s}")
            h.true(a <= len(s.c) <= b, f"between {a} and {b} characters, got {len(s.c)}")
            for x in s.c:
                h.true(bor(*[band(ile(p, x), ile(x, q)) for p, q in ((48, 57), (65, 90), (97, 122))]), "letters and digits")
        gen(h, lambda p, pl, s, **k: p.random_str(lo, hi, seed=s, **k), ok, n, how, seed)
    for how in LEN:
        for n in (0, 1, 2):
            for lo, hi in ((0, 2), (2, 2), (3, 1), (0, 0)):
                if n + (how == "length") * 2 < 3 or lo == hi:
                    add(f"random_str[{lo},{hi},{how}]/n={n}", lambda h, a=(n, how, lo, hi): strs(h, *a), "every draw")
    def binom(h, n, how, k, seed=7):
        p = h.param("p", 0, 1)
        gen(h, lambda q, pl, s, **kw: q.random_binomial(k, p.api, seed=s, **kw), iwithin(h, 0, k), n, how, seed)
    def expo(h, n, how, seed=7):
        l = h.param("lambda", 0.01, 100)
        gen(h, lambda q, pl, s, **kw: q.random_exp(l.api, seed=s, **kw), lambda x: h.true(fle(T.ZERO, x), "not negative"), n, how, seed)
    def norm(h, n, how, seed=7):
        gen(h, lambda q, pl, s, **kw: q.random_normal(1.0, 2.0, seed=s, **kw), lambda x: h.true(isinstance(x, Poly), f"finite, got {x}"), n, how, seed)
    for how in LEN:
        for n in NS:
            for k in (1, 5):
                add(f"random_binomial[{k},{how}]/n={n}", lambda h, a=(n, how, k): binom(h, *a), "every draw, every p in [0, 1]")
            add(f"random_exp[{how}]/n={n}", lambda h, a=(n, how): expo(h, *a), "every draw, every rate in [0.01, 100]")
            add(f"random_normal[{how}]/n={n}", lambda h, a=(n, how): norm(h, *a), "every draw")
    def bern(h):
        f = frame(h, 3)
        h.eq(h.run(f, lambda pds, pl: pds.random_binomial(4, 0.0, seed=5)), [0] * 3)
        h.eq(h.run(f, lambda pds, pl: pds.random_binomial(4, 1.0, seed=5)), [4] * 3)
    add("random_binomial/certain", bern, "p = 0 and p = 1")

    # ---------------------------------------------------------------- changing a column
    def col(h, n, dt="f64"):
        xs = [h.opt(h.real(f"x{i}", -1000, 1000), f"x{i}") for i in range(n)]
        return xs, h.frame(x=(dt, xs, [1, n - 1] if n > 2 else None))
    def rnull(h, n, seed):
        xs, f = col(h, n)
        p, q = h.param("p", 0.01, 0.99), h.param("q", 0.01, 0.99)
        r = h.run(f, lambda pds, pl: pds.random_null("x", p.api, seed=seed))
        h.eq(len(r), n, "number of values")
        for x, y in zip(xs, r):
            if y is not None:
                h.eq(y, x, "a value that is not nulled stays")
        if seed is not None:
            h.eq(h.run(f, lambda pds, pl: pds.random_null("x", p.api, seed=seed)), r, "same values for the same seed")
            h.assume(fle(p.v, q.v))
            for x, y in zip(r, h.run(f, lambda pds, pl: pds.random_null("x", q.api, seed=seed))):
                h.true(y is None or x is not None, "a larger share of nulls keeps the nulls of a smaller one")
    for n in NS:
        for seed in (7, None):
            add(f"random_null[seed={seed}]/n={n}", lambda h, n=n, seed=seed: rnull(h, n, seed), "every draw, arbitrary values and nulls, every share in [0.01, 0.99]")
    def pert(h, n, positive, seed, api="perturb", dt="f64"):
        xs, f = col(h, n, dt)
        e = h.pick((0.5, -0.25, 1, 0.0), "epsilon")
        call = (lambda p: p.perturb("x", epsilon=e, positive=positive, seed=seed)) if api == "perturb" else (lambda p: p.add_noise("x", noise_type="uniform", epsilon=e, positive=positive, seed=seed))
        r = h.run(f, lambda pds, pl: call(pds))
        h.eq(len(r), n, "number of values")
        ep = abs(Fraction(e))
        lo, hi = (K(0), K(ep)) if positive else (K(-ep / 2), K(ep / 2))
        for x, y in zip(xs, r):
            if x is None or y is None:
                h.true(x is None and y is None, "nulls stay, values stay values")
            else:
                d = fsub(y, x)
                h.true(band(fle(fsub(lo, K(Fraction(1, 10**6))), d), fle(d, fadd(hi, K(Fraction(1, 10**6))))) if h.mode == "real" else band(fle(lo, d), flt(d, hi) if ep else feq(d, T.ZERO)), "moved by less than the bound")
        if seed is not None:
            h.eq(h.run(f, lambda pds, pl: call(pds)), r, "same values for the same seed")
    for n in NS[1:]:
        for pos in (False, True):
            for seed in (7, None):
                add(f"perturb[positive={pos},seed={seed}]/n={n}", lambda h, a=(n, pos, seed): pert(h, *a), "every draw, arbitrary values and nulls")
            add(f"add_noise[uniform,positive={pos}]/n={n}", lambda h, a=(n, pos, 7, "add_noise"): pert(h, *a), "every draw, arbitrary values and nulls")
    def jit(h, n, how, seed, api="jitter"):
        xs = [h.opt(h.real(f"x{i}", -1000, 1000), f"x{i}") for i in range(n)]
        f = h.frame(x=("f64", xs, [1, n - 1] if n > 2 else None), s=("f64", [fl(0.75)] * n))
        J = (lambda p, s: p.jitter("x", std=s, seed=seed)) if api == "jitter" else (lambda p, s: p.add_noise("x", std=s, seed=seed))
        a = h.run(f, lambda pds, pl: J(pds, 1.0))
        s, sv = {"float": (0.5, Fraction(1, 2)), "int": (2, 2), "expr": (None, Fraction(3, 4)), "zero": (0.0, 0), "zero int": (0, 0)}[how]
        b = h.run(f, lambda pds, pl: J(pds, pl.col("s").min() if how == "expr" else s))
        h.eq([len(a), len(b)], [n, n], "number of values")
        for x, y, z in zip(xs, a, b):
            if x is None:
                h.true(y is None and z is None, "nulls stay")
            else:
                h.true(y is not None and z is not None, "values stay values")
                h.tol = 1e-6
                h.eq(z, fadd(x, fmul(K(Fraction(sv)), fsub(y, x))) if seed is not None or sv == 0 else z, "noise scales with the standard deviation")
    for n in NS[1:]:
        for how in ("float", "int", "expr", "zero", "zero int"):
            add(f"jitter[std {how}]/n={n}", lambda h, a=(n, how, 7): jit(h, *a), "every draw, arbitrary values and nulls")
        add(f"jitter[no seed]/n={n}", lambda h, a=(n, "float", None): jit(h, *a), "every draw, arbitrary values and nulls")
        add(f"add_noise[gaussian]/n={n}", lambda h, a=(n, "float", 7, "add_noise"): jit(h, *a), "every draw, arbitrary values and nulls")
    return obs
