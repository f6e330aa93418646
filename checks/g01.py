from .common import *
from symx.ctx import ffn, idivmod_floor, irem
import math

ASSUMPTIONS = ["float columns hold finite 64-bit floats unless the obligation adds NaN/infinities; columns may hold nulls anywhere"]
S = lambda n: __import__("polars_ds.exprs.num", fromlist=["x"]).__dict__[n]

def obligations(tier):
    th = tier == "thorough"
    obs = []
    def add(name, ns, fn, b="{n} rows of arbitrary reals, any null pattern", **kw):
        for n in ns:
            obs.append(Ob(f"{name}/n={n}", (lambda h, n=n: fn(h, n)), b.format(n=n), **kw))
    N = (1, 2, 3) if th else (1, 2)
    # ---------------------------------------------------------------- element-wise, one column
    def s_expit(x):
        if isinstance(x, FSpec):
            return NAN if x is NAN else T.ONE if x is PINF else T.ZERO
        return fdiv(T.ONE, fadd(T.ONE, fexp(fneg(x))))
    def s_logit(x):
        if x is NAN:
            return NAN
        if isinstance(x, FSpec):
            return NAN
        if eq(x, T.ZERO):
            return NINF
        if eq(x, T.ONE):
            return PINF
        if lt(x, T.ZERO) or lt(T.ONE, x):
            return NAN
        return fln(fdiv(x, fsub(T.ONE, x)))
    def s_exp2(x):
        if isinstance(x, FSpec):
            return NAN if x is NAN else PINF if x is PINF else T.ZERO
        return T.ONE if eq(x, T.ZERO) else ffn("exp2", x)
    def s_trunc(x):
        if isinstance(x, FSpec):
            return x
        return fneg(ffloor(fneg(x))) if lt(x, T.ZERO) else ffloor(x)
    def s_fract(x):
        if isinstance(x, FSpec):
            return NAN
        return fsub(x, s_trunc(x))
    FNS = dict(expit=s_expit, logit=s_logit, exp2=s_exp2, trunc=s_trunc, fract=s_fract)
    def elem(h, n, name, dt, sp):
        xs = []
        for i in range(n):
            if dt in ("f64", "f32"):
                v = h.real(f"x{i}")
                if sp:
                    v = h.special(f"x{i}", v)
            else:
                v = h.int(f"x{i}", 0 if dt[0] == "u" else -30, 30)
            xs.append(h.opt(v, f"x{i}"))
        f = h.frame(x=(dt, xs))
        if dt not in ("f64",):
            h.tol = 1e-4
        fn = FNS[name]
        want = []
        for x in xs:
            if x is None:
                want.append(None)
            elif dt[0] in "iu":
                want.append(x if name == "trunc" else T.ZERO if name == "fract" else fn(K(x)))
            else:
                want.append(fn(x))
        h.eq(h.run(f, lambda pds, pl: getattr(pds, name)("x")), want)
    for name in FNS:
        add(name, N, lambda h, n, name=name: elem(h, n, name, "f64", True), "{n} rows: any real, NaN, +-inf or null")
        for dt in ("f32", "i64", "i32", "u8") + (("i8", "i16", "u16", "u32", "u64") if th else ()):
            add(f"{name}[{dt}]", (1, 2), lambda h, n, name=name, dt=dt: elem(h, n, name, dt, False), "{n} values of the type in [-30, 30] or null")
    def nxt(h, n, up):
        xs = h.opts_(h.reals("x", n), "x")
        f = h.frame(x=("f64", xs))
        name = "next_up" if up else "next_down"
        h.eq(h.run(f, lambda pds, pl: getattr(pds, name)("x")), [None if x is None else ffn(name, x) for x in xs], tol=1e-300)
    add("next_up", N, lambda h, n: nxt(h, n, True))
    add("next_down", N, lambda h, n: nxt(h, n, False))
    def sinc(h, n):
        xs = h.opts_(h.reals("x", n), "x")
        f = h.frame(x=("f64", xs))
        r = h.run(f, lambda pds, pl: S("sinc")("x"))
        for i, x in enumerate(xs):
            if x is None:
                h.eq(r[i], None)
            elif eq(x, T.ZERO):
                if h.mode == "real":
                    h.eq(r[i], T.ONE)
            else:
                y = fmul(fl(math.pi), x)
                h.eq(r[i], fdiv(ffn("sin", y), y))
    add("sinc", N, sinc)
    def xlogy(h, n):
        xs = [h.opt(h.special(f"x{i}", h.real(f"x{i}"), ("nan",)), f"x{i}") for i in range(n)]
        ys = [h.opt(h.special(f"y{i}", h.real(f"y{i}"), ("nan",)), f"y{i}") for i in range(n)]
        f = h.frame(x=("f64", xs), y=("f64", ys))
        want = []
        for x, y in zip(xs, ys):
            if x is None or y is None:
                want.append(None)
            elif x is NAN or y is NAN:
                want.append(NAN)
            elif eq(x, T.ZERO):
                want.append(T.ZERO)
            elif lt(y, T.ZERO):
                want.append(NAN)
            elif eq(y, T.ZERO):
                want.append(NINF if lt(T.ZERO, x) else PINF)
            else:
                want.append(fmul(x, fln(y)))
        h.eq(h.run(f, lambda pds, pl: pds.xlogy("x", "y")), want)
    add("xlogy", (1, 2), xlogy, "{n} rows: any real, NaN or null", paths=3000)
    # ---------------------------------------------------------------- horizontal norms
    def horiz(h, n, k, name, norm):
        cols = {c: h.opts_(h.reals(c, n), c) for c in "abc"[:k]}
        f = h.frame(**{c: ("f64", v) for c, v in cols.items()})
        want = []
        for i in range(n):
            v = [cols[c][i] for c in cols if cols[c][i] is not None]
            if not v:
                want.append(None if name == "l_inf" else T.ZERO)
                continue
            r = fsum_(fabs(x) for x in v) if name == "l1" else fsum_(sq(x) for x in v) if name == "l2_sq" else max_([fabs(x) for x in v])
            want.append(fdiv(r, K(k)) if norm else r)
        h.eq(h.run(f, lambda pds, pl: getattr(pds, name + "_horizontal")(*cols, normalize=norm)), want)
    for name in ("l1", "l2_sq", "l_inf"):
        for norm in (False, True):
            for k in (1, 2, 3):
                n = 2 if k < 3 or th else 1
                obs.append(Ob(f"{name}_horizontal[{'normalized,' if norm else ''}k={k}]/n={n}", lambda h, k=k, name=name, norm=norm, n=n: horiz(h, n, k, name, norm), f"{n} rows, {k} columns, any null pattern", paths=2000))
    # ---------------------------------------------------------------- gcd / lcm
    def euclid(a, b):
        a = isub(0, a, "i64") if br(ilt(a, 0)) else a
        b = isub(0, b, "i64") if br(ilt(b, 0)) else b
        while not br(ieq(b, 0)):
            a, b = b, idivmod_floor(a, b)[1]
        return a
    def gl(h, n, which, lit, B):
        xs = h.opts_(h.ints("x", n, -B, B), "x")
        if lit:
            y = h.pick([0, 1, -4, 6, 9], "y")
            ys = [y] * n
            f = h.frame(x=("i64", xs))
            arg = y
        else:
            ys = h.opts_(h.ints("y", n, -B, B), "y")
            f = h.frame(x=("i64", xs), y=("i64", ys))
            arg = "y"
        r = h.run(f, lambda pds, pl: getattr(pds, which)("x", arg))
        want = []
        for x, y in zip(xs, ys):
            if x is None or y is None:
                want.append(None)
                continue
            g = euclid(x, y)
            if which == "gcd":
                want.append(g)
            elif br(ieq(g, 0)):
                want.append(0)
            else:
                p = imul(x, y, "i64")
                p = isub(0, p, "i64") if br(ilt(p, 0)) else p
                want.append(idivmod_floor(p, g)[0])
        h.eq(r, want)
    for w in ("gcd", "lcm"):
        obs.append(Ob(f"{w}/n=1", lambda h, w=w: gl(h, 1, w, False, 12 if th else 8), "1 row of integers in a symmetric range, any null pattern", paths=3000))
        obs.append(Ob(f"{w}/n=2", lambda h, w=w: gl(h, 2, w, False, 3), "2 rows of integers in [-3, 3], any null pattern", paths=3000, hard=True))
        obs.append(Ob(f"{w}[literal]/n=2", lambda h, w=w: gl(h, 2, w, True, 4 if th else 2), "2 rows of small integers, any null pattern, several literals", paths=3000, hard=True))
    def divides(h):
        B = 24 if th else 12
        x, y = h.int("x", -B, B), h.int("y", -B, B)
        f = h.frame(x=("i64", [x]), y=("i64", [y]))
        g = h.run(f, lambda pds, pl: pds.gcd("x", "y"))[0]
        if h.mode == "real":
            g = int(to_py(g))
        if br(ieq(g, 0)):
            h.true(band(ieq(x, 0), ieq(y, 0)), "gcd is 0 only for 0, 0")
            return
        h.true(ilt(0, g), "gcd is positive")
        h.true(ieq(irem(x, g, "i64"), 0), "gcd divides x")
        h.true(ieq(irem(y, g, "i64"), 0), "gcd divides y")
        for d in range(2, B + 1):
            if h.mode == "sym":
                h.true(bor(bnot(ieq(irem(x, d, "i64"), 0)), bnot(ieq(irem(y, d, "i64"), 0)), ieq(irem(g, d, "i64"), 0)), f"common divisor {d} divides the gcd")
            else:
                h.true(bool(x % d or y % d or g % d == 0), f"common divisor {d} divides the gcd")
    obs.append(Ob("gcd is the greatest common divisor", divides, "all pairs in a symmetric range", paths=3000, hard=True))
    # ---------------------------------------------------------------- haversine
    def hav1(a, b, c, d):
        rad = fl(math.pi / 180)
        R = lambda x: fmul(x, rad)
        sn = lambda x: ffn("sin", x)
        dla, dlo = fdiv(R(fsub(c, a)), K(2)), fdiv(R(fsub(d, b)), K(2))
        q = fadd(sq(sn(dla)), fmul(fmul(ffn("cos", R(a)), ffn("cos", R(c))), sq(sn(dlo))))
        return q
    def hav(h, n, mode):
        c = {k: h.reals(k, n, -80, 80) for k in ("a", "b")}
        a, b = (h.opts_(c[k], k) for k in ("a", "b"))
        if mode == "lit":
            y = (h.pick([10.0, -35.5], "c"), 20.25)
            cs, ds = [fl(y[0])] * n, [fl(y[1])] * n
            args = y
            f = h.frame(a=("f64", a), b=("f64", b))
        else:
            cs, ds = (h.opts_(h.reals(k, n, -80, 80), k) for k in ("c", "d"))
            args = ("c", "d")
            f = h.frame(a=("f64", a), b=("f64", b), c=("f64", cs), d=("f64", ds))
        want = []
        for w in zip(a, b, cs, ds):
            if any(v is None for v in w):
                want.append(None)
                continue
            q = hav1(*w)
            # a value of sin^2+cos*cos*sin^2 lies in [0, 1]: a fact about the (uninterpreted) functions
            h.assume(band(fle(T.ZERO, q), fle(q, T.ONE)), "0 <= sin^2(dlat/2) + cos cos sin^2(dlon/2) <= 1")
            want.append(fmul(K(2 * 6371), ffn("atan2", fsqrt(q), fsqrt(fsub(T.ONE, q)))))
        h.eq(h.run(f, lambda pds, pl: pds.haversine("a", "b", *args)), want)
    for m in ("col", "lit"):
        for n in (1, 2):
            obs.append(Ob(f"haversine[{m}]/n={n}", lambda h, m=m, n=n: hav(h, n, m), f"{n} rows of coordinates, any null pattern", paths=2000))
    # ---------------------------------------------------------------- normalisations
    N3 = (1, 2, 3, 4) if th else (1, 2, 3)
    def norm(h, n, name, wnull):
        xs = h.reals("x", n)
        if wnull:
            xs = h.opts_(xs, "x")
        f = h.frame(x=("f64", xs))
        v = [x for x in xs if x is not None]
        if not v:
            return
        if name == "softmax":
            d = fsum_(fexp(x) for x in v)
            g = lambda x: fdiv(fexp(x), d)
        else:
            m = mean_(v)
            if name == "center":
                g = lambda x: fsub(x, m)
            else:
                if len(v) < 2:
                    return
                s2 = var_(v)
                h.assume(flt(T.ZERO, s2))
                s = fsqrt(s2)
                g = lambda x: fdiv(fsub(x, m), s)
        h.eq(h.run(f, lambda pds, pl: getattr(pds, name)("x")), [None if x is None else g(x) for x in xs])
    for name in ("center", "z_normalize", "softmax"):
        add(name, N3 if name != "z_normalize" else N3[1:], lambda h, n, name=name: norm(h, n, name, True))
    def mono(h, n, name, strict):
        xs = h.reals("x", n)
        f = h.frame(x=("f64", xs))
        inc = name == "is_increasing"
        ok = all((lt(a, b) if inc else lt(b, a)) if strict else (le(a, b) if inc else le(b, a)) for a, b in zip(xs, xs[1:]))
        h.eq(h.run(f, lambda pds, pl: getattr(pds, name)("x", strict=strict)), [ok])
    for name in ("is_increasing", "is_decreasing"):
        for strict in (False, True):
            add(f"{name}[{'strict' if strict else 'weak'}]", N3, lambda h, n, name=name, strict=strict: mono(h, n, name, strict), "{n} rows of arbitrary reals")
    def amax(h, lens):
        rows, want = [], []
        for i, k in enumerate(lens):
            v = h.reals(f"v{i}_", k)
            rows.append(Lst(v, "f64"))
            best = 0
            for j in range(1, k):
                if lt(v[best], v[j]):
                    best = j
            want.append([best])
        f = h.frame(x=(("list", "f64"), rows))
        h.eq(h.run(f, lambda pds, pl: pds.list_amax("x")), want)
    for lens in ((1,), (2, 1), (3, 2)):
        obs.append(Ob(f"list_amax/{'-'.join(map(str, lens))}", lambda h, lens=lens: amax(h, lens), f"lists of lengths {lens}"))
    return obs
