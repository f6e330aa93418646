from .common import *
from symx.ctx import ffn, fln
from symx.interp import Ok
import math

ASSUMPTIONS = ["in the F and t obligations ln_gamma is the logarithm of the gamma function (its code is executed in the chi-squared obligations, at the half-integers up to 6)",
               "constant expressions of exp, ln and the reference tails are enclosed from their double values with a relative margin of 1e-11",
               "the columns leave one value free, so that the statistic takes every value of a range"]

def ln_gamma(it, a, c):
    """ln of the gamma function of an integer or half-integer; pi stays a symbol"""
    x = fl(a[0])
    if not x.is_const() or (2 * x.cval()).denominator != 1 or x.cval() <= 0:
        raise Unsupported("ln_gamma of such an argument")
    v = x.cval()
    if v.denominator == 1:
        return fln(K(math.factorial(int(v) - 1)))
    n = int(v)
    return fadd(fln(K(Fraction(math.factorial(2 * n), 4 ** n * math.factorial(n)))), fmul(K(Fraction(1, 2)), ffn("ln", K(Fraction(math.pi)))))

PINS = {"ln_gamma": ln_gamma}

def powh(x, n2):
    """x^(n2/2)"""
    r = T.ONE
    for _ in range(n2 // 2):
        r = fmul(r, x)
    return fmul(r, fsqrt(x)) if n2 % 2 else r

def f_sf(F, d1, d2):
    """upper tail of the F distribution for an even d1 or an even d2"""
    x = fdiv(K(d2), fadd(K(d2), fmul(K(d1), F)))
    def reg(x, a2, b):
        """I_x(a2/2, b) for an integer b: x^a sum of (a)_i / i! (1-x)^i"""
        s, c = T.ZERO, Fraction(1)
        for i in range(b):
            s = fadd(s, fmul(K(c), powh(fsub(T.ONE, x), 2 * i)))
            c = c * (Fraction(a2, 2) + i) / (i + 1)
        return fmul(powh(x, a2), s)
    if d1 % 2 == 0:
        return reg(x, d2, d1 // 2)
    return fsub(T.ONE, reg(fsub(T.ONE, x), d1, d2 // 2))

def t_sf(t2, df):
    """upper tail of Student's t distribution beyond |t| for an even df"""
    c2 = fdiv(K(df), fadd(K(df), t2))
    s, c = T.ZERO, Fraction(1)
    for i in range(df // 2):
        s = fadd(s, fmul(K(c), powh(c2, 2 * i)))
        c = c * Fraction(2 * i + 1, 2 * i + 2)
    A = fmul(fsqrt(fsub(T.ONE, c2)), s)
    return fmul(K(Fraction(1, 2)), fsub(T.ONE, A))

def obligations(tier):
    th = tier == "thorough"
    obs = []
    def setup(h):
        h.opts["pins"] = PINS
        if h.mode == "sym":
            C.CTX.explog = True
    TOL = K(Fraction(1, 10 ** 9))
    def near(h, a, b, lab):
        h.le(fsub(a, b), TOL, lab + " (not above)")
        h.le(fsub(b, a), TOL, lab + " (not below)")
    # ---------------------------------------------------------------- F: the means of the groups move, the values' spread about them is fixed
    def ftest(h, groups):
        """groups: [(multiple of v that is the mean, deviations that add up to 0)], means add up to 0"""
        setup(h)
        n, k = sum(len(d) for _, d in groups), len(groups)
        d1, d2 = k - 1, n - k
        bb = sum(len(dev) * c * c for c, dev in groups)
        ssw = sum(d * d for _, dev in groups for d in dev)
        a, b = Fraction(d2, 2), Fraction(d1, 2)
        thr = (a + 1) / (a + b + 2)
        # where the continued fraction ends exactly: x below the threshold for an integer b, above it for an integer a
        xl = Fraction(1, 20) if b.denominator == 1 else thr + Fraction(1, 50)
        xh = Fraction(19, 20) if a.denominator == 1 else thr - Fraction(1, 50)
        def at(x):
            return Fraction(math.isqrt(int(10 ** 8 * ssw * (1 / x - 1) / bb)), 10 ** 4)
        v = h.real("v", at(xh), at(xl))
        g, x = [], []
        for i, (c, dev) in enumerate(groups):
            g += [i] * len(dev)
            x += [fadd(fmul(K(c), v), K(d)) for d in dev]
        ssb = fmul(K(bb), sq(v))
        F = fmul(ssb, K(Fraction(d2, d1 * ssw)))
        r = h.run(h.frame(g=("i64", g), x=("f64", x)), lambda pds, pl: pds.f_test("x", group="g"))[0]
        r = (r["statistic"], r["pvalue"]) if isinstance(r, dict) else r
        h.eq(r[0], F, "statistic")
        h.eq(r[1], f_sf(F, d1, d2), f"upper tail of F({d1}, {d2})")
    two, one, three, four = (1, -1), (0,), (1, 0, -1), (1, 2, -2, -1)
    G = [[(1, two), (-1, two)], [(1, three), (-1, three)], [(1, four), (-1, four)],
         [(1, two), (0, one), (-1, two)], [(1, two), (0, two), (-1, two)], [(1, two), (0, three), (-1, two)], [(1, three), (0, two), (-1, three)], [(1, one), (0, two), (-1, one)],
         [(1, one), (2, two), (-2, two), (-1, one)], [(1, two), (2, two), (-2, two), (-1, two)], [(1, one), (2, one), (-2, one), (-1, one), (0, two)], [(1, one), (2, one), (-2, one), (-1, one), (0, three)],
         [(1, two), (2, two), (-2, two), (-1, two), (0, two)]]
    if th:
        G += [[(1, two), (2, two), (3, two), (-1, two), (-2, two), (-3, one), (-3, one), (3, one)], [(1, four), (0, four), (-1, four)], [(1, four), (-1, three)]]
    for gs in G:
        k, n = len(gs), sum(len(d) for _, d in gs)
        if (k - 1) % 2 and (n - k) % 2:
            continue
        obs.append(Ob(f"F({k - 1}, {n - k})", lambda h, g=gs: ftest(h, g), f"{k} groups of {[len(d) for _, d in gs]} values whose means are multiples of any v with SSW/SST in about [0.05, 0.95], where the continued fraction is finite", paths=200, secs=40))
    # ---------------------------------------------------------------- t: the mean moves, the spread is fixed
    def ttest(h, dev, alt, hi):
        setup(h)
        v = h.real("v", -hi, hi)
        h.assume(fle(K(Fraction(1, 20)), fabs(v)))
        n = len(dev)
        x = [fadd(v, K(d)) for d in dev]
        t2 = fmul(sq(v), K(Fraction(n * (n - 1), sum(d * d for d in dev))))
        pos = not br(flt(v, T.ZERO))
        r = h.run(h.frame(x=("f64", x)), lambda pds, pl: pds.ttest_1samp("x", 0.0, alternative=alt))[0]
        r = (r["statistic"], r["pvalue"]) if isinstance(r, dict) else r
        h.eq(sq(r[0]), t2, "square of the statistic")
        p = t_sf(t2, n - 1)     # beyond |t|
        q = fsub(T.ONE, p)
        want = fmul(K(2), p) if alt == "two-sided" else (p if pos == (alt == "greater") else q)
        h.eq(r[1], want, f"{alt} tail of t({n - 1})")
    for dev in (three, (1, 2, 0, -2, -1), (1, 2, 0, -2, -1, 3, -3)):
        for alt in ("two-sided", "less", "greater"):
            obs.append(Ob(f"t({len(dev) - 1})/{alt}", lambda h, f=dev, a=alt: ttest(h, f, a, Fraction(2, 5)), f"{len(dev)} values of a fixed spread about any mean with 0.05 <= |mean| <= 0.4", paths=200, secs=40))
    # ---------------------------------------------------------------- odd degrees of freedom: chosen means
    VS = [Fraction(k, 8) for k in (-40, -9, -3, -1, 1, 2, 5, 12, 60)]
    def tfix(h, dev, alt):
        v = h.pick(VS, "v")
        x = [v + d for d in dev]
        n = len(x)
        m = sum(x) / n
        t2 = m * m * n * (n - 1) / sum((a - m) ** 2 for a in x)
        r = h.run(h.frame(x=("f64", [K(a) for a in x])), lambda pds, pl: pds.ttest_1samp("x", 0.0, alternative=alt))[0]
        r = (r["statistic"], r["pvalue"]) if isinstance(r, dict) else r
        p = ffn("tsf", fsqrt(K(t2)), K(n - 1))
        want = fmul(K(2), p) if alt == "two-sided" else (p if (m > 0) == (alt == "greater") else fsub(T.ONE, p))
        near(h, r[1], want, f"{alt} tail of t({n - 1})")
    for k in (1, 2, 3, 5, 6, 9):
        dev = (k,) + (-1,) * k      # a standard error of exactly 1
        for alt in ("two-sided", "less", "greater"):
            obs.append(Ob(f"t({len(dev) - 1}), chosen means/{alt}", lambda h, d=dev, a=alt: tfix(h, d, a), f"{len(dev)} values of a fixed spread about the means {', '.join(f'{float(v):g}' for v in VS)}", paths=40))
    def ffix(h, devs):
        vs = [h.pick([Fraction(0), Fraction(1, 4), Fraction(3)], f"v{i}") for i in range(len(devs) - 1)] + [Fraction(0)]
        g = [i for i, d in enumerate(devs) for _ in d]
        x = [v + d for v, dev in zip(vs, devs) for d in dev]
        n, k, m = len(x), len(devs), sum(x) / len(x)
        mu = [sum(v + d for d in dev) / len(dev) for v, dev in zip(vs, devs)]
        b = sum(len(dev) * (a - m) ** 2 for a, dev in zip(mu, devs))
        w = sum((a - mu[i]) ** 2 for i, a in zip(g, x))
        h.assume(b > 0)
        F = b / (k - 1) / (w / (n - k))
        r = h.run(h.frame(g=("i64", g), x=("f64", [K(a) for a in x])), lambda pds, pl: pds.f_test("x", group="g"))[0]
        r = (r["statistic"], r["pvalue"]) if isinstance(r, dict) else r
        h.eq(r[0], K(F), "statistic")
        near(h, r[1], ffn("fsf", K(F), K(k - 1), K(n - k)), f"upper tail of F({k - 1}, {n - k})")
    for devs in (((1, 0), (2, 2, 0)), ((1, 0, 2), (1, 3)), ((1, 0, 3, 2), (1,), (0, 5), (2, 4)), ((1, 2), (1, 1, 4), (0, 2, 2, 7, 1))):
        k, n = len(devs), sum(len(d) for d in devs)
        obs.append(Ob(f"F({k - 1}, {n - k}), chosen means/{[len(d) for d in devs]}", lambda h, d=devs: ffix(h, d), "group means shifted by 0, 1/4 or 3 each", paths=40))
    # ---------------------------------------------------------------- the normal distribution, through the Mann-Whitney function
    SD = K(Fraction(2) * Fraction(math.sqrt(2.0)))      # ranks 1..5 and mean 4: the standard deviation is 2
    def nsf(h, zs):
        """upper tails at sqrt(2) z for every z"""
        out = []
        for z in zs:
            u = fadd(K(Fraction(9, 2)), fmul(SD, z))
            f = h.frame(u=("f64", [u] * 5), m=("f64", [K(4)] * 5), r=("f64", [K(i + 1) for i in range(5)]))
            r = h.run(f, lambda pds, pl: pds._utils.pl_plugin(symbol="pl_mann_whitney_u", args=[pl.col("u"), pl.col("u"), pl.col("m"), pl.col("r"), pl.lit("greater")], returns_scalar=True))[0]
            out.append(r["pvalue"] if isinstance(r, dict) else r[1])
        return out
    def nsym(h, lo, hi):
        setup(h)
        z = h.real("z", lo, hi)
        a, b = nsf(h, [z, fneg(z)])
        near(h, fadd(a, b), T.ONE, "the two tails add up to 1")
    for lo, hi in ((0, Fraction(1, 2)), (Fraction(1, 2), 3), (3, 20), (20, 200)):
        obs.append(Ob(f"normal/symmetry in [{float(lo):g}, {hi}]", lambda h, lo=lo, hi=hi: nsym(h, lo, hi), f"every z in [{float(lo):g}, {hi}]", paths=60))
    def nacc(h, zs):
        setup(h)
        z = K(h.pick(zs, "z"))
        p, = nsf(h, [z])
        if h.mode == "sym":
            w = ffn("nsf", fmul(z, K(Fraction(math.sqrt(2.0)))), T.ZERO, T.ONE)
            near(h, fdiv(p, w), T.ONE, "normal tail, relative")
        else:
            import scipy.stats
            w = float(scipy.stats.norm.sf(float(z.cval()) * math.sqrt(2.0)))
            h.true(abs(float(p.cval() if hasattr(p, "cval") else p) - w) <= 1e-9 * w, "normal tail, relative")
    R = [Fraction(x) for x in ("0", "0.5", "0.75", "1.25", "2.25", "3.5", "5.25", "8", "11.5", "17", "18")]
    for lo, hi in zip(R, R[1:]):
        m = 12 if th else 5
        zs = [lo + (hi - lo) * i / m for i in range(m + 1)]
        obs.append(Ob(f"normal/[{float(lo):g}, {float(hi):g}]", lambda h, zs=zs: nacc(h, zs + [-z for z in zs if z]), f"{2 * m + 1} values of |z| in [{float(lo):g}, {float(hi):g}] (in units of sqrt(2) standard deviations)", paths=60, secs=60))
    # ---------------------------------------------------------------- chi-squared: tables
    def chi(h, base, free):
        """base: [(row, column, count)]; further rows take every pair of the levels"""
        # ln_gamma is executed as well: everything is a constant expression here
        x = [a for a, b, c in base for _ in range(c)]
        y = [b for a, b, c in base for _ in range(c)]
        nx, ny = max(x) + 1, max(y) + 1
        for i in range(free):
            k = h.pick(list(range(nx * ny)), f"pair{i}")
            x.append(k // ny)
            y.append(k % ny)
        n, s = len(x), Fraction(0)
        for a in range(nx):
            for b in range(ny):
                e = Fraction(x.count(a) * y.count(b), n)
                s += (sum(1 for p in zip(x, y) if p == (a, b)) - e) ** 2 / e
        h.assume(s > 0)
        r = h.run(h.frame(x=("i64", x), y=("i64", y)), lambda pds, pl: pds.chi2("x", "y"))[0]
        r = (r["statistic"], r["pvalue"]) if isinstance(r, dict) else r
        h.eq(r[0], K(s), "statistic")
        near(h, r[1], ffn("gsf", K(s), K(Fraction((nx - 1) * (ny - 1), 2)), K(Fraction(1, 2))), "upper tail of the chi-squared distribution")
    def diag(nx, ny, k):
        return [(a, b, k if a == b else 1) for a in range(nx) for b in range(ny)]
    for nx, ny, k, free in ((2, 2, 1, 2), (2, 2, 4, 2), (3, 2, 1, 2), (3, 2, 5, 1), (3, 3, 1, 1), (3, 3, 4, 1), (4, 3, 3, 1), (2, 5, 6, 1), (6, 2, 8, 1)) + (((4, 4, 2, 2), (5, 4, 5, 1), (2, 3, 1, 4)) if th else ()):
        obs.append(Ob(f"chi-squared({(nx - 1) * (ny - 1)})/{nx} x {ny} table, {k} on the diagonal", lambda h, b=diag(nx, ny, k), f=free: chi(h, b, f), f"a table with {k} observations on the diagonal and 1 elsewhere, and {free} more observation(s) anywhere", paths=400, secs=40))
    # ---------------------------------------------------------------- digamma
    def dig(h, xs):
        return h.run(h.frame(x=("f64", xs)), lambda pds, pl: pds.exprs.num.digamma("x"))
    def rec(h, lo, hi):
        x = h.real("x", lo, hi)
        a, b = dig(h, [x, fadd(x, T.ONE)])
        near(h, b, fadd(a, fdiv(T.ONE, x)), "digamma(x + 1) = digamma(x) + 1/x")
    for lo, hi in ((Fraction(1, 100), 1), (1, 2), (2, 5), (5, 10), (10, 11)):
        obs.append(Ob(f"digamma/recurrence in [{float(lo):g}, {hi}]", lambda h, lo=lo, hi=hi: rec(h, lo, hi), f"x in [{float(lo):g}, {hi}]", paths=60))
    def asy(h):
        x = h.real("x", 12, 1000)
        a, = dig(h, [x])
        s = fsub(fln(x), fdiv(T.ONE, fmul(K(2), x)))
        for k, b in enumerate((Fraction(1, 6), Fraction(-1, 30), Fraction(1, 42), Fraction(-1, 30), Fraction(5, 66)), 1):
            s = fsub(s, fdiv(K(b / (2 * k)), powh(x, 4 * k)))
        near(h, a, s, "asymptotic series")
    obs.append(Ob("digamma/asymptotic series", asy, "x in [12, 1000]", paths=20))
    def neg(h, lo, hi):
        x = h.real("x", lo, hi)
        h.assume(flt(K(lo), x)); h.assume(flt(x, K(hi)))
        pi = K(Fraction(math.pi))
        h.assume(bnot(feq(ffn("tan", fmul(pi, x)), T.ZERO)))
        a, b = dig(h, [x, fsub(T.ONE, x)])
        near(h, fsub(b, a), fdiv(pi, ffn("tan", fmul(pi, x))), "reflection")
    for k in (-1, -2, -3):
        obs.append(Ob(f"digamma/reflection in ({k}, {k + 1})", lambda h, k=k: neg(h, k, k + 1), f"x in ({k}, {k + 1})", paths=60))
    def poles(h):
        h.eq(dig(h, [K(0), K(-1), K(-4), None]), [NINF, NINF, NINF, None], "poles")
    obs.append(Ob("digamma/zero and negative integers", poles, "0, -1, -4, null"))
    return obs
