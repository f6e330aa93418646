from .common import *
from symx.ctx import ffn
from symx.interp import Ok
import itertools

ASSUMPTIONS = ["columns are finite 64-bit floats without nulls unless an obligation puts nulls, NaN or infinities in",
               "the survival functions of the t, F, gamma and normal distributions are uninterpreted in the solver; replays of the solver's witnesses compare the build's values with scipy's"]

def tail(name):
    def f(it, args, call):
        return Ok(ffn(name, *[fl(a) for a in args]))
    return f

PINS = {"student_t_sf": tail("tsf"), "fisher_snedecor_sf": tail("fsf"), "sf": tail("gsf"), "sf_unchecked": lambda it, a, c: ffn("nsf", *[fl(x) for x in a])}

def clean(xs):
    return [x for x in xs if x is not None and not isinstance(x, FSpec)]

def obligations(tier):
    th = tier == "thorough"
    obs = []
    def pins(h):
        h.opts["pins"] = PINS
    def stat(h, f, fn, s, p, lab=""):
        r = h.run(f, fn, may_error=s is ERR)
        if s is ERR:
            return h.true(r is ERR, "refused" + lab)
        h.true(len(r) == 1, "one result")
        r = r[0]
        if isinstance(r, dict):
            r = (r["statistic"], r["pvalue"])
        h.eq(r[0], s, "statistic" + lab)
        h.eq(r[1], p, "p value" + lab)
    ALT = ("two-sided", "less", "greater")
    def tp(t, df, alt):
        if alt == "less":
            return ffn("tsf", fneg(t), df)
        if alt == "greater":
            return ffn("tsf", t, df)
        return fmul(K(2), ffn("tsf", fabs(t), df))
    def dirty(h, xs, nm):
        """one more row that the sanitising tests drop"""
        return xs + [h.pick([None, NAN, PINF, NINF], nm)]
    # ---------------------------------------------------------------- t tests
    def regime(h, num2, den2, r):
        """lo <= t^2 <= hi"""
        if r:
            h.assume(fle(fmul(K(r[0]), den2), num2))
            h.assume(fle(num2, fmul(K(r[1]), den2)))
    def t1(h, n, alt, dirt, r):
        pins(h)
        x = h.reals("x", n, -100, 100)
        m = h.param("m", -5, 5)
        f = h.frame(x=("f64", dirty(h, x, "d") if dirt else x))
        v = var_(x, 1)
        h.assume(flt(T.ZERO, v))
        regime(h, fmul(sq(fsub(mean_(x), m.v)), K(n)), v, r)
        t = fdiv(fsub(mean_(x), m.v), fsqrt(fdiv(v, K(n))))
        stat(h, f, lambda pds, pl: pds.ttest_1samp("x", m.api, alternative=alt), t, tp(t, K(n - 1), alt))
    for alt in ALT:
        for n in (2, 3) + ((4, 5) if th else ()):
            obs.append(Ob(f"ttest_1samp/{alt}/n={n}", lambda h, n=n, a=alt: t1(h, n, a, False, None), f"{n} reals, arbitrary mean", paths=400))
        obs.append(Ob(f"ttest_1samp/{alt}/n=2 and a value to drop", lambda h, a=alt: t1(h, 2, a, True, None), "2 reals and a null, NaN or infinity", paths=400))
    REG = [(0, Fraction(1, 100)), (Fraction(1, 4), 1), (2, 6), (9, 30), (100, 1000)]
    for i, r in enumerate(REG):
        obs.append(Ob(f"ttest_1samp/{ALT[i % 3]}/n={2 + i % 3}/t^2 between {float(r[0]):g} and {float(r[1]):g}", lambda h, i=i, r=r: t1(h, 2 + i % 3, ALT[i % 3], False, r), "reals", paths=400))
    def t2(h, n, alt, how, r=None):
        """equal variances: n rows in both columns"""
        pins(h)
        x = h.reals("x", n, -100, 100)
        v1, m1 = var_(x, 1), mean_(x)
        if how == "stats":
            m2, v2 = h.param("m", -5, 5), h.param("v", Fraction(1, 8), 9)
            f = h.frame(x=("f64", x))
            mv, vv = m2.v, v2.v
            fn = lambda pds, pl: pds.ttest_ind_from_stats("x", mean=m2.api, var=v2.api, cnt=7, alternative=alt, equal_var=True)
        else:
            y = h.reals("y", n, -100, 100)
            f = h.frame(x=("f64", x), y=("f64", y))
            mv, vv = mean_(y), var_(y, 1)
            fn = lambda pds, pl: pds.ttest_ind("x", "y", alternative=alt, equal_var=True)
        s = fadd(v1, vv)
        h.assume(flt(T.ZERO, s))
        regime(h, fmul(sq(fsub(m1, mv)), K(n)), s, r)
        t = fdiv(fsub(m1, mv), fsqrt(fdiv(s, K(n))))
        stat(h, f, fn, t, tp(t, K(2 * n - 2), alt))
    for alt in ALT:
        for n in (2, 3):
            obs.append(Ob(f"ttest_ind/equal variances/{alt}/n={n}", lambda h, n=n, a=alt: t2(h, n, a, "data"), f"2 x {n} reals", paths=400))
        obs.append(Ob(f"ttest_ind_from_stats/equal variances/{alt}/n=3", lambda h, a=alt: t2(h, 3, a, "stats"), "3 reals, arbitrary mean and variance", paths=400))
    for i, r in enumerate(REG):
        obs.append(Ob(f"ttest_ind/equal variances/{ALT[i % 3]}/n=2/t^2 between {float(r[0]):g} and {float(r[1]):g}", lambda h, i=i, r=r: t2(h, 2, ALT[i % 3], "data", r), "reals", paths=400))
    def welch(h, n1, n2, alt, how, dirt=False, r=None):
        pins(h)
        n = max(n1, n2)
        x = h.reals("x", n1, -100, 100)
        pad = [None, NAN, PINF]
        cx = x + [h.pick(pad, f"px{i}") for i in range(n - n1)]
        v1, m1 = var_(x, 1), mean_(x)
        if how == "stats":
            m2, v2 = h.param("m", -5, 5), h.param("v", Fraction(1, 8), 9)
            c = 7
            f = h.frame(x=("f64", dirty(h, cx, "d") if dirt else cx))
            mv, vv = m2.v, v2.v
            fn = lambda pds, pl: pds.ttest_ind_from_stats("x", mean=m2.api, var=v2.api, cnt=c, alternative=alt)
        else:
            y = h.reals("y", n2, -100, 100)
            cy = y + [h.pick(pad, f"py{i}") for i in range(n - n2)]
            f = h.frame(x=("f64", dirty(h, cx, "d") if dirt else cx), y=("f64", dirty(h, cy, "e") if dirt else cy))
            mv, vv, c = mean_(y), var_(y, 1), n2
            fn = lambda pds, pl: pds.ttest_ind("x", "y", alternative=alt)
        a, b = fdiv(v1, K(n1)), fdiv(vv, K(c))
        s = fadd(a, b)
        h.assume(flt(T.ZERO, s))
        regime(h, sq(fsub(m1, mv)), s, r)
        t = fdiv(fsub(m1, mv), fsqrt(s))
        df = fdiv(sq(s), fadd(fdiv(sq(a), K(n1 - 1)), fdiv(sq(b), K(c - 1))))
        stat(h, f, fn, t, tp(t, df, alt))
    for alt in ALT:
        for n1, n2 in ((2, 2), (2, 3), (3, 2)):
            obs.append(Ob(f"ttest_ind/Welch/{alt}/n={n1}, {n2}", lambda h, a=alt, p=n1, q=n2: welch(h, p, q, a, "data"), f"{n1} and {n2} reals and dropped values", paths=800))
        obs.append(Ob(f"ttest_ind_from_stats/Welch/{alt}/n=3", lambda h, a=alt: welch(h, 3, 3, a, "stats"), "3 reals, arbitrary mean and variance", paths=400))
    for i, r in enumerate(REG):
        obs.append(Ob(f"ttest_ind/Welch/{ALT[1 + i % 2]}/n=2, 2/t^2 between {float(r[0]):g} and {float(r[1]):g}", lambda h, i=i, r=r: welch(h, 2, 2, ALT[1 + i % 2], "data", False, r), "reals", paths=800))
    # ---------------------------------------------------------------- F test
    def ftest(h, pat, k, r=None, integer=False):
        pins(h)
        n = len(pat)
        cols = {f"v{j}": h.reals(f"v{j}", n, -100, 100) for j in range(k)}
        f = h.frame(g=("i64" if isinstance(pat[0], int) else "str", [p if isinstance(p, int) else StrV([ord(c) for c in p]) for p in pat]), **{c: ("f64", v) for c, v in cols.items()})
        gs = {}
        for i, p in enumerate(pat):
            gs.setdefault(p, []).append(i)
        ss, ps = [], []
        for c, v in cols.items():
            m = mean_(v)
            b = fsum_([fmul(K(len(ix)), sq(fsub(mean_([v[i] for i in ix]), m))) for ix in gs.values()])
            w = fsum_([sq(fsub(v[i], mean_([v[j] for j in ix]))) for ix in gs.values() for i in ix])
            h.assume(flt(T.ZERO, w))
            d1, d2 = len(gs) - 1, n - len(gs)
            if r:
                h.assume(fle(fmul(K(r[0] * Fraction(d1, d2)), w), b))
                h.assume(fle(b, fmul(K(r[1] * Fraction(d1, d2)), w)))
            s = fdiv(fmul(b, K(Fraction(d2, d1))), w)
            ss.append(s)
            ps.append(ffn("fsf", s, K(d1), K(d2)))
        got = h.run(f, lambda pds, pl: pds.f_test(*cols, group="g"))
        h.true(len(got) == k, "one row per variable")
        for j, g in enumerate(got):
            g = (g["statistic"], g["pvalue"]) if isinstance(g, dict) else g
            h.eq(g[0], ss[j], f"statistic of v{j}")
            h.eq(g[1], ps[j], f"p value of v{j}")
    for pat in ([1, 2, 1], [1, 1, 2, 2], ["p", "q", "q", "p"], [3, 1, 2, 3], [1, 2, 3, 1, 2]) if not th else ([1, 2, 1], [1, 1, 2, 2], ["p", "q", "q", "p"], [3, 1, 2, 3], [1, 2, 3, 1, 2], [1, 1, 1, 2, 2, 2], [1, 2, 3, 4, 1, 1]):
        obs.append(Ob(f"f_test/groups {pat}", lambda h, p=pat: ftest(h, p, 1), f"{len(pat)} reals", paths=200))
    obs.append(Ob("f_test/two variables", lambda h: ftest(h, [1, 2, 1], 2), "2 x 3 reals", paths=200))
    for r in [(Fraction(1, 100), Fraction(1, 10)), (Fraction(1, 2), 2), (3, 9), (20, 90)]:
        obs.append(Ob(f"f_test/statistic between {float(r[0]):g} and {float(r[1]):g}", lambda h, r=r: ftest(h, [1, 2, 1, 2], 1, r), "4 reals", paths=200))
    def fone(h):
        f = h.frame(g=("i64", [1, 1]), x=("f64", h.reals("x", 2)))
        stat(h, f, lambda pds, pl: pds.f_test("x", group="g"), ERR, ERR)
    obs.append(Ob("f_test/one group is refused", fone, "2 reals"))
    # ---------------------------------------------------------------- chi squared
    def chi(h, n, full, nx, ny):
        pins(h)
        x = [h.pick(list(range(nx)), f"x{i}") for i in range(n)]
        y = [h.pick(["a", "b", "c"][:ny], f"y{i}") for i in range(n)]
        h.assume(len(set(x)) > 1 and len(set(y)) > 1)
        f = h.frame(x=("i64", x), y=("str", [StrV([ord(c)]) for c in y]))
        ux, uy = sorted(set(x)), sorted(set(y))
        ex, s = {}, Fraction(0)
        for a in ux:
            for b in uy:
                e = Fraction(x.count(a) * y.count(b), n)
                o = sum(1 for p, q in zip(x, y) if (p, q) == (a, b))
                ex[a, b] = e
                s += (o - e) ** 2 / e
        dof = (len(ux) - 1) * (len(uy) - 1)
        p = T.ONE if s == 0 else ffn("gsf", K(s), K(Fraction(dof, 2)), K(Fraction(1, 2)))
        if not full:
            return stat(h, f, lambda pds, pl: pds.chi2("x", "y"), K(s), p) if s else stat0(h, f)
        got = h.run(f, lambda pds, pl: pds.chi2("x", "y", return_full=True))
        h.true(len(got) == len(ex), "one row per pair")
        seen = []
        for row in got:
            row = row if isinstance(row, dict) else dict(zip(("statistic", "pvalue", "dof", "x", "y", "E[freq]"), row))
            h.eq(row["statistic"], K(s), "statistic")
            if s:
                h.eq(row["pvalue"], p, "p value")
            h.eq(row["dof"], dof, "dof")
            k = (row["x"], row["y"].concrete() if isinstance(row["y"], StrV) else row["y"])
            h.true(k in ex and k not in seen, "every pair once")
            seen.append(k)
            h.eq(row["E[freq]"], K(ex[k]), "expected frequencies")
    def stat0(h, f):
        r = h.run(f, lambda pds, pl: pds.chi2("x", "y"))[0]
        r = (r["statistic"], r["pvalue"]) if isinstance(r, dict) else r
        h.eq(r[0], T.ZERO, "statistic")
        if h.mode == "real":
            h.eq(r[1], T.ONE, "p value")
    for n, nx, ny in [(3, 2, 2), (4, 2, 2), (4, 3, 2)] + ([(5, 2, 2), (5, 3, 3)] if th else []):
        for full in (False, True):
            obs.append(Ob(f"chi2/n={n}, up to {nx} x {ny}{'/full' if full else ''}", lambda h, n=n, f=full, a=nx, b=ny: chi(h, n, f, a, b), f"{n} rows, every table", paths=20000))
    # ---------------------------------------------------------------- Kolmogorov-Smirnov
    def ks(h, free, m1, m2, binary, alpha):
        """most values are fixed, `free` of them are arbitrary"""
        a = [K(Fraction((7 * i) % 31, 2)) for i in range(m1)]
        b = [K(Fraction((11 * i) % 37, 2) + Fraction(1, 4)) for i in range(m2)]
        z = h.reals("z", 2, -3, 22)
        if free > 0:
            a[3] = z[0]
        if free > 1:
            b[5] = z[1]
        da, db = [NAN, None, PINF], [None]
        al = {} if alpha is None else dict(alpha=alpha)
        if binary:
            g = [1] * (m1 + 1) + [0] * (m2 + 1)
            f = h.frame(x=("i64", g), y=("f64", a + [None] + b + [NAN]))
        else:
            n = max(m1, m2) + 1
            f = h.frame(x=("f64", a + [da[i % 3] for i in range(n - m1)]), y=("f64", b + [db[0]] * (n - m2)))
        got = h.run(f, lambda pds, pl: pds.ks_2samp("x", "y", is_binary=binary, **al))[0]
        got = (got["statistic"], got["pvalue"]) if isinstance(got, dict) else got
        if m1 < 30 or m2 < 30:
            h.eq(got[0], T.ZERO, "statistic")
            return h.eq(got[1], NAN, "threshold")
        best = T.ZERO
        for x in a + b:
            d = abs(Fraction(sum(1 for v in a if le(v, x)), m1) - Fraction(sum(1 for v in b if le(v, x)), m2))
            best = max(best, d, key=lambda q: K(q).cval())
        h.eq(got[0], K(best), "statistic")
        al = 0.05 if alpha is None else alpha
        want = math.sqrt(-math.log(al / 2) / 2 * (m1 + m2) / (m1 * m2))
        if h.mode == "sym":
            h.true(abs(peval(fl(got[1]), {}) - want) < 1e-9, "threshold")
        else:
            h.eq(got[1], fl(want), "threshold")
    for free, m1, m2, binary, alpha in [(1, 31, 31, False, None), (2 if th else 0, 31, 32, False, 0.01), (1, 33, 31, True, None), (0, 40, 35, True, 0.1), (0, 29, 35, False, None), (0, 35, 29, True, None), (1, 30, 31, False, None), (0, 31, 30, True, None), (0, 30, 30, False, 0.2)]:
        obs.append(Ob(f"ks_2samp/{m1} and {m2} values, {free} arbitrary{'/binary' if binary else ''}{'' if alpha is None else '/alpha ' + str(alpha)}", lambda h, a=(free, m1, m2, binary, alpha): ks(h, *a), f"{free} arbitrary reals among fixed ones", paths=4000))
    # ---------------------------------------------------------------- Mann-Whitney
    def ranks(v):
        n = len(v)
        return [Fraction(2 * sum(1 for b in v if lt(b, a)) + sum(1 for b in v if eq(a, b)) + 1, 2) for a in v]
    def mw(h, n1, n2, alt, dirt, fixed=None):
        pins(h)
        if fixed:
            x, y = [K(v) for v in fixed[0]], [K(v) for v in fixed[1]]
        else:
            x, y = h.reals("x", n1), h.reals("y", n2)
        n = max(len(x), len(y))
        pad = [None, NAN, NINF]
        f = h.frame(x=("f64", x + [h.pick(pad, f"px{i}") for i in range(n - len(x))]), y=("f64", y + [h.pick(pad, f"py{i}") for i in range(n - len(y))]))
        n1, n2 = len(x), len(y)
        r = ranks(x + y)
        u1 = sum(r[:n1]) - Fraction(n1 * (n1 + 1), 2)
        u2 = n1 * n2 - u1
        N = n1 + n2
        ties = sum(c ** 3 - c for c in (r.count(v) for v in set(r)))
        var = Fraction(n1 * n2, 12) * (N + 1 - Fraction(ties, N * (N - 1)))
        u = max(u1, u2) if alt == "two-sided" else u1 if alt == "greater" else u2
        mu = Fraction(n1 * n2, 2)
        got = h.run(f, lambda pds, pl: pds.mann_whitney_u("x", "y", alternative=alt))[0]
        got = (got["statistic"], got["pvalue"]) if isinstance(got, dict) else got
        h.eq(got[0], K(u1), "statistic")
        if var == 0:
            return h.eq(got[1], T.ONE, "p value when all values are equal")
        p = ffn("nsf", K(u), K(mu + Fraction(1, 2)), fsqrt(K(var)))
        if alt == "two-sided":
            p = fmul(K(2), p)
        if br(flt(T.ONE, p)):
            p = T.ONE
        h.eq(got[1], p, "p value")
    for alt in ALT:
        for n1, n2 in [(1, 1), (1, 2), (2, 1), (2, 2)] + ([(1, 3), (3, 2)] if th else []):
            obs.append(Ob(f"mann_whitney_u/{alt}/n={n1}, {n2}", lambda h, a=alt, p=n1, q=n2: mw(h, p, q, a, False), f"{n1} and {n2} reals", paths=8000))
        FX = [([1, 2, 3, 9, 9], [4, 5, 9, 9, 0, 2]), ([5, 6, 7, 8], [1, 2, 3, 4]), ([1, 1, 1], [1, 1, 2]), ([2, 2, 2], [2, 2]), ([1, 3, 5, 7, 9, 11], [2, 4, 6, 8, 10, 12]), ([0, 0, 1, 1, 2, 2], [2, 2, 3, 3])]
        for i, fx in enumerate(FX):
            obs.append(Ob(f"mann_whitney_u/{alt}/sample {i}", lambda h, a=alt, fx=fx: mw(h, 0, 0, a, False, fx), "a fixed sample"))
    # ---------------------------------------------------------------- normality test
    def normal(h, n, dirt):
        pins(h)
        v = [K((i * i * 7 + 3 * i) % 23 - 9) for i in range(n)]
        f = h.frame(x=("f64", v + ([None, NAN, PINF] if dirt else [])))
        m = mean_(v)
        m2, m3, m4 = (fdiv(fsum_([fpowi(fsub(x, m), k) for x in v]), K(n)) for k in (2, 3, 4))
        h.assume(flt(T.ZERO, m2))
        g1 = fdiv(m3, fmul(m2, fsqrt(m2)))
        b2 = fdiv(m4, sq(m2))
        N = Fraction(n)
        # skewness part (D'Agostino 1970)
        y = fmul(g1, fsqrt(K((N + 1) * (N + 3) / (6 * (N - 2)))))
        beta2 = 3 * (N * N + 27 * N - 70) * (N + 1) * (N + 3) / ((N - 2) * (N + 5) * (N + 7) * (N + 9))
        W2 = fsub(fsqrt(K(2 * (beta2 - 1))), T.ONE)
        alpha = fsqrt(fdiv(K(2), fsub(W2, T.ONE)))
        t = fdiv(y, alpha)
        zs = fdiv(fln(fadd(t, fsqrt(fadd(sq(t), T.ONE)))), fsqrt(fmul(fln(W2), K(Fraction(1, 2)))))
        # kurtosis part (Anscombe & Glynn 1983)
        E = 3 * (N - 1) / (N + 1)
        V = 24 * N * (N - 2) * (N - 3) / ((N + 1) ** 2 * (N + 3) * (N + 5))
        sb = fmul(K(6 * (N * N - 5 * N + 2) / ((N + 7) * (N + 9))), fsqrt(K(6 * (N + 3) * (N + 5) / (N * (N - 2) * (N - 3)))))
        A = fadd(K(6), fmul(fdiv(K(8), sb), fadd(fdiv(K(2), sb), fsqrt(fadd(T.ONE, fdiv(K(4), sq(sb)))))))
        x = fdiv(fsub(b2, K(E)), fsqrt(K(V)))
        d = fadd(T.ONE, fmul(x, fsqrt(fdiv(K(2), fsub(A, K(4))))))
        h.assume(not eq(d, T.ZERO))
        tmp = fdiv(K(2), fmul(K(9), A))
        zk = fdiv(fsub(fsub(T.ONE, tmp), ffn("cbrt", fdiv(fsub(T.ONE, fdiv(K(2), A)), fabs(d)))), fsqrt(tmp))
        k2 = fadd(sq(zs), sq(zk))
        stat(h, f, lambda pds, pl: pds.normal_test("x"), k2, ffn("gsf", k2, T.ONE, K(Fraction(1, 2))))
    for n in (20, 21, 33, 50):
        for dirt in (False, True):
            obs.append(Ob(f"normal_test/{n} fixed values{', dropped values' if dirt else ''}", lambda h, n=n, d=dirt: normal(h, n, d), "a fixed sample"))
    def nshort(h):
        f = h.frame(x=("f64", [K(Fraction(i * i % 11)) for i in range(19)] + [h.pick([None, NAN, PINF], "d")]))
        stat(h, f, lambda pds, pl: pds.normal_test("x"), ERR, ERR)
    obs.append(Ob("normal_test/fewer than 20 values are refused", nshort, "19 values and one that is dropped"))
    # ---------------------------------------------------------------- rank correlations
    def tau(h, xs, n, dirt, viacorr):
        y = h.reals("y", n)
        x = [None if v is None else NAN if v == "nan" else fl(v) for v in xs]
        f = h.frame(x=("f64", x + ([fl(1), None] if dirt else [])), y=("f64", y + ([NAN, fl(3)] if dirt else [])))
        ok = [i for i in range(n) if x[i] is not None and x[i] is not NAN]
        s, tx, ty, np_ = 0, 0, 0, 0
        for i, j in itertools.combinations(ok, 2):
            dx = (xs[i] > xs[j]) - (xs[i] < xs[j])
            dy = 1 if lt(y[j], y[i]) else -1 if lt(y[i], y[j]) else 0
            s += dx * dy
            tx += dx == 0
            ty += dy == 0
            np_ += 1
        h.assume(tx < np_ and ty < np_)
        w = fdiv(K(s), fsqrt(K((np_ - tx) * (np_ - ty))))
        got = h.run(f, (lambda pds, pl: pds.corr("x", "y", method="kendall")) if viacorr else (lambda pds, pl: pds.kendall_tau("x", "y")))
        h.eq(got, [w])
    XS = [[0, 1], [1, 0], [1, None, 0], [0, 1, 2], [2, 0, 1], [0, 0, 1], [1, 0, 0], [0, 1, None, 2], [3, "nan", 1, 2], [3, 1, 2, 0], [0, 1, 1, 2], [1, 0, 1, 0], [2, 2, 2, 0]] + ([[0, 1, 2, 3, 4], [4, 2, 3, 1, 0], [0, 0, 1, 1, 2], [1, 2, 0, 0, 0]] if th else [])
    for xs in XS:
        obs.append(Ob(f"kendall_tau/x = {xs}", lambda h, x=xs: tau(h, x, len(x), False, False), f"{len(xs)} reals against fixed ones", paths=4000))
    obs.append(Ob("kendall_tau/nulls and NaN", lambda h: tau(h, [0, 2, 1], 3, True, False), "3 reals", paths=4000))
    obs.append(Ob("corr[kendall]", lambda h: tau(h, [0, 2, 1], 3, True, True), "3 reals", paths=4000))
    def taushort(h):
        f = h.frame(x=("f64", [h.real("x"), None]), y=("f64", [h.real("y"), h.real("y2")]))
        h.eq(h.run(f, lambda pds, pl: pds.kendall_tau("x", "y")), [NAN])
    obs.append(Ob("kendall_tau/fewer than two rows", taushort, "1 complete row"))
    def xi(h, n, ties, how):
        y = h.reals("y", n)
        x = h.reals("x", n)
        f = h.frame(x=("f64", x), y=("f64", y))
        for i in range(n):
            for j in range(i):
                h.assume(not eq(x[i], x[j]))
        h.assume(any(not eq(y[0], v) for v in y[1:]))
        order = argsort_(x)
        r = [sum(1 for v in y if le(v, y[i])) for i in order]
        l = [sum(1 for v in y if le(y[i], v)) for i in order]
        w = 1 - Fraction(n * sum(abs(a - b) for a, b in zip(r, r[1:])), 2 * sum(v * (n - v) for v in l))
        if how == "p":
            got = h.run(f, lambda pds, pl: pds.xi_corr("x", "y", return_p=True))[0]
            got = (got["statistic"], got["pvalue"]) if isinstance(got, dict) else got
            h.eq(got[0], K(w), "statistic")
            return h.eq(got[1], NAN, "no p value below 30 rows")
        got = h.run(f, (lambda pds, pl: pds.corr("x", "y", method="xi")) if how == "corr" else (lambda pds, pl: pds.xi_corr("x", "y", seed=3)))
        h.eq(got, [K(w)])
    for n in (2, 3):
        for how in ("", "p", "corr"):
            obs.append(Ob(f"xi_corr/n={n}{'/' + how if how else ''}", lambda h, n=n, w=how: xi(h, n, False, w), f"{n} reals, x distinct", paths=4000))
    def xi30(h, n):
        pins(h)
        x = [K((7 * i) % n) for i in range(n)]
        y = [K((i * i + 3 * i) % 17) for i in range(n)]
        y[2] = h.real("z", -2, 20)
        f = h.frame(x=("f64", x), y=("f64", y))
        order = argsort_(x)
        r = [sum(1 for v in y if le(v, y[i])) for i in order]
        l = [sum(1 for v in y if le(y[i], v)) for i in order]
        w = 1 - Fraction(n * sum(abs(a - b) for a, b in zip(r, r[1:])), 2 * sum(v * (n - v) for v in l))
        got = h.run(f, lambda pds, pl: pds.xi_corr("x", "y", return_p=True))[0]
        got = (got["statistic"], got["pvalue"]) if isinstance(got, dict) else got
        h.eq(got[0], K(w), "statistic")
        if h.mode == "real":
            h.eq(got[1], fl(2 * PYFN["nsf"](abs(float(w)) * math.sqrt(n), 0, math.sqrt(0.4))), "p value")
        else:
            a = fl(got[1])
            h.true(abs(peval(a, {}) - 2 * PYFN["nsf"](abs(float(w)) * math.sqrt(n), 0, math.sqrt(0.4))) < 1e-9, "p value")
    for n in (30, 31):
        obs.append(Ob(f"xi_corr/p value/n={n}", lambda h, n=n: xi30(h, n), f"{n} rows, one arbitrary", paths=4000))
    def xitie(h):
        """ties in x are broken at random: the value is that of one of the orders"""
        y = h.reals("y", 3)
        f = h.frame(x=("f64", [fl(1), fl(1), fl(0)]), y=("f64", y))
        distinct(h, y)
        g = h.run(f, lambda pds, pl: pds.xi_corr("x", "y"))[0]
        ws = []
        for order in ([2, 0, 1], [2, 1, 0]):
            r = [sum(1 for v in y if le(v, y[i])) for i in order]
            ws.append(1 - Fraction(3 * sum(abs(a - b) for a, b in zip(r, r[1:])), 2 * (1 * 2 + 2 * 1)))
        if h.mode == "real":
            h.true(any(abs(float(g) - float(w)) < 1e-9 for w in ws), "one of the orders")
        else:
            h.true(any(fl(g).is_const() and fl(g).cval() == w for w in ws), "one of the orders")
    obs.append(Ob("xi_corr/ties in x", xitie, "3 distinct reals", paths=400))
    return obs
