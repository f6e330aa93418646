from .common import *
from symx.ctx import ffn, idivmod_floor

ASSUMPTIONS = ["series are 64-bit floats without nulls or NaN (boolean columns may hold nulls); similar-subsequence queries come from a fixed list"]

def count_(bs):
    return sum(1 for b in bs if b)

def obligations(tier):
    th = tier == "thorough"
    obs = []
    def add(name, ns, fn, b="{n} rows of arbitrary reals", **kw):
        for n in ns:
            obs.append(Ob(f"{name}/n={n}", (lambda h, n=n: fn(h, n)), b.format(n=n), **kw))
    N = (1, 2, 3, 4, 5) if th else (1, 2, 3)
    def one(h, n, call, want, nullable=False):
        xs = h.reals("x", n)
        if nullable:
            xs = h.opts_(xs, "x")
        f = h.frame(x=("f64", xs))
        w = want(xs)
        h.eq(h.run(f, lambda pds, pl: call(pds)), [w])
    add("query_mid_range", N, lambda h, n: one(h, n, lambda p: p.query_mid_range("x"), lambda x: fdiv(fsub(max_(x), min_(x)), K(2))))
    add("query_abs_energy", N, lambda h, n: one(h, n, lambda p: p.query_abs_energy("x"), lambda x: fsum_(map(sq, x))))
    add("query_mean_abs_change", (2, 3, 4) if th else (2, 3), lambda h, n: one(h, n, lambda p: p.query_mean_abs_change("x"), lambda x: mean_([fabs(fsub(b, a)) for a, b in zip(x, x[1:])])))
    for k in (1, 2, 3):
        add(f"query_mean_n_abs_max[{k}]", N, lambda h, n, k=k: one(h, n, lambda p: p.query_mean_n_abs_max("x", k), lambda x: mean_(sort_([fabs(v) for v in x])[-k:])))
    def symm(h, n):
        xs = h.reals("x", n)
        lo, hi = min_(xs), max_(xs)
        h.assume(flt(lo, hi))
        f = h.frame(x=("f64", xs))
        h.eq(h.run(f, lambda pds, pl: pds.query_symm_ratio("x")), [fdiv(fabs(fsub(mean_(xs), median_(xs))), fsub(hi, lo))])
    add("query_symm_ratio", (2, 3, 4) if th else (2, 3), symm)
    def cv(h, n, ddof):
        xs = h.reals("x", n)
        m = mean_(xs)
        h.assume(bnot(cmp0(m, "eq0")))
        f = h.frame(x=("f64", xs))
        h.eq(h.run(f, lambda pds, pl: pds.query_cv("x", ddof)), [fdiv(fsqrt(var_(xs, ddof)), m)])
    for d in (0, 1):
        add(f"query_cv[ddof={d}]", (2, 3, 4) if th else (2, 3), lambda h, n, d=d: cv(h, n, d))
    def uniq(h, n):
        xs = h.ints("x", n, -3, 3)
        f = h.frame(x=("i64", xs))
        w = count_(all(i == j or not eq(xs[i], xs[j]) for j in range(n)) for i in range(n))
        h.eq(h.run(f, lambda pds, pl: pds.query_count_uniques("x")), [w])
    add("query_count_uniques", N, uniq, "{n} integers")
    def rc(h, n):
        xs = h.opts_(h.reals("x", n), "x")
        lo, hi = h.param("lo", -5, 5), h.param("hi", 6, 9)
        f = h.frame(x=("f64", xs))
        h.eq(h.run(f, lambda pds, pl: pds.query_range_count("x", lo.api, hi.api)), [count_(x is not None and le(lo.v, x) and le(x, hi.v) for x in xs)])
    add("query_range_count", N, rc, "{n} rows, any null pattern, arbitrary bounds")
    def runs(bs):
        out = []
        for b in bs:
            if out and out[-1][0] == b:
                out[-1][1] += 1
            else:
                out.append([b, 1])
        return out
    def streak(h, n, which):
        bs = [None if h.flag(f"n{i}") else h.flag(f"b{i}") for i in range(n)]
        f = h.frame(b=("bool", bs))
        rs = runs(bs)
        t = [k for b, k in rs if b is True]
        want = [k for _, k in rs] if which == "query_streak" else [max(t, default=0)] if which == "query_longest_streak" else [K(fdiv(K(sum(t)), K(len(t)))) if t else T.ZERO]
        h.eq(h.run(f, lambda pds, pl: getattr(pds, which)("b")), want)
    for w in ("query_streak", "query_longest_streak", "query_avg_streak"):
        add(w, (1, 2, 3, 4, 5) if th else (1, 2, 3, 4), lambda h, n, w=w: streak(h, n, w), "{n} booleans, any null pattern")
    def streakf(h, n):
        xs = h.reals("x", n)
        t = h.param("t", -3, 3)
        f = h.frame(x=("f64", xs))
        rs = runs([le(t.v, x) for x in xs])
        h.eq(h.run(f, lambda pds, pl: pds.query_longest_streak(pl.col("x") >= t.api)), [max([k for b, k in rs if b], default=0)])
    add("query_longest_streak[x >= t]", N, streakf)
    # ---------------------------------------------------------------- Lempel-Ziv
    def lz(h, n, ratio):
        bs = [None if h.flag(f"n{i}") else h.flag(f"b{i}") for i in range(n)]
        f = h.frame(b=("bool", bs))
        s = "".join("1" if b else "0" for b in bs)
        seen, cur = set(), ""
        for ch in s:
            cur += ch
            if cur not in seen:
                seen.add(cur)
                cur = ""
        w = len(seen)
        h.eq(h.run(f, lambda pds, pl: pds.query_lempel_ziv("b", as_ratio=ratio)), [fdiv(K(w), K(n)) if ratio else w])
    add("query_lempel_ziv", (1, 2, 3, 4, 5, 6) if th else (1, 2, 3, 4), lambda h, n: lz(h, n, False), "{n} booleans, any null pattern", paths=1000)
    add("query_lempel_ziv[ratio]", (2, 3), lambda h, n: lz(h, n, True), "{n} booleans, any null pattern")
    def lzl(h, n):
        bs = [h.flag(f"b{i}") for i in range(n)]
        f = h.frame(b=("bool", bs))
        seen, i = [], 0
        while i < n:
            j = i + 1
            while j <= n and bs[i:j] in seen:
                j += 1
            if j > n:
                break
            seen.append(bs[i:j])
            i = j
        h.eq(h.run(f, lambda pds, pl: pds.query_lempel_ziv("b", as_ratio=False)), [len(seen)])
    add("query_lempel_ziv[long]", (8, 9) if th else (7,), lzl, "{n} booleans", paths=1000)
    # ---------------------------------------------------------------- first digits
    def digits(h, n, dt):
        if dt[0] == "f":
            xs = []
            for i in range(n):
                v = h.real(f"x{i}")
                a = fabs(v)
                h.assume(bor(cmp0(v, "eq0"), band(fle(K("0.01"), a), flt(a, K(1000)))))
                xs.append(h.opt(h.special(f"x{i}", v), f"x{i}") if n == 1 else h.opt(v, f"x{i}"))
        else:
            lo, hi = (0, 200) if dt[0] == "u" else (-120, 120)
            xs = h.opts_(h.ints("x", n, lo, hi), "x")
        f = h.frame(x=(dt, xs))
        r = h.run(f, lambda pds, pl: pds.query_first_digit_cnt("x"))[0]
        r = r.v if isinstance(r, Lst) else r
        want = [0] * 9
        for x in xs:
            if x is None or isinstance(x, FSpec) or eq(x, T.ZERO):
                continue
            a = K(x)
            a = fneg(a) if lt(a, T.ZERO) else a
            for e in range(-2, 4):
                if lt(a, K(Fraction(10) ** (e + 1))):
                    break
            d = 1
            while d < 9 and not lt(a, K((d + 1) * Fraction(10) ** e)):
                d += 1
            want[d - 1] += 1
        h.eq(list(r), want)
    for dt in ("i64", "u8", "i8", "f64", "f32", "i32", "i16", "u16", "u32", "u64"):
        add(f"query_first_digit_cnt[{dt}]", (1,) if not th else (1, 2), lambda h, n, dt=dt: digits(h, n, dt), "{n} values of magnitude 0 or 0.01..1000 (integers up to the type's byte range), any null pattern", paths=3000)
    add("query_first_digit_cnt[i64]/pair", (2,), lambda h, n: digits2(h, n), "two integers in [-30, 30]", paths=3000)
    def digits2(h, n):
        xs = h.opts_(h.ints("x", n, -12, 12), "x")
        f = h.frame(x=("i64", xs))
        r = h.run(f, lambda pds, pl: __import__("polars_ds.exprs.ts_features", fromlist=["x"]).query_benford("x"))[0]
        r = r.v if isinstance(r, Lst) else r
        want = [0] * 9
        for x in xs:
            if x is None:
                continue
            for v in range(-12, 13):
                if v and eq(x, K(v)):
                    want[int(str(abs(v))[0]) - 1] += 1
                    break
        h.eq(list(r), want)
    # ---------------------------------------------------------------- similar subsequences
    QS = [[1.0, 2.0], [0.0, 0.0], [3.0, -1.0, 2.0]]
    def sim(h, n, q, metric, par, ratio, threads):
        h.threads = threads
        xs = h.reals("x", n)
        t = h.param("t", 0, 50, strict=True)
        f = h.frame(x=("f64", xs))
        m = len(q)
        cnt = 0
        if metric == "sqzl2":
            qm = sum(q) / m
            qs = var_([K(Fraction(v)) for v in q])
            sd = fsqrt(qs)
            qz = [fdiv(fsub(K(Fraction(v)), K(Fraction(qm))), sd) for v in q]
        for i in range(n - m + 1):
            w = xs[i:i + m]
            if metric == "sql2":
                d = fsum_(sq(fsub(a, K(Fraction(b)))) for a, b in zip(w, q))
            else:
                v = var_(w)
                v = v if lt(K(Fraction(1e-10)), v) else K(Fraction(1e-10))
                mu = mean_(w)
                d = fsum_(sq(fsub(fdiv(fsub(a, mu), fsqrt(v)), b)) for a, b in zip(w, qz))
            cnt += lt(d, t.v)
        r = h.run(f, lambda pds, pl: pds.query_similar_count(q, "x", t.api, metric=metric, parallel=par, return_ratio=ratio))
        h.eq(r, [fdiv(K(cnt), K(n - m + 1)) if ratio else cnt])
    for q in QS:
        for par, th_ in ((False, 1), (True, 1), (True, 2), (True, 3)):
            n = len(q) + (2 if len(q) == 2 else 1)
            tag = ",".join(str(v) for v in q)
            obs.append(Ob(f"query_similar_count[sql2,q={tag},parallel={par},threads={th_}]/n={n}", lambda h, q=q, par=par, n=n, th_=th_: sim(h, n, q, "sql2", par, False, th_), f"{n} arbitrary reals, arbitrary threshold"))
    obs.append(Ob("query_similar_count[ratio]/n=3", lambda h: sim(h, 3, QS[0], "sql2", False, True, 1), "3 arbitrary reals, arbitrary threshold"))
    for par, th_ in ((False, 1), (True, 1), (True, 2)):
        for n in (2, 3) if th or th_ == 2 else (2,):
            obs.append(Ob(f"query_similar_count[sqzl2,parallel={par},threads={th_}]/n={n}", lambda h, par=par, n=n, th_=th_: sim(h, n, QS[0], "sqzl2", par, False, th_), f"{n} arbitrary reals, arbitrary threshold", hard=True))
    # long query: the SIMD path
    def simlong(h, n, m, par):
        q = [float((3 * i) % 5 - 2) for i in range(m)]
        xs = h.reals("x", n)
        t = h.param("t", 0, 50, strict=True)
        f = h.frame(x=("f64", xs))
        cnt = 0
        for i in range(n - m + 1):
            cnt += lt(fsum_(sq(fsub(a, K(Fraction(b)))) for a, b in zip(xs[i:], q)), t.v)
        h.eq(h.run(f, lambda pds, pl: pds.query_similar_count(q, "x", t.api, metric="sql2", parallel=par)), [cnt])
    for m in (15, 16):
        obs.append(Ob(f"query_similar_count[sql2,{m}-point query]/n={m + 1}", lambda h, m=m: simlong(h, m + 1, m, False), f"{m + 1} arbitrary reals, arbitrary threshold", hard=True))
    # ---------------------------------------------------------------- lag statistics
    for lag in (1, 2):
        ns = [n for n in ((3, 4, 5, 6) if th else (3, 4, 5)) if n > 2 * lag]
        add(f"query_c3_stats[lag={lag}]", ns, lambda h, n, lag=lag: one(h, n, lambda p: p.query_c3_stats("x", lag),
            lambda x: fdiv(fsum_(fmul(fmul(x[i], x[i - lag]), x[i - 2 * lag]) for i in range(2 * lag, n)), K(n - 2 * lag))))
        add(f"query_time_reversal_asymmetry_stats[lag={lag}]", ns, lambda h, n, lag=lag: one(h, n, lambda p: p.query_time_reversal_asymmetry_stats("x", lag),
            lambda x: mean_([fmul(x[i + lag], fsub(sq(x[i + 2 * lag]), sq(x[i]))) for i in range(n - 2 * lag)])))
        add(f"query_auto_corr[lag={lag},raw]", ns, lambda h, n, lag=lag: one(h, n, lambda p: p.query_auto_corr("x", lag, normalize=False),
            lambda x: mean_([fmul(x[i], x[i + lag]) for i in range(n - lag)])))
        def ac(h, n, lag, ddof):
            xs = h.reals("x", n)
            v = var_(xs, ddof)
            h.assume(flt(T.ZERO, v))
            m = mean_(xs)
            f = h.frame(x=("f64", xs))
            h.eq(h.run(f, lambda pds, pl: pds.query_auto_corr("x", lag, ddof=ddof)),
                 [fdiv(fsum_(fmul(fsub(xs[i], m), fsub(xs[i + lag], m)) for i in range(n - lag)), fmul(K(n - lag), v))])
        for d in (0, 1):
            add(f"query_auto_corr[lag={lag},ddof={d}]", ns, lambda h, n, lag=lag, d=d: ac(h, n, lag, d))
    add("query_cid_ce", N[1:], lambda h, n: one(h, n, lambda p: p.query_cid_ce("x"), lambda x: fsqrt(fsum_(sq(fsub(a, b)) for a, b in zip(x, x[1:])))))
    def cidn(h, n):
        xs = h.reals("x", n)
        v = var_(xs)
        h.assume(flt(T.ZERO, v))
        f = h.frame(x=("f64", xs))
        h.eq(h.run(f, lambda pds, pl: pds.query_cid_ce("x", normalize=True)), [fsqrt(fdiv(fsum_(sq(fsub(a, b)) for a, b in zip(xs, xs[1:])), v))])
    add("query_cid_ce[normalized]", (2, 3, 4) if th else (2, 3), cidn)
    # ---------------------------------------------------------------- autoregression
    def ar(h, n, lag, bias, nul):
        from .d01 import gram, regular, normal
        x = h.reals("x", n)
        D = [[x[i - j] for j in range(1, lag + 1)] + ([K(1)] if bias else []) for i in range(lag, n)]
        if nul is not None:
            v = [None if i == nul else a for i, a in enumerate(x)]
            h.true(h.run(h.frame(x=("f64", v)), lambda pds, pl: pds.query_ar_coeffs("x", lag, add_bias=bias), may_error=True) is ERR, "a null is refused")
            return
        regular(h, gram(D))
        normal(h, h.run(h.frame(x=("f64", x)), lambda pds, pl: pds.query_ar_coeffs("x", lag, add_bias=bias))[0].v, D, x[lag:])
    for n, lag, bias in ((3, 1, False), (4, 1, True), (4, 2, False)) + (((5, 1, True), (5, 2, False)) if th else ()):
        obs.append(Ob(f"query_ar_coeffs[lag={lag},bias={bias}]/n={n}", lambda h, n=n, lag=lag, bias=bias: ar(h, n, lag, bias, None), f"{n} arbitrary reals with a regular system"))
    for nul in (1, 3):
        obs.append(Ob(f"query_ar_coeffs[null at {nul}]/n=4", lambda h, nul=nul: ar(h, 4, 1, True, nul), "4 reals, one null"))
    def arbad(h):
        import importlib
        for lag, pol in ((0, "raise"), (-1, "raise"), (1, "skip"), (1, "ignore"), (1, "inf"), (1, "nan"), (1, "x")):
            h.true(h.call(lambda: importlib.import_module("polars_ds").query_ar_coeffs("x", lag, null_policy=pol), may_error=True) is ERR, f"lag {lag}, policy {pol} is refused")
    obs.append(Ob("query_ar_coeffs refuses bad arguments", arbad, "lags below 1, policies that drop rows or are not finite"))
    return obs
