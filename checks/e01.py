from .common import *

ASSUMPTIONS = ["columns are 64-bit floats without nulls or NaN unless the obligation says otherwise"]

def two(h, n):
    a, p = h.reals("a", n), h.reals("p", n)
    return a, p, h.frame(a=("f64", a), p=("f64", p))

def obligations(tier):
    N = (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5)
    obs = []
    def add(name, ns, fn, **kw):
        for n in ns:
            obs.append(Ob(f"{name}/n={n}", (lambda h, n=n: fn(h, n)), f"{n} rows of arbitrary reals", **kw))
    def r2(h, n, adj=None):
        a, p, f = two(h, n)
        m = mean_(a)
        res = fsum_(sq(fsub(x, y)) for x, y in zip(a, p))
        tot = fsum_(sq(fsub(x, m)) for x in a)
        h.assume(flt(T.ZERO, tot))
        if adj is None:
            got = h.run(f, lambda pds, pl: pds.query_r2("a", "p"))
            h.eq(got, [fsub(T.ONE, fdiv(res, tot))])
        else:
            got = h.run(f, lambda pds, pl: pds.query_adj_r2("a", "p", adj))
            # adjusted R2 with p explanatory variables: 1 - (1-R2)(n-1)/(n-p-1)
            h.eq(got, [fsub(T.ONE, fdiv(fdiv(res, K(n - adj - 1)), fdiv(tot, K(n - 1))))])
    add("r2", [n for n in N if n > 1], r2)
    for k in (1, 2):
        add(f"adj_r2[p={k}]", [n for n in N + (4,) if n > k + 1], lambda h, n, k=k: r2(h, n, k))
    def l1(h, n, norm):
        a, p, f = two(h, n)
        s = fsum_(fabs(fsub(x, y)) for x, y in zip(a, p))
        h.eq(h.run(f, lambda pds, pl: pds.query_l1("a", "p", normalize=norm)), [fdiv(s, K(n)) if norm else s])
    def l2(h, n, norm):
        a, p, f = two(h, n)
        s = fsum_(sq(fsub(x, y)) for x, y in zip(a, p))
        h.eq(h.run(f, lambda pds, pl: pds.query_l2("a", "p", normalize=norm)), [fdiv(s, K(n)) if norm else s])
    def lc(h, n, norm):
        a, p, f = two(h, n)
        s = fsum_(fln(fdiv(fadd(fexp(fsub(y, x)), fexp(fsub(x, y))), K(2))) for x, y in zip(a, p))
        h.eq(h.run(f, lambda pds, pl: pds.query_log_cosh("a", "p", normalize=norm)), [fdiv(s, K(n)) if norm else s])
    def nulls(h, n):
        a, p = h.reals("a", n), h.reals("p", n)
        an = h.opts_(a, "a")
        f = h.frame(a=("f64", an), p=("f64", p))
        d = [fsub(x, y) for x, y in zip(an, p) if x is not None]
        if not d:
            return
        h.eq(h.run(f, lambda pds, pl: pds.query_l1("a", "p")), [fdiv(fsum_(fabs(x) for x in d), K(len(d)))], "l1")
        h.eq(h.run(f, lambda pds, pl: pds.query_l2("a", "p")), [fdiv(fsum_(sq(x) for x in d), K(len(d)))], "l2")
    for norm in (True, False):
        s = "" if norm else "[sum]"
        add("l1" + s, N, lambda h, n, norm=norm: l1(h, n, norm))
        add("l2" + s, N, lambda h, n, norm=norm: l2(h, n, norm))
        add("log_cosh" + s, N, lambda h, n, norm=norm: lc(h, n, norm))
    add("l1_l2_null_actuals", N, nulls)
    def linf(h, n):
        a, p, f = two(h, n)
        got = h.run(f, lambda pds, pl: pds.query_l_inf("a", "p"))
        d = [fabs(fsub(x, y)) for x, y in zip(a, p)]
        h.eq(got, [max_(d)])
    add("l_inf", N, linf)
    def huber_c(h, n, d):
        a, p, f = two(h, n)
        s = T.ZERO
        dv = K(Fraction(d))
        for x, y in zip(a, p):
            t = fabs(fsub(x, y))
            s = fadd(s, fmul(K(Fraction(1, 2)), sq(t)) if le(t, dv) else fmul(dv, fsub(t, fmul(K(Fraction(1, 2)), dv))))
        h.eq(h.run(f, lambda pds, pl: pds.query_hubor_loss("a", "p", delta=d)), [fdiv(s, K(n))])
    def huber_s(h, n):
        a, p, f = two(h, n)
        dl = h.param("delta", 0, None, api=1.375)
        pos(h, dl.v)
        h.sub[0.5 * 1.375] = fmul(K(Fraction(1, 2)), dl.v)
        s = T.ZERO
        for x, y in zip(a, p):
            t = fabs(fsub(x, y))
            s = fadd(s, fmul(K(Fraction(1, 2)), sq(t)) if le(t, dl.v) else fmul(dl.v, fsub(t, fmul(K(Fraction(1, 2)), dl.v))))
        h.eq(h.run(f, lambda pds, pl: pds.query_hubor_loss("a", "p", delta=dl.api)), [fdiv(s, K(n))])
    for d in (0.5, 1.0, 2.0):
        add(f"huber[{d}]", N, lambda h, n, d=d: huber_c(h, n, d))
    add("huber[symbolic delta]", N[:3], huber_s)
    def mape(h, n, w):
        a, p, f = two(h, n)
        if w:
            h.assume(flt(T.ZERO, fsum_(fabs(x) for x in a)))
            want = fdiv(fsum_(fabs(fsub(x, y)) for x, y in zip(a, p)), fsum_(fabs(x) for x in a))
        else:
            for x in a:
                h.assume(bnot(cmp0(x, "eq0")))
            want = mean_([fabs(fdiv(fsub(x, y), x)) for x, y in zip(a, p)])
        h.eq(h.run(f, lambda pds, pl: pds.query_mape("a", "p", weighted=w)), [want])
    add("mape", N[:3], lambda h, n: mape(h, n, False))
    add("wmape", N[:3], lambda h, n: mape(h, n, True))
    def smape(h, n):
        a, p, f = two(h, n)
        for x, y in zip(a, p):
            h.assume(flt(T.ZERO, fadd(fabs(x), fabs(y))))
        want = mean_([fdiv(fabs(fsub(x, y)), fadd(fabs(x), fabs(y))) for x, y in zip(a, p)])
        h.eq(h.run(f, lambda pds, pl: pds.query_smape("a", "p")), [want])
    add("smape", N[:3], smape)
    def mase(h, n, m, freq, um):
        a, p = h.reals("a", n), h.reals("p", n)
        t = h.reals("t", m)
        c = max(n, m)
        # rows beyond the shorter column are cut off by filter, as the documentation shows
        f = h.frame(i=("i64", list(range(c))), a=("f64", a + [T.ZERO] * (c - n)), p=("f64", p + [T.ZERO] * (c - n)), t=("f64", t + [T.ZERO] * (c - m)))
        agg = mean_ if um else median_
        den = agg([fabs(fsub(t[i], t[i - freq])) for i in range(freq, m)])
        h.assume(flt(T.ZERO, den))
        num = agg([fabs(fsub(x, y)) for x, y in zip(a, p)])
        got = h.run(f, lambda pds, pl: pds.query_mase(pl.col("a").filter(pl.col("i") < n), pl.col("p").filter(pl.col("i") < n), pl.col("t").filter(pl.col("i") < m), freq=freq, use_mean=um))
        h.eq(got, [fdiv(num, den)])
    for um in (True, False):
        for m, freq in ((3, 1), (3, 2), (4, 2)):
            add(f"mase[m={m},freq={freq},mean={um}]", N[:2], lambda h, n, m=m, freq=freq, um=um: mase(h, n, m, freq, um))
    def mase_f(h, n, um):
        a, p, f = two(h, n)
        d = h.param("train", None, None, api=2.71828)
        pos(h, d.v)
        agg = mean_ if um else median_
        h.eq(h.run(f, lambda pds, pl: pds.query_mase("a", "p", train=d.api, use_mean=um)), [fdiv(agg([fabs(fsub(x, y)) for x, y in zip(a, p)]), d.v)])
    for um in (True, False):
        add(f"mase[given loss,mean={um}]", N[:3], lambda h, n, um=um: mase_f(h, n, um))
    def msle(h, n, norm):
        a, p, f = two(h, n)
        for x in a + p:
            h.assume(flt(K(-1), x))
        s = fsum_(sq(fsub(fln(fadd(x, T.ONE)), fln(fadd(y, T.ONE)))) for x, y in zip(a, p))
        h.eq(h.run(f, lambda pds, pl: pds.query_msle("a", "p", normalize=norm)), [fdiv(s, K(n)) if norm else s])
    for norm in (True, False):
        add("msle" + ("" if norm else "[sum]"), N[:3], lambda h, n, norm=norm: msle(h, n, norm))
    def mad(h, n, um):
        x = h.reals("x", n)
        f = h.frame(x=("f64", x))
        agg = mean_ if um else median_
        m = agg(x)
        h.eq(h.run(f, lambda pds, pl: pds.query_mad("x", use_mean=um)), [agg([fabs(fsub(v, m)) for v in x])])
    for um in (True, False):
        add(f"mad[mean={um}]", N[:3], lambda h, n, um=um: mad(h, n, um))
    def logloss(h, n, norm):
        a = [h.int(f"a{i}", 0, 1) for i in range(n)]
        p = h.reals("p", n)
        for x in p:
            h.assume(band(flt(T.ZERO, x), flt(x, T.ONE)))
        f = h.frame(a=("i64", a), p=("f64", p))
        s = T.ZERO
        for x, y in zip(a, p):
            s = fsub(s, fln(y) if br(ieq(x, 1)) else fln(fsub(T.ONE, y)))
        h.eq(h.run(f, lambda pds, pl: pds.query_log_loss("a", "p", normalize=norm)), [fdiv(s, K(n)) if norm else s])
    for norm in (True, False):
        add("log_loss" + ("" if norm else "[sum]"), N[:3], lambda h, n, norm=norm: logloss(h, n, norm))
    return obs
