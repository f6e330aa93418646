from .common import *

ASSUMPTIONS = ["columns are 64-bit floats without nulls or NaN; weights are positive"]

def obligations(tier):
    th = tier == "thorough"
    obs = []
    def add(name, ns, fn, b="{n} rows of arbitrary reals", **kw):
        for n in ns:
            obs.append(Ob(f"{name}/n={n}", (lambda h, n=n: fn(h, n)), b.format(n=n), **kw))
    N = (1, 2, 3, 4, 5) if th else (1, 2, 3)
    N2 = (2, 3, 4, 5) if th else (2, 3)
    def data(h, n, names="x", w=True, posx=False):
        d = {k: h.reals(k, n) for k in names}
        if posx:
            pos(h, *d["x"])
        if w:
            d["w"] = h.reals("w", n)
            pos(h, *d["w"])
        return d, h.frame(**{k: ("f64", v) for k, v in d.items()})
    def hmean(h, n):
        d, f = data(h, n, w=False, posx=True)
        h.eq(h.run(f, lambda pds, pl: pds.hmean("x")), [fdiv(K(n), fsum_(fdiv(T.ONE, x) for x in d["x"]))])
    add("hmean", N, hmean, "{n} positive reals")
    def gmean(h, n):
        d, f = data(h, n, w=False, posx=True)
        h.eq(h.run(f, lambda pds, pl: pds.gmean("x")), [fexp(mean_([fln(x) for x in d["x"]]))])
    add("gmean", N, gmean, "{n} positive reals")
    def whmean(h, n, norm):
        d, f = data(h, n, posx=True)
        if norm:
            h.assume(cmp0(K(fsub(fsum_(d["w"]), T.ONE)), "eq0"))
        h.eq(h.run(f, lambda pds, pl: pds.weighted_hmean("x", "w", is_normalized=norm)),
             [fdiv(T.ONE if norm else fsum_(d["w"]), fsum_(fdiv(w, x) for x, w in zip(d["x"], d["w"])))])
    def wgmean(h, n, norm):
        d, f = data(h, n, posx=True)
        s = fsum_(fmul(fln(x), w) for x, w in zip(d["x"], d["w"]))
        h.eq(h.run(f, lambda pds, pl: pds.weighted_gmean("x", "w", is_normalized=norm)), [fexp(s if norm else fdiv(s, fsum_(d["w"])))])
    def wmean(h, n, norm):
        d, f = data(h, n)
        s = dot_(d["x"], d["w"])
        h.eq(h.run(f, lambda pds, pl: pds.weighted_mean("x", "w", is_normalized=norm)), [s if norm else fdiv(s, fsum_(d["w"]))])
    for norm in (False, True):
        s = "[normalized]" if norm else ""
        add("weighted_hmean" + s, N if not norm else N2, lambda h, n, norm=norm: whmean(h, n, norm))
        add("weighted_gmean" + s, N, lambda h, n, norm=norm: wgmean(h, n, norm))
        add("weighted_mean" + s, N, lambda h, n, norm=norm: wmean(h, n, norm))
    def wm(x, w):
        return fdiv(dot_(x, w), fsum_(w))
    def wc(x, y, w):
        a, b = wm(x, w), wm(y, w)
        return fsum_(fmul(ww, fmul(fsub(p, a), fsub(q, b))) for p, q, ww in zip(x, y, w))
    def wvar(h, n, fw):
        d, f = data(h, n)
        s = fsum_(d["w"])
        if fw:
            h.assume(flt(T.ONE, s))
        h.eq(h.run(f, lambda pds, pl: pds.weighted_var("x", "w", freq_weights=fw)), [fdiv(wc(d["x"], d["x"], d["w"]), fsub(s, T.ONE) if fw else s)])
    add("weighted_var", N, lambda h, n: wvar(h, n, False))
    add("weighted_var[freq]", N, lambda h, n: wvar(h, n, True))
    def wcov(h, n):
        d, f = data(h, n, "xy")
        h.eq(h.run(f, lambda pds, pl: pds.weighted_cov("x", "y", "w")), [fdiv(wc(d["x"], d["y"], d["w"]), fsum_(d["w"]))])
    add("weighted_cov", N, wcov)
    def wcorr(h, n):
        d, f = data(h, n, "xy")
        sxx, syy = wc(d["x"], d["x"], d["w"]), wc(d["y"], d["y"], d["w"])
        pos(h, sxx, syy)
        h.eq(h.run(f, lambda pds, pl: pds.weighted_corr("x", "y", "w")), [fdiv(wc(d["x"], d["y"], d["w"]), fsqrt(fmul(sxx, syy)))])
    add("weighted_corr", N2, wcorr)
    def cos(h, n, wt):
        d, f = data(h, n, "xy", w=wt)
        w = d.get("w", [T.ONE] * n)
        xx, yy, xy = [fsum_(fmul(ww, fmul(p, q)) for p, q, ww in zip(d[a], d[b], w)) for a, b in ("xx", "yy", "xy")]
        pos(h, xx, yy)
        if wt:
            h.eq(h.run(f, lambda pds, pl: pds.weighted_cosine_sim("x", "y", "w")), [fdiv(xy, fsqrt(fmul(xx, yy)))])
        else:
            h.eq(h.run(f, lambda pds, pl: pds.cosine_sim("x", "y")), [fdiv(xy, fmul(fsqrt(xx), fsqrt(yy)))])
    add("cosine_sim", N, lambda h, n: cos(h, n, False))
    add("weighted_cosine_sim", N, lambda h, n: cos(h, n, True))
    # unit weights give the unweighted value
    def unit(h, n):
        x, y = h.reals("x", n), h.reals("y", n)
        f = h.frame(x=("f64", x), y=("f64", y), w=("f64", [T.ONE] * n))
        r = h.run(f, lambda pds, pl: [pds.weighted_mean("x", "w").alias("m"), pds.weighted_var("x", "w").alias("v"), pds.weighted_var("x", "w", freq_weights=True).alias("vf"), pds.weighted_cov("x", "y", "w").alias("c")])
        h.eq(r["m"], [mean_(x)], "mean")
        h.eq(r["v"], [var_(x, 0)], "var")
        h.eq(r["c"], [cov_(x, y, 0)], "cov")
        if n > 1:
            h.eq(r["vf"], [var_(x, 1)], "freq var")
    add("unit weights", N, unit)
    # ---------------------------------------------------------------- winsorize
    def wins(h, n, m):
        x = h.reals("x", n)
        f = h.frame(x=("f64", x))
        lo, hi = 0.25, 0.625
        s = sort_(x)
        q = lambda p: quant(s, p, m)
        a, b = q(lo), q(hi)
        out = [a if lt(v, a) else b if lt(b, v) else v for v in x]
        h.eq(h.run(f, lambda pds, pl: __import__("polars_ds.exprs.stats", fromlist=["x"]).winsorize("x", lo, hi, m)), out)
    def quant(s, p, m):
        fi = Fraction(p).limit_denominator(1000) * (len(s) - 1)
        lo = int(fi); hi = lo + (fi != lo)
        if m == "lower":
            return s[lo]
        if m == "higher":
            return s[hi]
        if m == "midpoint":
            return fdiv(fadd(s[lo], s[hi]), K(2))
        if m == "linear":
            return fadd(s[lo], fmul(K(fi - lo), fsub(s[hi], s[lo])))
        return s[int(fi + Fraction(1, 2))]
    for m in ("nearest", "lower", "higher", "midpoint", "linear"):
        add(f"winsorize[{m}]", (1, 2, 3) if not th else (3, 4, 5), lambda h, n, m=m: wins(h, n, m), paths=2000)
    def wlevel(h, m):
        """any two levels"""
        a, b = h.param("a", 0, 1, strict=True), h.param("b", 0, 1, strict=True)
        h.assume(flt(a.v, b.v))
        x = [K(7), K(-2), K(3)]
        x[1] = h.real("x", -9, 9)
        f = h.frame(x=("f64", x))
        lo, hi = level_quantile(x, a.v, m), level_quantile(x, b.v, m)
        out = [lo if lt(v, lo) else hi if lt(hi, v) else v for v in x]
        h.eq(h.run(f, lambda pds, pl: __import__("polars_ds.exprs.stats", fromlist=["x"]).winsorize("x", a.api, b.api, m)), out)
    for m in ("nearest", "lower", "higher", "midpoint", "linear"):
        obs.append(Ob(f"winsorize[{m}]/any two levels", lambda h, m=m: wlevel(h, m), "any two levels, 3 values, one of them arbitrary", paths=2000))
    # ---------------------------------------------------------------- bicor
    def bicor(h, n, sym_c):
        x, y = h.reals("x", n), h.reals("y", n)
        f = h.frame(x=("f64", x), y=("f64", y))
        c = h.param("c", 0.5, 20.0) if sym_c else None
        cv = c.v if c else K(9)
        def wts(v):
            m = median_(v)
            d = [fsub(p, m) for p in v]
            mad = median_([fabs(p) for p in d])
            pos(h, mad)
            out = []
            for p in d:
                u = fdiv(p, fmul(cv, mad))
                w = sq(fsub(T.ONE, sq(u))) if lt(fabs(u), T.ONE) else T.ZERO
                out.append(fmul(p, w))
            return out
        a, b = wts(x), wts(y)
        aa, bb, ab = dot_(a, a), dot_(b, b), dot_(a, b)
        pos(h, aa, bb)
        h.eq(h.run(f, lambda pds, pl: pds.bicor("x", "y", **(dict(c=c.api) if c else {}))), [fdiv(ab, fsqrt(fmul(aa, bb)))])
    add("bicor", (2, 3), lambda h, n: bicor(h, n, False), paths=3000, hard=True)
    # ---------------------------------------------------------------- corr dispatch
    def corr(h, n, method):
        x, y = h.reals("x", n), h.reals("y", n)
        if method == "spearman":
            rk = lambda v: [fdiv(fsum_([T.ONE if lt(q, p) else T.ZERO for q in v] + [T.ONE if not lt(p, q) else T.ZERO for q in v] + [T.ONE]), K(2)) for p in v]
            u, v = rk(x), rk(y)
        else:
            u, v = x, y
        sxx, syy = var_(u), var_(v)
        if eq(sxx, T.ZERO) or eq(syy, T.ZERO):
            return
        f = h.frame(x=("f64", x), y=("f64", y))
        h.eq(h.run(f, lambda pds, pl: pds.corr("x", "y", method=method)), [fdiv(cov_(u, v), fsqrt(fmul(sxx, syy)))])
    for m in ("pearson", "spearman"):
        add(f"corr[{m}]", N2, lambda h, n, m=m: corr(h, n, m), paths=2000)
    return obs
