from .common import *
from fractions import Fraction as Fr
import itertools

ASSUMPTIONS = ["columns hold finite numbers and nulls (no NaN or infinity); string columns take values from a small alphabet; a fitted column has at least one value"]

def TF(h):
    import polars_ds.modeling.transforms as t
    return t

def S(c):
    return None if c is None else StrV(c)

def quant_(xs, q, method):
    """the q-quantile by the named rule, position q(n-1) between the order statistics"""
    s = sort_(xs)
    p = Fr(q) * (len(s) - 1)
    lo = p.numerator // p.denominator
    fr = p - lo
    hi = lo + 1 if fr else lo
    if method == "lower":
        return s[lo]
    if method == "higher":
        return s[hi]
    if method == "midpoint":
        return fdiv(fadd(s[lo], s[hi]), K(2)) if hi != lo else s[lo]
    if method == "linear":
        return fadd(s[lo], fmul(K(fr), fsub(s[hi], s[lo])))
    if method == "nearest" and fr != Fr(1, 2):
        return s[lo] if fr < Fr(1, 2) else s[hi]
    raise KeyError(method)

def obligations(tier):
    th = tier == "thorough"
    obs = []
    def two(h, n, m, cols=("a",), nulls=True, dt="f64"):
        """fitting frame and another frame with the same columns (and a bystander column k)"""
        def mk(p, n):
            d = {}
            for c in cols:
                xs = h.reals(f"{p}{c}", n) if dt == "f64" else h.ints(f"{p}{c}", n, -50, 50)
                d[c] = (dt, h.opts_(xs, f"{p}{c}") if nulls else xs)
            d["k"] = ("i64", list(range(10, 10 + n)))
            return d
        F, G = mk("f", n), mk("g", m)
        for c in cols:
            h.assume(any(v is not None for v in F[c][1]))
        return F, G
    def go(h, F, G, fn, want, lazy=False, names=None):
        """expressions fitted on F, applied to G (and to F itself); want(F, X) -> {column: values}"""
        t = TF(h)
        ex = h.call(lambda: fn(t, h.df(h.frame(**F), lazy)))
        for lab, X in (("another frame", G), ("the fitting frame", F)):
            r = h.run(h.frame(**X), lambda pds, pl: ex, how="with_columns")
            w = want({k: v[1] for k, v in F.items()}, {k: v[1] for k, v in X.items()})
            h.true(set(r) == set(X) | set(w), f"columns after applying to {lab}")
            for k in r:
                h.eq(r[k], w.get(k, X[k][1]), f"{k} on {lab}")
    nn = lambda xs: [x for x in xs if x is not None]
    M = lambda xs, f: [None if x is None else f(K(x)) for x in xs]
    # ---------------------------------------------------------------- numeric transforms
    def numeric(h, kind, n, m, cols=("a",), nulls=True, dt="f64", lazy=False, **kw):
        F, G = two(h, n, m, cols, nulls, dt)
        cl = list(cols)
        def want(f, x):
            out = {}
            for c in cl:
                v = [K(y) for y in nn(f[c])]
                if kind == "impute":
                    s = mean_(v) if kw["method"] == "mean" else median_(v)
                    out[c] = [s if y is None else K(y) for y in x[c]]
                elif kind == "center":
                    s = mean_(v)
                    out[c] = M(x[c], lambda y: fsub(y, s))
                elif kind == "scale" and kw["method"] == "standard":
                    s, d = mean_(v), fsqrt(var_(v, 0))
                    out[c] = M(x[c], lambda y: fdiv(fsub(y, s), d))
                elif kind == "scale" and kw["method"] == "min_max":
                    lo, hi = min_(v), max_(v)
                    out[c] = M(x[c], lambda y: fdiv(fsub(y, lo), fsub(hi, lo)))
                elif kind == "scale":
                    mx = max_([fabs(min_(v)), fabs(max_(v))])
                    out[c] = M(x[c], lambda y: fdiv(y, mx))
                elif kind == "robust":
                    lo, hi = (quant_(v, q, kw["method"]) for q in (kw["q_low"], kw["q_high"]))
                    out[c] = M(x[c], lambda y: fdiv(fsub(y, lo), fsub(hi, lo)))
                elif kind == "winsorize":
                    lo, hi = (quant_(v, q, kw["method"]) for q in (kw["q_low"], kw["q_high"]))
                    out[c] = M(x[c], lambda y: lo if lt(y, lo) else hi if lt(hi, y) else y)
            return out
        fn = {"impute": lambda t, d: t.impute(d, cl, **kw), "center": lambda t, d: t.center(d, cl), "scale": lambda t, d: t.scale(d, cl, **kw),
              "robust": lambda t, d: t.robust_scale(d, cl, **kw), "winsorize": lambda t, d: t.winsorize(d, cl, **kw)}[kind]
        if kind in ("scale", "robust"):
            # a constant column has no scale
            for c in cl:
                v = [K(y) for y in nn(F[c][1])]
                if kind == "robust":
                    h.assume(bnot(teq(quant_(v, kw["q_low"], kw["method"]), quant_(v, kw["q_high"], kw["method"]))))
                elif kw["method"] == "abs_max":
                    h.assume(any(not eq(y, 0) for y in v))
                else:
                    h.assume(any(not eq(y, v[0]) for y in v))
        go(h, F, G, fn, want, lazy)
    for kind, kws in (("impute", [dict(method="mean"), dict(method="median")]), ("center", [{}]), ("scale", [dict(method=m) for m in ("standard", "min_max", "abs_max")])):
        for kw in kws:
            nm = f"{kind}[{','.join(kw.values())}]" if kw else kind
            for n, m in [(2, 2), (3, 1)] + ([(4, 2)] if th else []):
                obs.append(Ob(f"{nm}/fit={n},apply={m}", lambda h, kind=kind, kw=kw, n=n, m=m: numeric(h, kind, n, m, **kw), f"{n} fitted rows, {m} new rows, any nulls", paths=3000))
            obs.append(Ob(f"{nm}[two columns, lazy frame]/fit=2,apply=1", lambda h, kind=kind, kw=kw: numeric(h, kind, 2, 1, cols=("a", "b"), nulls=False, lazy=True, **kw), "2 fitted rows", paths=1500))
            if kind != "scale" or kw["method"] != "standard":
                obs.append(Ob(f"{nm}[integers]/fit=3,apply=1", lambda h, kind=kind, kw=kw: numeric(h, kind, 3, 1, nulls=False, dt="i64", **kw), "3 fitted rows", paths=1500))
    for method in ("lower", "higher", "midpoint", "linear"):
        for ql, qh in ((0.25, 0.75), (0.0, 1.0), (0.125, 0.625)):
            kw = dict(q_low=ql, q_high=qh, method=method)
            for kind in ("robust", "winsorize"):
                for n in (3, 4) if th else (3,):
                    obs.append(Ob(f"{kind}[{ql},{qh},{method}]/fit={n},apply=1", lambda h, kind=kind, kw=kw, n=n: numeric(h, kind, n, 1, nulls=False, **kw), f"{n} fitted rows, 1 new row", paths=2000))
    for kind in ("robust", "winsorize"):
        obs.append(Ob(f"{kind}[0.25,0.75,nearest]/fit=4,apply=1", lambda h, kind=kind: numeric(h, kind, 4, 1, nulls=False, q_low=0.25, q_high=0.75, method="nearest"), "4 fitted rows, 1 new row", paths=2000))
    obs.append(Ob("winsorize[nulls]/fit=3,apply=1", lambda h: numeric(h, "winsorize", 3, 1, q_low=0.25, q_high=0.75, method="linear"), "3 fitted rows, any nulls", paths=2000))
    obs.append(Ob("robust[nulls]/fit=3,apply=1", lambda h: numeric(h, "robust", 3, 1, q_low=0.25, q_high=0.75, method="midpoint"), "3 fitted rows, any nulls", paths=2000))
    def levels(h, kind, method):
        a, b = h.param("a", 0, 1), h.param("b", 0, 1)
        h.assume(flt(a.v, b.v))
        v = [K(4), h.real("x", -9, 9), K(1)]
        F, G = {"a": ("f64", v)}, {"a": ("f64", [h.real("y", -20, 20)])}
        lo, hi = level_quantile(v, a.v, method), level_quantile(v, b.v, method)
        if kind == "robust":
            h.assume(not eq(lo, hi))
        def want(f, x):
            return {"a": [fdiv(fsub(y, lo), fsub(hi, lo)) if kind == "robust" else lo if lt(y, lo) else hi if lt(hi, y) else y for y in x["a"]]}
        go(h, F, G, lambda t, d: (t.robust_scale if kind == "robust" else t.winsorize)(d, ["a"], q_low=a.api, q_high=b.api, method=method), want)
    for kind in ("robust", "winsorize"):
        for method in ("nearest", "lower", "higher", "midpoint", "linear"):
            obs.append(Ob(f"{kind}[any two levels,{method}]/fit=3,apply=1", lambda h, k=kind, m=method: levels(h, k, m), "any two levels, 3 fitted rows (one arbitrary), 1 new row", paths=2000))
    # the defaults (0.05 / 0.95 nearest): with at most 10 rows these are the smallest and the largest value
    def dflt(h, n):
        F, G = two(h, n, 1, nulls=False)
        def want(f, x):
            lo, hi = min_(f["a"]), max_(f["a"])
            return {"a": [lo if lt(y, lo) else hi if lt(hi, y) else y for y in x["a"]]}
        go(h, F, G, lambda t, d: t.winsorize(d, ["a"]), want)
    for n in (2, 3, 4):
        obs.append(Ob(f"winsorize[defaults]/fit={n},apply=1", lambda h, n=n: dflt(h, n), f"{n} fitted rows", paths=2000))
    def bounds(h):
        t = TF(h)
        F, _ = two(h, 2, 1, nulls=False)
        for a, b in ((0.5, 0.5), (0.75, 0.25), (-0.5, 0.5), (0.25, 1.5)):
            for f in (t.winsorize, t.robust_scale):
                h.true(h.call(lambda: f(h.df(h.frame(**F)), ["a"], a, b), may_error=True) is ERR, f"quantiles {a}, {b} are refused by {f.__name__}")
    obs.append(Ob("winsorize, robust_scale[bad quantiles]", bounds, "2 rows"))
    # ---------------------------------------------------------------- mode
    def mode(h, n, kind):
        alpha = ["x", "y", None]
        if kind == "str":
            vs = [S(h.pick(alpha, f"f{i}")) for i in range(n)]
        else:
            vs = h.opts_(h.ints("f", n, 0, 50), "f")
        h.assume(any(v is not None for v in vs))
        gs = [None, vs[0]]
        dt = "str" if kind == "str" else "i64"
        t = TF(h)
        ex = h.call(lambda: t.impute(h.df(h.frame(a=(dt, vs))), ["a"], method="mode"))
        r = h.run(h.frame(a=(dt, gs)), lambda pds, pl: ex, how="with_columns")["a"]
        h.eq(r[1], r[0] if vs[0] is None else vs[0], "a value is kept, a null is filled")
        cnt = lambda v: sum(1 for w in vs if w is not None and br(teq(v, w)))
        h.true(r[0] is not None and cnt(r[0]) == max(cnt(w) for w in vs if w is not None), "the fill value is a most frequent value")
    for n in (1, 2, 3) + ((4,) if th else ()):
        for kind in ("str", "int"):
            obs.append(Ob(f"impute[mode,{kind}]/fit={n}", lambda h, n=n, kind=kind: mode(h, n, kind), f"{n} fitted rows", paths=3000))
    # ---------------------------------------------------------------- conditional imputation
    def cond(h, method, n, sql):
        F, G = two(h, n, 2, nulls=method != "median")
        for v in F["a"][1] + G["a"][1]:
            if v is not None:
                h.assume(band(fle(fl(-1000), v), fle(v, fl(1000))))
        hit = lambda y: br(flt(fl(5), y))
        h.assume(any(v is not None and not hit(v) for v in F["a"][1]))
        rule = lambda: "a > 5" if sql else h.pl.col("a") > 5
        if method == "mode":
            t = TF(h)
            ex = h.call(lambda: t.conditional_impute(h.df(h.frame(**F)), {"a": rule()}, method=method))
            r = h.run(h.frame(**G), lambda pds, pl: ex, how="with_columns")["a"]
            ok = [v for v in F["a"][1] if v is not None and not hit(v)]
            cnt = lambda v: sum(1 for w in ok if eq(v, w))
            for g, v in zip(r, G["a"][1]):
                if v is not None and hit(v):
                    h.true(cnt(g) == max(cnt(w) for w in ok), "a most frequent value among those that do not meet the condition")
                else:
                    h.eq(g, v, "values that do not meet the condition are kept")
            return
        def want(f, x):
            ok = [v for v in f["a"] if v is not None and not hit(v)]
            s = mean_(ok) if method == "mean" else median_(ok)
            return {"a": [s if v is not None and hit(v) else v for v in x["a"]]}
        go(h, F, G, lambda t, d: t.conditional_impute(d, {"a": rule()}, method=method), want)
    for method in ("mean", "median", "mode"):
        for sql in (False, True):
            for n in (2, 3) if th else (2,):
                obs.append(Ob(f"conditional_impute[{method}{', SQL' if sql else ''}]/fit={n},apply=2", lambda h, method=method, sql=sql, n=n: cond(h, method, n, sql), f"{n} fitted rows, 2 new rows", paths=3000, secs=90))
    # ---------------------------------------------------------------- linear imputation
    def lin(h, bias, n):
        X = h.reals("x", n)
        W = h.reals("w", 1)
        b = h.real("beta", -100, 100)
        c = h.real("beta0", -100, 100) if bias else T.ZERO
        f = lambda v: fadd(fmul(b, v), c)
        if n > 1:
            h.assume(bnot(teq(X[0], X[1])))
        else:
            h.assume(bnot(teq(X[0], T.ZERO)))
        # targets on a line, one more row without a target and one without a feature
        F = dict(x=("f64", X + [W[0], None]), y=("f64", [f(v) for v in X] + [None, K(3)]))
        G = dict(x=("f64", [h.real("g0"), h.real("g1")]), y=("f64", [None, h.real("gy")]))
        t = TF(h)
        ex = h.call(lambda: t.linear_impute(h.df(h.frame(**F)), ["x"], "y", add_bias=bias))
        r = h.run(h.frame(**G), lambda pds, pl: ex, how="with_columns")
        h.eq(r["y"], [f(G["x"][1][0]), G["y"][1][1]], "only missing targets are filled, from the line through the complete rows")
        h.eq(r["x"], G["x"][1], "features are left alone")
    obs.append(Ob("linear_impute/n=1", lambda h: lin(h, False, 1), "1 complete row", secs=60))
    obs.append(Ob("linear_impute/n=2", lambda h: lin(h, False, 2), "2 complete rows on a line", secs=60))
    obs.append(Ob("linear_impute[add_bias]/n=2", lambda h: lin(h, True, 2), "2 complete rows", secs=90))
    # ---------------------------------------------------------------- one-hot
    def onehot(h, n, sep, drop, cat):
        fs = [h.pick(["u", "v", "w", None], f"f{i}") for i in range(n)]
        u = sorted(set(fs) - {None})
        gs = [h.pick(["u", "v", "w", "new", None], f"g{i}") for i in range(1)]
        dt = "cat" if cat else "str"
        if len(u) < 2:
            return
        F = dict(c=(dt, [S(x) for x in fs]), n=("f64", [K(0)] * n))
        G = dict(c=(dt, [S(x) for x in gs]), n=("f64", [K(1)]))
        t = TF(h)
        ex = h.call(lambda: t.one_hot_encode(h.df(h.frame(**F)), ["c", "n"], separator=sep, drop_first=drop))
        r = h.run(h.frame(**G), lambda pds, pl: ex, how="with_columns")
        names = [f"c{sep}{x}" for x in (u[1:] if drop else u)]
        h.true(list(r) == ["c", "n"] + names, "one indicator per category of the fitting frame, in order")
        for nm in names:
            h.eq(r.get(nm), [1 if g is not None and nm == f"c{sep}{g}" else 0 for g in gs], nm)
    for n in (2, 3) + ((4,) if th else ()):
        for sep, drop, cat in (("_", False, False), ("=", True, False), ("_", False, True)):
            obs.append(Ob(f"one_hot_encode[{sep}{', drop_first' if drop else ''}{', categorical' if cat else ''}]/fit={n},apply=1", lambda h, n=n, a=sep, b=drop, c=cat: onehot(h, n, a, b, c), f"{n} fitted rows over 3 letters and null, 1 new row over 4 letters and null", paths=3000))
    def nostr(h):
        t = TF(h)
        F = dict(n=("f64", h.reals("n", 2)), t=("i64", [0, 1]))
        for lab, f in (("one_hot_encode", lambda d: t.one_hot_encode(d, ["n"])), ("target_encode", lambda d: t.target_encode(d, ["n"], "t")),
                       ("woe_encode", lambda d: t.woe_encode(d, ["n"], "t")), ("iv_encode", lambda d: t.iv_encode(d, ["n"], "t"))):
            h.true(h.call(lambda: f(h.df(h.frame(**F))), may_error=True) is ERR, f"{lab} refuses numeric columns")
    obs.append(Ob("encoders[numeric columns]", nostr, "2 rows"))
    def rankhot(h, ranking):
        gs = [h.pick(list(ranking) + ["other", None], "g0"), h.pick(list(ranking) + ["other", None], "g1")]
        t = TF(h)
        ex = h.call(lambda: t.rank_hot_encode("c", list(ranking)))
        r = h.run(h.frame(c=("str", [S(x) for x in gs])), lambda pds, pl: ex, how="with_columns")
        h.true(list(r) == ["c"] + [f"c>={x}" for x in ranking[1:]], "one column per rank above the lowest")
        for i, nm in enumerate(ranking[1:], 1):
            h.eq(r.get(f"c>={nm}"), [-1 if g not in ranking else int(ranking.index(g) >= i) for g in gs], nm)
    for rk in (("bad", "good"), ("bad", "neutral", "good"), ("b", "c", "a", "d")):
        obs.append(Ob(f"rank_hot_encode{list(rk)}", lambda h, rk=rk: rankhot(h, rk), "2 rows, every ranked value, an unknown value and null", paths=1000))
    # ---------------------------------------------------------------- target, WOE and IV encoders
    def enc(h, kind, n, default, cat=False):
        fs = ["p"] + [h.pick(["p", "q", None], f"f{i}") for i in range(1, n)]
        ts = h.reals("t", n) if kind == "target" else [h.pick([0, 1], f"t{i}") for i in range(n)]
        gs = [h.pick(["p", "q", "new", None], "g0")]
        F = dict(c=("str", [S(x) for x in fs]), t=("f64" if kind == "target" else "i64", ts))
        G = dict(c=("str", [S(x) for x in gs]), t=("f64" if kind == "target" else "i64", [K(0) if kind == "target" else 0]))
        t = TF(h)
        if kind == "target":
            ex = h.call(lambda: t.target_encode(h.df(h.frame(**F)), ["c"], "t", min_samples_leaf=1, smoothing=2.0, default=default))
        elif kind == "woe":
            ex = h.call(lambda: t.woe_encode(h.df(h.frame(**F)), ["c"], "t", default=default))
        else:
            ex = h.call(lambda: t.iv_encode(h.df(h.frame(**F)), ["c"], "t", default=default))
        r = h.run(h.frame(**G), lambda pds, pl: ex, how="with_columns")["c"]
        d = {"null": None, None: None, "zero": K(0), "mean": mean_([K(x) for x in ts])}[default] if not isinstance(default, float) else fl(default)
        if kind == "target":
            m = mean_(ts)
            def code(c):
                v = [x for k, x in zip(fs, ts) if k == c]
                a = fdiv(T.ONE, fadd(T.ONE, fexp(fneg(K(Fr(len(v) - 1) / 2)))))
                return fadd(fmul(a, mean_(v)), fmul(fsub(T.ONE, a), m))
        else:
            # one event and one non-event are added to every category; shares are taken over the rows with a category
            pv = [x == 1 for x in ts]
            E_ = sum(1 for k, x in zip(fs, pv) if k is not None and x)
            N_ = sum(1 for k, x in zip(fs, pv) if k is not None and not x)
            u = set(fs)
            def code(c):
                e = sum(1 for k, x in zip(fs, pv) if k == c and x)
                o = sum(1 for k, x in zip(fs, pv) if k == c and not x)
                pe, po = Fr(e + 1, E_ + 2), Fr(o + 1, N_ + 2)
                woe = fln(K(pe / po))
                return woe if kind == "woe" else fmul(K(pe - po), woe)
        h.eq(r, [code(g) if g is not None and g in fs else d for g in gs], "code of the fitted category, or the default")
    for kind in ("target", "woe", "iv"):
        for default in ("null", "zero", "mean", 7.5, None):
            for n in ((2,) if default not in ("null", "mean") else (2, 3)):
                obs.append(Ob(f"{kind}_encode[default={default}]/fit={n},apply=1", lambda h, kind=kind, default=default, n=n: enc(h, kind, n, default), f"{n} fitted rows over 2 letters and null, any targets, 1 new row over 3 letters and null", paths=3000))
    # ---------------------------------------------------------------- polynomial features
    def poly(h, cols, deg, inter):
        xs = {c: h.reals(c, 2) for c in cols}
        t = TF(h)
        ex = h.call(lambda: t.polynomial_features(list(cols), degree=deg, interaction_only=inter))
        r = h.run(h.frame(**{c: ("f64", v) for c, v in xs.items()}), lambda pds, pl: ex, how="with_columns")
        combos = [k for k in itertools.combinations_with_replacement(cols, deg) if not inter or len(set(k)) > 1]
        h.true(set(r) == set(cols) | {"*".join(k) for k in combos}, "one column per product of the given degree")
        for k in combos:
            w = []
            for i in range(2):
                p = T.ONE
                for c in k:
                    p = fmul(p, xs[c][i])
                w.append(p)
            h.eq(r.get("*".join(k)), w, "*".join(k))
    for cols in ("ab", "abc"):
        for deg in (2, 3):
            for inter in (False, True):
                obs.append(Ob(f"polynomial_features[{','.join(cols)}; degree {deg}{'; interactions' if inter else ''}]", lambda h, c=cols, d=deg, i=inter: poly(h, tuple(c), d, i), "2 rows"))
    return obs
