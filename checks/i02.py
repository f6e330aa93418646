from .common import *
from .i01 import S, quant_, TF
from fractions import Fraction as Fr
import json

ASSUMPTIONS = ["frames hold finite numbers and nulls in two numeric columns, a string, a boolean and a target column; SQL steps are outside (polars' SQL engine is not modelled)"]

# A step: name -> (what to add to the blueprint, what it does to (fitting table, other table)); a table is {column: (dtype, values)}
def numeric(t):
    return [c for c in t if t[c][0] in ("f64", "f32", "i64", "u8", "i8")]

def nn(xs):
    return [K(x) for x in xs if x is not None]

def fl_(t, c):
    return [None if x is None else K(x) for x in t[c][1]]

def put(t, **kw):
    r = dict(t)
    r.update(kw)
    return r

def both(f):
    """a step without a fit"""
    return lambda F, G: (f(F), f(G))

def per(F, G, cols, stat, g, dt="f64"):
    st = {}
    for c in cols:
        st[c] = stat(nn(F[c][1]))
    return tuple(put(X, **{c: (dt, [g(st[c], x) for x in fl_(X, c)]) for c in cols}) for X in (F, G))

def keepnull(f):
    return lambda s, x: None if x is None else f(s, x)

def filt(t, pred):
    n = len(next(iter(t.values()))[1])
    idx = [i for i in range(n) if pred({c: t[c][1][i] for c in t})]
    return {c: (d, [v[i] for i in idx]) for c, (d, v) in t.items()}

def over(x, k):
    """x > k: false for null, true for NaN"""
    return x is not None and (x is NAN or lt(k, x))

def need(h, F, cols, k=1):
    """the fitted columns have at least k values (otherwise there is nothing to learn)"""
    for c in cols:
        h.assume(len(nn(F[c][1])) >= k)

def menu(h):
    pl = cs = None
    if h is not None:
        import polars as pl
        import polars.selectors as cs
    ex = ["t"]
    sel = lambda F: [c for c in numeric(F) if c not in ex]
    M = {}
    def impute(F, G):
        need(h, F, sel(F))
        return per(F, G, sel(F), mean_, lambda s, x: s if x is None else x)
    M["impute(numeric)"] = (lambda b: b.impute(cs.numeric()), impute)
    def center(F, G):
        if "a" not in F:
            return None
        need(h, F, ["a"])
        return per(F, G, ["a"], mean_, keepnull(lambda s, x: fsub(x, s)))
    M["center(a)"] = (lambda b: b.center(["a"]), center)
    def absmax(F, G, one=False):
        cl = [c for c in sel(F) if c == "a" or not one]
        if not cl:
            return None
        need(h, F, cl)
        for c in cl:
            h.assume(any(not eq(x, 0) for x in nn(F[c][1])))
        return per(F, G, cl, lambda v: max_([fabs(min_(v)), fabs(max_(v))]), keepnull(lambda s, x: fdiv(x, s)))
    M["scale(numeric, abs_max)"] = (lambda b: b.scale(cs.numeric(), method="abs_max"), absmax)
    M["scale(a, abs_max)"] = (lambda b: b.scale(["a"], method="abs_max"), lambda F, G: absmax(F, G, True))
    def wins(F, G):
        if "a" not in F or F["a"][0] != "f64":
            return None
        need(h, F, ["a"])
        return per(F, G, ["a"], lambda v: (quant_(v, 0.25, "linear"), quant_(v, 0.75, "linear")), keepnull(lambda s, x: s[0] if lt(x, s[0]) else s[1] if lt(s[1], x) else x), F["a"][0])
    M["winsorize(a)"] = (lambda b: b.winsorize(pl.col("a"), 0.25, 0.75, method="linear"), wins)
    def app(t):
        if "a" not in t or "b" not in t:
            return None
        return put(t, s=("f64", [None if x is None or y is None else fadd(x, y) for x, y in zip(fl_(t, "a"), fl_(t, "b"))]))
    M["append_expr(a + b as s)"] = (lambda b: b.append_expr((pl.col("a") + pl.col("b")).cast(pl.Float64).alias("s")), both(app))
    def app2(t):
        if "a" not in t or "t" not in t:
            return None
        return dict(a=t["a"], u=("f64", [None if x is None else fmul(K(2), x) for x in fl_(t, "a")]), t=t["t"])
    M["append_expr(select a, 2a as u, t)"] = (lambda b: b.append_expr(pl.col("a"), (pl.col("a") * 2.0).alias("u"), pl.col("t"), is_select=True), both(app2))
    M["filter(a > 0)"] = (lambda b: b.filter(pl.col("a") > 0), both(lambda t: None if "a" not in t else filt(t, lambda r: over(r["a"], 0))))
    M["filter(SQL: b is not null)"] = (lambda b: b.filter("b is not null"), both(lambda t: None if "b" not in t else filt(t, lambda r: r["b"] is not None)))
    M["rename(a <-> b)"] = (lambda b: b.rename({"a": "b", "b": "a"}), both(lambda t: None if "a" not in t or "b" not in t else put(t, a=t["b"], b=t["a"])))
    def ren(t):
        if "a" not in t:
            return None
        r = dict(t)
        r["z"] = r.pop("a")
        return r
    M["rename(a -> z)"] = (lambda b: b.rename({"a": "z"}), both(ren))
    M["drop(b)"] = (lambda b: b.drop(["b"]), both(lambda t: {c: v for c, v in t.items() if c != "b"}))
    M["drop(numeric)"] = (lambda b: b.drop(cs.numeric()), both(lambda t: {c: v for c, v in t.items() if c == "t" or c not in numeric(t)}))
    M["select(a, t)"] = (lambda b: b.select([pl.col("a"), pl.col("t")]), both(lambda t: None if "a" not in t or "t" not in t else {"a": t["a"], "t": t["t"]}))
    M["cast_bools"] = (lambda b: b.cast_bools(), both(lambda t: {c: (("u8", [None if x is None else int(br(x)) for x in v]) if d == "bool" else (d, v)) for c, (d, v) in t.items()}))
    M["int_to_float(f64)"] = (lambda b: b.int_to_float(f32=False), both(lambda t: {c: (("f64", [None if x is None else K(x) for x in v]) if d in ("i64", "u8", "i8") else (d, v)) for c, (d, v) in t.items()}))
    def nan(t):
        return {c: (d, [None if x is NAN else x for x in v] if d == "f64" else v) for c, (d, v) in t.items()}
    M["nan_to_null"] = (lambda b: b.nan_to_null(), both(nan))
    def oh(F, G):
        if "c" not in F or F["c"][0] != "str":
            return None
        u = sorted({x.concrete() for x in F["c"][1] if x is not None})
        h.assume(len(u) > 1)
        def f(X):
            r = {c: v for c, v in X.items() if c != "c"}
            for k in u:
                r["c_" + k] = ("u8", [int(x is not None and x.concrete() == k) for x in X["c"][1]])
            return r
        return f(F), f(G)
    M["one_hot_encode(string)"] = (lambda b: b.one_hot_encode(cs.string()), oh)
    def rh(t):
        if "c" not in t or t["c"][0] != "str":
            return None
        r = {c: v for c, v in t.items() if c != "c"}
        r["c>=q"] = ("i8", [-1 if x is None or x.concrete() not in ("p", "q") else int(x.concrete() == "q") for x in t["c"][1]])
        return r
    M["rank_hot_encode(c)"] = (lambda b: b.rank_hot_encode("c", ["p", "q"]), both(rh))
    def te(F, G):
        if "c" not in F or "t" not in F or F["c"][0] != "str":
            return None
        rows = [(x, y) for x, y in zip(F["c"][1], F["t"][1]) if x is not None]
        h.assume(len(rows) > 0)
        m = mean_(F["t"][1])
        code = {}
        for k in {x.concrete() for x, _ in rows}:
            v = [y for x, y in rows if x.concrete() == k]
            a = fdiv(T.ONE, fadd(T.ONE, fexp(fneg(K(Fr(len(v) - 1) / 2)))))
            code[k] = fadd(fmul(a, mean_(v)), fmul(fsub(T.ONE, a), m))
        return tuple(put(X, c=("f64", [fl(-1) if x is None or x.concrete() not in code else code[x.concrete()] for x in X["c"][1]])) for X in (F, G))
    M["target_encode(c, default -1)"] = (lambda b: b.target_encode(["c"], min_samples_leaf=1, smoothing=2.0, default=-1.0), te)
    def poly(t):
        if "a" not in t or "b" not in t:
            return None
        return put(t, **{"a*b": ("f64", [None if x is None or y is None else fmul(x, y) for x, y in zip(fl_(t, "a"), fl_(t, "b"))])})
    M["polynomial_features(a, b)"] = (lambda b: b.polynomial_features(["a", "b"], degree=2), both(poly))
    def ci(F, G):
        if "a" not in F:
            return None
        ok = [x for x in nn(F["a"][1]) if not over(x, 5)]
        h.assume(len(ok) > 0)
        m = mean_(ok)
        return tuple(put(X, a=("f64", [m if over(x, 5) else x for x in fl_(X, "a")])) for X in (F, G))
    M["conditional_impute(a > 5)"] = (lambda b: b.conditional_impute({"a": pl.col("a") > 5}), ci)
    def own(df, cols, target):
        m = df.lazy().select(pl.col(target).max()).collect().item(0, 0)
        return [pl.col(c) + m for c in cols]
    def cust(F, G):
        if "a" not in F or "t" not in F:
            return None
        h.assume(len(F["t"][1]) > 0)
        m = max_(F["t"][1])
        return tuple(put(X, a=("f64", [None if x is None else fadd(x, m) for x in fl_(X, "a")])) for X in (F, G))
    M["append_fit_func(a + max of target)"] = (lambda b: b.append_fit_func(own, pl.col("a")), cust)
    M["step from dict: drop(c)"] = (lambda b: b.append_step_from_dict({"name": "drop", "args": [["c"]]}), both(lambda t: {c: v for c, v in t.items() if c != "c"}))
    return M

# the columns a step needs and the ones it takes away (c: as strings; ai: a stays a float column)
NEEDS = {"center(a)": "a", "winsorize(a)": ["a", "ai"], "append_expr(a + b as s)": "ab", "append_expr(select a, 2a as u, t)": "a", "filter(a > 0)": "a", "filter(SQL: b is not null)": "b", "rename(a <-> b)": "ab",
         "rename(a -> z)": "a", "select(a, t)": "a", "one_hot_encode(string)": "c", "rank_hot_encode(c)": "c", "target_encode(c, default -1)": "c", "polynomial_features(a, b)": "ab", "conditional_impute(a > 5)": "a",
         "append_fit_func(a + max of target)": "a", "scale(numeric, abs_max)": "n", "scale(a, abs_max)": "a", "impute(numeric)": "n", "drop(b)": "b", "step from dict: drop(c)": "c"}
TAKES = {"append_expr(select a, 2a as u, t)": "bc", "rename(a <-> b)": ["ai"], "rename(a -> z)": "a", "drop(b)": "b", "drop(numeric)": "abn", "select(a, t)": "bc", "one_hot_encode(string)": "c", "rank_hot_encode(c)": "c",
         "target_encode(c, default -1)": "c", "step from dict: drop(c)": "c"}

def applies(steps):
    have = {"a", "b", "c", "n", "ai"}
    for s in steps:
        if not set(NEEDS.get(s, "")) <= have:
            return False
        have -= set(TAKES.get(s, ""))
    return True

def obligations(tier):
    th = tier == "thorough"
    obs = []
    def tables(h, nulls=True, nan=False, n=2, m=1):
        def mk(p, n):
            a = h.reals(p + "a", n, -1000, 1000)
            if nulls:
                a[0] = h.opt(a[0], p + "a0")
            if nan and p == "g":
                a[0] = h.special(p + "a0", a[0], ("nan",)) if a[0] is not None else None
            b = h.ints(p + "b", n, -50, 50)
            if nulls:
                b[-1] = h.opt(b[-1], p + "b")
            return dict(a=("f64", a), b=("i64", b), c=("str", [S(x) for x in (["p", "q", None, "p"][:n] if p == "f" else [h.pick(["p", "new", None], "gc")] + ["q"] * (n - 1))]),
                        f=("bool", [h.bool(f"{p}f{i}") for i in range(n)]), t=("f64", h.reals(p + "t", n, -1000, 1000)))
        return mk("f", n), mk("g", m)
    def same(h, r, t, lab, order=True):
        r = {k: c for k, c in h.back(r).cols.items()}
        h.true(set(r) == set(t), f"columns of {lab}")
        for k in t:
            if k in r:
                h.eq([v for v in r[k].vals], [v for v in t[k][1]], f"{k} of {lab}")
    def fr(h, t):
        return h.df(h.frame(**t))
    def build(h, F, steps, may=False, **kw):
        from polars_ds.modeling.pipeline import Blueprint
        def go():
            b = Blueprint(fr(h, F), target="t", **kw)
            for s in steps:
                b = s(b)
            return b
        return h.call(go, may_error=may)
    def run(h, names, nulls=True):
        M = menu(h)
        F0, G0 = tables(h, nulls, "nan_to_null" in names)
        F, G = F0, G0
        for nm in names:
            r = M[nm][1](F, G)
            if r is None or r[0] is None:
                return                     # a step that does not apply to what is left
            F, G = r
        b = build(h, F0, [M[nm][0] for nm in names])
        p = h.call(lambda: b.materialize())
        same(h, h.call(lambda: p.transform(fr(h, F0))), F, "the fitting frame")
        same(h, h.call(lambda: p.transform(fr(h, G0))), G, "another frame")
        from polars_ds.modeling.pipeline import Pipeline
        q = h.call(lambda: Pipeline.from_json_str(p.to_json()))
        same(h, h.call(lambda: q.transform(fr(h, G0))), G, "another frame, restored from JSON")
        return p, F, G, F0, G0
    names = list(menu(None))
    LEARN = ["impute(numeric)", "center(a)", "scale(a, abs_max)", "winsorize(a)", "target_encode(c, default -1)", "one_hot_encode(string)", "conditional_impute(a > 5)", "append_fit_func(a + max of target)"]
    for x in names:
        obs.append(Ob(f"one step: {x}", lambda h, x=x: run(h, [x]), "2 fitted rows, 1 new row", paths=4000 if "scale(n" in x else 600))
    pairs = names if th else [x for x in names if x != "scale(numeric, abs_max)"]
    for x in pairs:
        for y in pairs:
            if (x in LEARN or y in LEARN or th) and applies([x, y]):
                obs.append(Ob(f"two steps: {x}; {y}", lambda h, x=x, y=y: run(h, [x, y], th), "2 fitted rows, 1 new row" + ("" if th else ", no nulls"), paths=900, hard=True))
    TR = [["filter(a > 0)", "impute(numeric)", "center(a)"], ["impute(numeric)", "polynomial_features(a, b)", "scale(a, abs_max)"], ["append_expr(a + b as s)", "impute(numeric)", "one_hot_encode(string)"],
          ["rename(a <-> b)", "center(a)", "filter(a > 0)"], ["center(a)", "append_fit_func(a + max of target)", "winsorize(a)"], ["cast_bools", "impute(numeric)", "rank_hot_encode(c)"],
          ["nan_to_null", "impute(numeric)", "drop(b)"], ["conditional_impute(a > 5)", "center(a)", "append_expr(select a, 2a as u, t)"]]
    for t in TR:
        obs.append(Ob("three steps: " + "; ".join(t), lambda h, t=t: run(h, t), "2 fitted rows, 1 new row", paths=500, hard=True))
    # ---------------------------------------------------------------- options of the blueprint and the pipeline
    def case(h, low):
        F = dict(Ab=("f64", h.reals("x", 2)), cD=("i64", h.ints("y", 2, -9, 9)))
        G = dict(Ab=("f64", h.reals("u", 1)), cD=("i64", h.ints("v", 1, -9, 9)))
        from polars_ds.modeling.pipeline import Blueprint, Pipeline
        f = str.lower if low else str.upper
        b = Blueprint(fr(h, F), lowercase=low, uppercase=not low).center([f("Ab")])
        p = h.call(lambda: b.materialize())
        m = mean_(F["Ab"][1])
        for q, lab in ((p, ""), (h.call(lambda: Pipeline.from_dict(p.to_dict())), " (restored)")):
            same(h, h.call(lambda: q.transform(fr(h, G))), {f("Ab"): ("f64", [fsub(x, m) for x in G["Ab"][1]]), f("cD"): G["cD"]}, "another frame" + lab)
    obs.append(Ob("lowercase", lambda h: case(h, True), "2 fitted rows, 1 new row"))
    obs.append(Ob("uppercase", lambda h: case(h, False), "2 fitted rows, 1 new row"))
    def excl(h):
        """excluded columns and the target are not touched by fitted steps that pick columns by selector"""
        import polars.selectors as cs
        F, G = tables(h, False)
        b = build(h, F, [lambda b: b.center(cs.numeric()), lambda b: b.scale(cs.numeric(), method="min_max"), lambda b: b.winsorize(cs.numeric()), lambda b: b.impute(cs.numeric()), lambda b: b.drop(cs.string() | cs.by_name("b"))], exclude=["b"])
        h.assume(not eq(F["a"][1][0], F["a"][1][1]))
        p = h.call(lambda: b.materialize())
        r = h.back(h.call(lambda: p.transform(fr(h, G)))).cols
        for c in ("b", "t"):
            h.true(c in r, f"{c} is kept")
            h.eq(r[c].vals, G[c][1], c)
        h.true("c" not in r, "c is dropped")
    obs.append(Ob("target and excluded columns", excl, "2 fitted rows, 1 new row"))
    def io(h, ein, eout, extra, missing):
        import polars as pl
        F, G = tables(h, False)
        b = build(h, F, [lambda b: b.center(["a"]), lambda b: b.append_expr((pl.col("a") * 2.0).alias("w"))])
        p = h.call(lambda: b.materialize().ensure_features_io(ein, eout))
        m = mean_(F["a"][1])
        G2 = {k: v for k, v in G.items() if not (missing and k == "c")}
        if extra:
            G2["more"] = ("i64", [7])
        for q, lab in ((p, ""), (h.call(lambda: type(p).from_dict(p.to_dict())), " (restored)")):
            r = h.call(lambda: q.transform(fr(h, G2)), may_error=True)
            if (ein and (extra or missing)) or (eout and missing):
                h.true(r is ERR, "other columns than at the fit are refused" + lab)
                continue
            h.true(r is not ERR, "accepted" + lab)
            r = h.back(r).cols
            a = [fsub(x, m) for x in G["a"][1]]
            w = {k: v[1] for k, v in G2.items() if k != "more" or not eout}
            w.update(a=a, w=[fmul(K(2), x) for x in a])
            h.true(set(r) == set(w), "columns" + lab)
            for k in w:
                h.eq(r[k].vals, w[k], k + lab)
    for ein in (False, True):
        for eout in (False, True):
            for extra, missing in ((False, False), (True, False), (False, True)):
                obs.append(Ob(f"ensure_features_io({ein}, {eout})/{'extra' if extra else 'missing' if missing else 'same'} columns", lambda h, a=ein, b=eout, c=extra, d=missing: io(h, a, b, c, d), "2 fitted rows, 1 new row"))
    def sep(h, lazy):
        F, G = tables(h, False)
        b = build(h, F, [lambda b: b.center(["a"])])
        p = h.call(lambda: b.materialize())
        m = mean_(F["a"][1])
        x, y = h.call(lambda: p.transform(fr(h, G), return_lazy=lazy, separate=True))
        h.true(isinstance(x, h.pl.LazyFrame) == lazy and isinstance(y, h.pl.LazyFrame) == lazy, "lazy or eager as asked")
        w = {k: v for k, v in G.items() if k != "t"}
        w["a"] = ("f64", [fsub(v, m) for v in G["a"][1]])
        same(h, x, w, "X")
        same(h, y, {"t": G["t"]}, "y")
        from polars_ds.modeling.pipeline import Blueprint
        x2, y2 = h.call(lambda: b.transform(fr(h, G), separate=True))
        same(h, x2, w, "X of the blueprint")
        same(h, y2, {"t": G["t"]}, "y of the blueprint")
        p2 = h.call(lambda: Blueprint(fr(h, F)).center(["a"]).materialize())
        h.true(h.call(lambda: p2.transform(fr(h, G), separate=True), may_error=True) is ERR, "separate needs a target")
    obs.append(Ob("separate", lambda h: sep(h, False), "2 fitted rows, 1 new row"))
    obs.append(Ob("separate, lazy", lambda h: sep(h, True), "2 fitted rows, 1 new row"))
    def again(h):
        """materialising twice, and adding steps afterwards, leave the first pipeline alone"""
        F, G = tables(h, False)
        b = build(h, F, [lambda b: b.center(["a"])])
        p = h.call(lambda: b.materialize())
        b2 = b.drop(["b"])
        q = h.call(lambda: b2.materialize())
        m = mean_(F["a"][1])
        w = put(G, a=("f64", [fsub(v, m) for v in G["a"][1]]))
        same(h, h.call(lambda: p.transform(fr(h, G))), w, "first pipeline")
        same(h, h.call(lambda: p.transform(fr(h, G))), w, "first pipeline, second use")
        same(h, h.call(lambda: q.transform(fr(h, G))), {k: v for k, v in w.items() if k != "b"}, "second pipeline")
    obs.append(Ob("two pipelines from one blueprint", again, "2 fitted rows, 1 new row"))
    def badstep(h):
        F, _ = tables(h, False)
        for d in ({"args": []}, {"name": 3}, {"name": "no_such_step"}, {"name": "_get_target"}, {"name": "drop", "args": "a"}, {"name": "drop", "kwargs": []}):
            h.true(build(h, F, [lambda b: b.append_step_from_dict(d)], may=True) is ERR, f"{d} is refused")
        from polars_ds.modeling.pipeline import Pipeline
        p = h.call(lambda: build(h, F, [lambda b: b.center(["a"])]).materialize())
        for k in ("name", "transforms", "target", "feature_names_in_", "feature_names_out_", "ensure_features_in", "ensure_features_out"):
            d = p.to_dict()
            d.pop(k)
            h.true(h.call(lambda: Pipeline.from_dict(d), may_error=True) is ERR, f"a dict without {k} is refused")
    obs.append(Ob("malformed steps and dicts are refused", badstep, "concrete"))
    return obs
