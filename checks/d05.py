from .common import *
from .d01 import design, gram, det, normal, regular
from .d02 import sweeps

ASSUMPTIONS = ["coefficients and data are finite floats (NaN and null where the obligation adds them); a bias is either 0 or larger than 1e-9 in magnitude", "fitted designs have a regular Gram matrix",
               "predict_df reads a null feature as a missing term of the sum (polars' sum_horizontal); the frame obligations for it have no nulls"]
POL = {"skip": None, "zero": Fraction(0), "one": Fraction(1), "1.25": Fraction(5, 4), "-2": Fraction(-2), "raise": "raise"}
CS = [[1, 2, -1, 3, 1, 4], [2, -1, 1, 0, 3, 1]]

def obligations(tier):
    th = tier == "thorough"
    obs = []
    def add(name, fn, bounds, paths=600):
        obs.append(Ob(name, fn, bounds, paths=paths))
    def clean(h, b):
        h.assume(bor(feq(b, T.ZERO), bor(flt(K(Fraction(1e-9)), b), flt(b, K(-Fraction(1e-9))))))
    def make(h, kind, b, bias, names=None):
        m = h.models()
        cls = m.LR if kind == "LR" else m.ElasticNet
        return h.call(lambda: cls.from_values(h.floats(b), h.floats([bias])[0] if bias is not None else 0.0, feature_names_in_=names))
    # ---------------------------------------------------------------- explicit values
    def values(h, kind, p, n, hb):
        b = h.reals("b", p, -1000, 1000)
        bias = h.real("bias", -1000, 1000) if hb else None
        if hb:
            clean(h, bias)
        X = [h.reals(f"x{i}_", p, -1000, 1000) for i in range(n)]
        mod = make(h, kind, b, bias)
        h.true(bool(mod.is_fit()), "is_fit")
        got = mod.coeffs()
        h.eq(len(got), p, "number of coefficients")
        for j in range(p):
            h.eq(num(got[j]), b[j], f"coefficient {j}")
        h.eq(num(mod.bias()), bias if hb else T.ZERO, "bias")
        pr = h.call(lambda: mod.predict(h.array(X)))
        h.eq(list(pr.shape), [n, 1], "shape of the predictions")
        for i in range(n):
            h.eq(num(pr[i][0]), fadd(dot_(X[i], b), bias if hb else T.ZERO), f"prediction {i}")
    for kind in ("LR", "ElasticNet"):
        for p, n, hb in ((1, 1, False), (2, 2, True), (1, 3, True), (3, 2, False), (3, 1, True)):
            add(f"{kind}.from_values/features={p},rows={n},bias={hb}", lambda h, a=(kind, p, n, hb): values(h, *a), "all coefficients, biases and features")
    def again(h, kind):
        """a model that is given other values forgets the first ones; wrong widths are rejected"""
        b = h.reals("b", 2, -1000, 1000)
        c = h.reals("c", 2, -1000, 1000)
        bias = h.real("bias", -1000, 1000)
        clean(h, bias)
        mod = make(h, kind, b, bias)
        low = mod._lr if kind == "LR" else mod._en
        import numpy as np
        h.call(lambda: low.set_coeffs_and_bias(np.array(h.floats(c)), 0.0))
        for j in range(2):
            h.eq(num(mod.coeffs()[j]), c[j], f"new coefficient {j}")
        h.eq(num(mod.bias()), T.ZERO, "new bias")
        X = [h.reals("x", 2, -1000, 1000)]
        h.eq(num(h.call(lambda: mod.predict(h.array(X)))[0][0]), dot_(X[0], c), "prediction of the new model")
        h.true(h.call(lambda: mod.predict(h.array([h.reals("z", 3)])), may_error=True) is ERR, "three features for a model of two are an error")
        h.true(h.call(lambda: mod.predict(h.array([h.reals("z", 1)])), may_error=True) is ERR, "one feature for a model of two is an error")
    for kind in ("LR", "ElasticNet"):
        add(f"{kind}.set_coeffs_and_bias/features=2", lambda h, kind=kind: again(h, kind), "all values")
    def unfit(h, kind):
        m = h.models()
        mod = {"LR": lambda: m.LR(), "ElasticNet": lambda: m.ElasticNet(0.5, 0.5), "OnlineLR": lambda: m.OnlineLR()}[kind]()
        h.true(not mod.is_fit(), "a new model is not fitted")
        x = h.array([[h.real("x")]])
        h.true(h.call(lambda: mod.predict(x), may_error=True) is ERR, "predict before fit is an error")
        h.true(h.call(lambda: mod.coeffs(), may_error=True) is ERR, "coefficients before fit are an error")
        if kind == "OnlineLR":
            h.true(h.call(lambda: mod.update(x, h.array([[h.real("y")]])), may_error=True) is ERR, "update before fit is an error")
            h.true(h.call(lambda: mod.inv(), may_error=True) is ERR, "inverse before fit is an error")
    for kind in ("LR", "ElasticNet", "OnlineLR"):
        add(f"{kind}: not fitted", lambda h, kind=kind: unfit(h, kind), "every input")
    # ---------------------------------------------------------------- predict_df
    def pdf(h, kind, p, n, hb, lazy, name):
        b = h.reals("b", p, -1000, 1000)
        bias = h.real("bias", -1000, 1000) if hb else None
        if hb:
            clean(h, bias)
        names = [f"f{j}" for j in range(p)]
        X = [h.reals(f"x{j}_", n, -1000, 1000) for j in range(p)]
        o = h.reals("o", n)
        # columns in another order than the features, and one that is not a feature
        cols = {"other": ("f64", o)}
        for j in reversed(range(p)):
            cols[names[j]] = ("f64", X[j])
        mod = make(h, kind, b, bias, names)
        kw = {} if name is None else {"name": name}
        r = h.back(h.call(lambda: mod.predict_df(h.df(h.frame(**cols), lazy), **kw)))
        name = name or "prediction"
        h.eq(list(r.cols), list(cols) + [name], "columns")
        for k in cols:
            h.eq(list(r.cols[k].vals), cols[k][1], f"column {k} is kept")
        for i in range(n):
            h.eq(r.cols[name].vals[i], fadd(fsum_(fmul(b[j], X[j][i]) for j in range(p)), bias if hb else T.ZERO), f"prediction {i}")
    for kind in ("LR", "ElasticNet"):
        for p, n, hb, lazy, name in ((1, 2, False, False, None), (2, 2, True, True, "yhat"), (3, 1, True, False, "yhat")):
            add(f"{kind}.predict_df/features={p},rows={n},bias={hb},lazy={lazy}", lambda h, a=(kind, p, n, hb, lazy, name): pdf(h, *a), "all coefficients, biases and frames")
    def nonames(h, kind):
        mod = make(h, kind, h.reals("b", 1), None)
        h.true(h.call(lambda: mod.predict_df(h.df(h.frame(a=("f64", h.reals("a", 2))))), may_error=True) is ERR, "no feature names")
        mod.set_input_features(["a"])
        r = h.back(h.call(lambda: mod.predict_df(h.df(h.frame(a=("f64", h.reals("a", 2)))))))
        h.eq(len(r.cols["prediction"].vals), 2, "rows")
    for kind in ("LR", "ElasticNet"):
        add(f"{kind}.predict_df needs names", lambda h, kind=kind: nonames(h, kind), "every frame")
    # ---------------------------------------------------------------- fit
    def lam_(h, l2):
        if not l2:
            return None, 0.0
        P = h.param("lam", 0, 100, strict=True)
        return P.v, P.api
    def check_lr(h, mod, D, y, bias, lam, p):
        b = [num(v) for v in mod.coeffs()]
        h.eq(len(b), p, "number of coefficients")
        z = num(mod.bias())
        h.true(bool(mod.is_fit()), "is_fit")
        normal(h, b + ([z] if bias else []), D, y, None, lam, (p,) if bias else ())
        if not bias:
            h.eq(z, T.ZERO, "bias")
        return b, z
    def drop(h):
        if h.mode == "real":
            from symx.harness import Skip
            raise Skip()
        h.assume(False)
    def fit(h, n, p, bias, l2, solver, order="C", conc=False, policy=None, where=(), yshape=1):
        X = [[K(CS[j][i]) if conc else h.real(f"x{j}{i}", -1000, 1000) for i in range(n)] for j in range(p)]
        y = h.reals("y", n, -1000, 1000)
        lam, api = lam_(h, l2)
        nx = [[h.flag(f"nan_x{j}{i}") if j in where else False for i in range(n)] for j in range(p)]
        ny = [h.flag(f"nan_y{i}") if "y" in where else False for i in range(n)]
        rows = list(range(n))
        v = POL.get(policy)
        some = any(any(r) for r in nx) or any(ny)
        if policy == "skip":
            rows = [i for i in rows if not ny[i] and not any(nx[j][i] for j in range(p))]
        elif policy:
            rows = [i for i in rows if not ny[i]]
        Xf = [[K(v) if nx[j][i] and isinstance(v, Fraction) else X[j][i] for i in range(n)] for j in range(p)]
        D = design(Xf, bias)
        mod = h.models().LR(has_bias=bias, lambda_=api, solver=solver)
        xa = h.array([[NAN if nx[j][i] else X[j][i] for j in range(p)] for i in range(n)], order)
        yv = [NAN if ny[i] else y[i] for i in range(n)]
        ya = h.array(yv if yshape == 1 else [[t] for t in yv])
        kw = {"null_policy": policy} if policy else {}
        go = lambda: mod.fit(xa, ya, **kw)
        if policy == "raise" and some:
            return h.true(h.call(go, may_error=True) is ERR, "NaN is an error")
        if len(rows) < p:
            return h.true(h.call(go, may_error=True) is ERR, "fewer rows than features are an error")
        regular(h, gram([D[i] for i in rows], None, lam, (p,) if bias else ()))
        r = h.call(go)
        h.true(r is mod, "fit returns the model")
        b, z = check_lr(h, mod, [D[i] for i in rows], [y[i] for i in rows], bias, lam, p)
        if not policy:
            q = h.reals("q", p, -1000, 1000)
            clean(h, z)
            h.eq(num(h.call(lambda: mod.predict(h.array([q])))[0][0]), fadd(dot_(q, b), z), "prediction at a new row")
    for solver in ("qr", "svd", "cholesky"):
        add(f"LR.fit[{solver}]/n=3,features=1,bias", lambda h, s=solver: fit(h, 3, 1, True, False, s), "all data")
        add(f"LR.fit[{solver},l2]/n=3,features=2", lambda h, s=solver: fit(h, 3, 2, False, True, s, conc=True), "fixed design, every penalty, all targets")
        add(f"LR.fit[{solver},l2]/n=4,features=2,bias", lambda h, s=solver: fit(h, 4, 2, True, True, s, "F", conc=True, yshape=2), "fixed design with intercept, every penalty, all targets")
    add("LR.fit/n=2,features=2", lambda h: fit(h, 2, 2, False, False, "qr"), "all data")
    add("LR.fit/n=2,features=1,fortran", lambda h: fit(h, 2, 1, False, False, "qr", "F", yshape=2), "all data")
    for policy in POL:
        add(f"LR.fit[{policy}]/n=3,features=1", lambda h, policy=policy: fit(h, 3, 1, False, False, "qr", conc=True, policy=policy, where=(0, "y")), "fixed feature, every pattern of NaN, all targets")
        add(f"LR.fit[{policy}]/n=4,features=2,bias", lambda h, policy=policy: fit(h, 4, 2, True, False, "qr", conc=True, policy=policy, where=(1,)), "two fixed features and intercept, every pattern of NaN in one, all targets")
    def badpolicy(h, how):
        mod = h.models().LR()
        for pol in ("nan", "inf", "what"):
            if how == "fit":
                r = h.call(lambda: mod.fit(h.array([[h.real("x")]]), h.array([h.real("y")]), null_policy=pol), may_error=True)
            else:
                r = h.call(lambda: mod.fit_df(h.df(h.frame(x=("f64", h.reals("x", 2)), y=("f64", h.reals("y", 2)))), ["x"], "y", null_policy=pol), may_error=True)
            h.true(r is ERR, f"null_policy {pol} is an error")
    for how in ("fit", "fit_df"):
        add(f"LR.{how}[invalid null_policy]", lambda h, how=how: badpolicy(h, how), "every input")
    def mism(h):
        mod = h.models().LR()
        h.true(h.call(lambda: mod.fit(h.array([[h.real("x0")], [h.real("x1")]]), h.array([h.real("y")])), may_error=True) is ERR, "rows of X and y differ")
        en = h.models().ElasticNet(0.5, 0.5)
        h.true(h.call(lambda: en.fit(h.array([[h.real("x0")], [h.real("x1")]]), h.array([h.real("y")])), may_error=True) is ERR, "rows of X and y differ")
    add("fit with rows that do not match", mism, "every input")
    # ---------------------------------------------------------------- fit_df
    def fdf(h, kind, n, p, bias, policy, where, lazy, l2=False):
        X = [[K(CS[j][i]) for i in range(n)] for j in range(p)]
        y = h.reals("y", n, -1000, 1000)
        null = {j: [h.flag(f"null_x{j}{i}") if j in where else False for i in range(n)] for j in range(p)}
        null["y"] = [h.flag(f"null_y{i}") if "y" in where else False for i in range(n)]
        lam, api = lam_(h, l2)
        some = any(any(r) for r in null.values())
        v = POL[policy]
        cols = {"y": ("f64", [None if null["y"][i] else y[i] for i in range(n)]), "other": ("f64", [None] * n)}
        names = [f"f{j}" for j in range(p)]
        for j in reversed(range(p)):
            cols[names[j]] = ("f64", [None if null[j][i] else X[j][i] for i in range(n)])
        rows = list(range(n)) if policy == "raise" else [i for i in range(n) if not null["y"][i] and (policy != "skip" or not any(null[j][i] for j in range(p)))]
        Xf = [[K(v) if null[j][i] and isinstance(v, Fraction) else X[j][i] for i in range(n)] for j in range(p)]
        D = design(Xf, bias)
        m = h.models()
        mod = m.LR(has_bias=bias, lambda_=api) if kind == "LR" else m.ElasticNet(0.5, 0.25, has_bias=bias, tol=0.0, max_iter=1)
        go = lambda: mod.fit_df(h.df(h.frame(**cols), lazy), names, "y", null_policy=policy)
        if policy == "raise" and some:
            return h.true(h.call(go, may_error=True) is ERR, "nulls are an error")
        if len(rows) < (p if kind == "LR" else 1):
            return h.true(h.call(go, may_error=True) is ERR, "not enough rows are an error")
        Dr, yr = [D[i] for i in rows], [y[i] for i in rows]
        if kind == "LR":
            regular(h, gram(Dr, None, lam, (p,) if bias else ()))
        h.call(go)
        h.eq(list(mod.feature_names_in_), names, "feature names")
        if kind == "LR":
            b, z = check_lr(h, mod, Dr, yr, bias, lam, p)
        else:
            s = sweeps(h, Dr, yr, K(Fraction(1, 2)), K(Fraction(1, 4)), bias, 1)
            b, z = [num(t) for t in mod.coeffs()], num(mod.bias())
            h.eq(b, s[:p], "coefficients of one sweep")
            h.eq(z, s[p] if bias else T.ZERO, "bias of one sweep")
        if not some:
            clean(h, z)
            r = h.back(h.call(lambda: mod.predict_df(h.df(h.frame(**{k: ("f64", h.reals("n" + k, 1, -1000, 1000)) for k in names})))))
            h.eq(r.cols["prediction"].vals[0], fadd(fsum_(fmul(b[j], r.cols[names[j]].vals[0]) for j in range(p)), z), "prediction on a new frame")
    for policy in POL:
        add(f"LR.fit_df[{policy}]/n=3,features=1", lambda h, policy=policy: fdf(h, "LR", 3, 1, False, policy, (0, "y"), False), "fixed feature, every null pattern, all targets")
        add(f"LR.fit_df[{policy},lazy]/n=4,features=2,bias", lambda h, policy=policy: fdf(h, "LR", 4, 2, True, policy, (0,), True), "fixed features and intercept, every null pattern in one feature")
        add(f"ElasticNet.fit_df[{policy}]/n=3,features=1,bias", lambda h, policy=policy: fdf(h, "EN", 3, 1, True, policy, (0,), False), "fixed feature and intercept, every null pattern, all targets")
    add("LR.fit_df[l2]/n=3,features=2", lambda h: fdf(h, "LR", 3, 2, False, "skip", (), False, l2=True), "every penalty, all targets")
    add("LR.fit_df/n=3,features=1,bias", lambda h: fdf(h, "LR", 3, 1, True, "skip", (), True), "all targets")
    # ---------------------------------------------------------------- online updates
    def online(h, n, p, bias, l2, ops, conc=False, nan=False):
        """fit on n rows, then updates: '+' adds a row, '-' removes an earlier one, 'c' adds a row with any weight"""
        lam, api = lam_(h, l2)
        k = len([o for o in ops if o != "-"])
        X = [[K(CS[j][i]) if conc else h.real(f"x{j}{i}", -1000, 1000) for j in range(p)] for i in range(n + k)]
        y = h.reals("y", n + k, -1000, 1000)
        D = [r + ([K(1)] if bias else []) for r in X]
        nop = (p,) if bias else ()
        mod = h.models().OnlineLR(lambda_=api, has_bias=bias)
        w = {i: K(1) for i in range(n)}
        def chk(what, first=False):
            rows = sorted(w)
            G = gram([D[i] for i in rows], [w[i] for i in rows], lam, nop)
            return rows, G
        rows, G = chk("fit")
        regular(h, G)
        h.call(lambda: mod.fit(h.array(X[:n]), h.array(y[:n])))
        def spec(what):
            rows, G = chk(what)
            b = [num(v) for v in mod.coeffs()] + ([num(mod.bias())] if bias else [])
            normal(h, b, [D[i] for i in rows], [y[i] for i in rows], [w[i] for i in rows], lam, nop, f"{what}: normal equation")
            iv = mod.inv()
            q = len(D[0])
            h.eq(list(iv.shape), [q, q], f"{what}: shape of the inverse")
            for a in range(q):
                for c in range(q):
                    h.zero(fsub(fsum_(fmul(G[a][e], num(iv[e][c])) for e in range(q)), K(1) if a == c else T.ZERO), f"{what}: inverse [{a}][{c}]", scale=1e3)
        spec("fit")
        nx = n
        for s, o in enumerate(ops):
            if o == "-":
                i = s % n if s % n in w else min(w)
                c = -1.0
                del w[i]
            else:
                i = nx
                nx += 1
                c = 1.0
                w[i] = K(1)
                if o == "c":
                    P = h.param("c", 0.01, 100)
                    c, w[i] = P.api, P.v
            rows, G = chk("")
            regular(h, G)
            if nan and h.flag(f"nan{s}"):
                bad = h.pick(["x", "y"], f"where{s}")
                h.call(lambda: mod.update(h.array([NAN if (bad == "x" and j == 0) else X[i][j] for j in range(p)]), h.array([NAN if bad == "y" else y[i]]), c))
                if o == "-":
                    w[i] = K(1)
                else:
                    del w[i]
                spec(f"update {s} with NaN changes nothing")
                continue
            form = s % 3
            xa = h.array(X[i]) if form != 1 else h.array([X[i]])
            ya = h.floats([y[i]])[0] if form == 0 else h.array([y[i]]) if form == 1 else h.array([[y[i]]])
            h.call(lambda: mod.update(xa, ya, c) if o != "+" else mod.update(xa, ya))
            spec(f"update {s}")
        q = h.reals("q", p, -1000, 1000)
        b, z = [num(v) for v in mod.coeffs()], num(mod.bias())
        clean(h, z)
        h.eq(num(h.call(lambda: mod.predict(h.array([q])))[0][0]), fadd(dot_(q, b), z), "prediction at a new row")
    for n, p, bias, l2, ops, conc in ((2, 1, False, False, "+", False), (1, 1, False, False, "+-", False), (2, 1, False, True, "c", False), (3, 1, True, False, "+-+", True), (3, 2, False, False, "c+", True), (3, 2, True, True, "+", True), (3, 1, True, False, "-+", True), (4, 2, True, False, "-+", True)) + (((2, 1, True, False, "+", False), (3, 1, False, True, "+c-", False)) if th else ()):
        add(f"OnlineLR[{ops}]/n={n},features={p},bias={bias},l2={l2}" + (",fixed design" if conc else ""), lambda h, a=(n, p, bias, l2, ops, conc): online(h, *a), "fit, then updates; after each one coefficients and inverse are those of a fit on the rows in force")
    add("OnlineLR[NaN]/n=2,features=1", lambda h: online(h, 2, 1, False, False, "++", True, True), "updates with NaN are ignored")
    add("OnlineLR[NaN]/n=3,features=1,bias", lambda h: online(h, 3, 1, True, False, "+-", True, True), "updates with NaN are ignored")
    def onl_nanfit(h):
        i = h.pick(["x", "y"], "where")
        mod = h.models().OnlineLR()
        h.true(h.call(lambda: mod.fit(h.array([[NAN if i == "x" else h.real("x")]]), h.array([NAN if i == "y" else h.real("y")])), may_error=True) is ERR, "NaN in the initial fit is an error")
        h.true(not mod.is_fit(), "still not fitted")
    add("OnlineLR.fit[NaN]", onl_nanfit, "every input")
    def onl_values(h, p, hb, upd):
        import numpy as np
        b = h.reals("b", p, -1000, 1000)
        bias = h.real("bias", -1000, 1000) if hb else T.ZERO
        if hb:
            clean(h, bias)
            h.assume(bnot(feq(bias, T.ZERO)))
        q = p + (1 if hb else 0)
        # the state after fitting some data with Gram matrix G: inv = G^-1, X'y = G b
        G = [[K(v) for v in r] for r in ([[2]] if q == 1 else [[2, 1], [1, 3]] if q == 2 else [[2, 1, 0], [1, 3, 1], [0, 1, 4]])]
        d = det(G)
        def minor(i, j):
            return [[G[r][c] for c in range(q) if c != j] for r in range(q) if r != i]
        inv = [[fdiv(fmul(K((-1) ** (i + j)), det(minor(j, i)) if q > 1 else K(1)), d) for j in range(q)] for i in range(q)]
        m = h.models()
        mod = h.call(lambda: m.OnlineLR.from_coeffs_bias_inverse(h.floats(b), h.floats([bias])[0] if hb else 0.0, h.array(inv)))
        h.true(bool(mod.is_fit()), "is_fit")
        for j in range(p):
            h.eq(num(mod.coeffs()[j]), b[j], f"coefficient {j}")
        h.eq(num(mod.bias()), bias, "bias")
        iv = mod.inv()
        for i in range(q):
            for j in range(q):
                h.eq(num(iv[i][j]), inv[i][j], "inverse")
        if not upd:
            return
        x = h.reals("x", p, -100, 100)
        y = h.real("y", -100, 100)
        xx = x + ([K(1)] if hb else [])
        full = b + ([bias] if hb else [])
        h.call(lambda: mod.update(h.array(x), h.floats([y])[0]))
        nb = [num(v) for v in mod.coeffs()] + ([num(mod.bias())] if hb else [])
        for a in range(q):
            # (G + x x') nb = G b + x y
            lhs = fsum_(fmul(fadd(G[a][c], fmul(xx[a], xx[c])), nb[c]) for c in range(q))
            rhs = fadd(dot_(G[a], full), fmul(xx[a], y))
            h.zero(fsub(lhs, rhs), f"updated coefficients {a}", scale=1e7)
    for p, hb in ((1, False), (1, True), (2, False), (2, True)):
        add(f"OnlineLR.from_coeffs_bias_inverse/features={p},bias={hb}", lambda h, a=(p, hb, True): onl_values(h, *a), "all coefficients and biases, one inverse, then an update with any row")
    def onl_shape(h):
        m = h.models()
        h.true(h.call(lambda: m.OnlineLR.from_coeffs_bias_inverse(h.floats(h.reals("b", 2)), 0.0, h.array([[K(1)]])), may_error=True) is ERR, "an inverse of another size is an error")
    add("OnlineLR.from_coeffs_bias_inverse[shape]", onl_shape, "every input")
    return obs
