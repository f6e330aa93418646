from .common import *

ASSUMPTIONS = ["values are finite floats", "the Gram matrix X'WX (+ penalty) is regular; what a singular design returns is unspecified", "factorisations of a regular matrix (QR, Cholesky, SVD) solve exactly"]

def gram(X, w=None, lam=None, nopen=()):
    p = len(X[0])
    G = [[fsum_(fmul(fmul(w[i], X[i][a]) if w else X[i][a], X[i][b]) for i in range(len(X))) for b in range(p)] for a in range(p)]
    if lam is not None:
        for a in range(p):
            if a not in nopen:
                G[a][a] = fadd(G[a][a], lam)
    return G

def det(M):
    if len(M) == 1:
        return M[0][0]
    return fsum_(fmul(K((-1) ** j), fmul(M[0][j], det([r[:j] + r[j + 1:] for r in M[1:]]))) for j in range(len(M)))

def regular(h, G):
    d = det(G)
    h.assume(bnot(cmp0(d, "eq0")))
    if h.mode == "real":
        # an exact statement about reals: skip inputs whose design is singular to working precision
        import numpy as np
        m = np.array([[to_py(v) for v in r] for r in G], dtype=float)
        if not np.all(np.isfinite(m)) or np.linalg.cond(m) > (100 if getattr(h, "single", False) else 1e7):
            from symx.harness import Skip
            raise Skip()

def normal(h, b, X, y, w=None, lam=None, nopen=(), label="normal equation"):
    """X' W (y - X b) = lam b"""
    p = len(X[0])
    h.eq(len(b), p, "number of coefficients")
    for a in range(p):
        if isinstance(b[a], FSpec) or b[a] is None:
            h.eq(b[a], T.ZERO, "coefficient")
        terms = []
        for i in range(len(X)):
            wx = fmul(w[i], X[i][a]) if w else X[i][a]
            terms.append(fmul(wx, y[i]))
            for c in range(p):
                terms.append(fneg(fmul(fmul(wx, X[i][c]), b[c])))
        if lam is not None and a not in nopen:
            terms.append(fneg(fmul(lam, b[a])))
        sc = 1.0
        if h.mode == "real":
            sc = sum(abs(to_py(t)) for t in terms)
        h.zero(fsum_(terms), f"{label} {a}", scale=sc)

def design(cols, bias):
    n = len(cols[0])
    return [[c[i] for c in cols] + ([K(1)] if bias else []) for i in range(n)]

def f32(h, on):
    import polars_ds.config as cfg
    cfg.LIN_REG_EXPR_F64 = not on
    if on:
        h.tol = 2e-3

class F32:
    def __init__(self, h, on):
        self.h, self.on = h, on
    def __enter__(self):
        f32(self.h, self.on)
    def __exit__(self, *a):
        import polars_ds.config as cfg
        cfg.LIN_REG_EXPR_F64 = True

def data(h, n, p, conc=0):
    """p feature columns of n values (the first `conc` rows concrete when polynomials would grow too large)"""
    cs = [[Fraction(v) for v in (1, 2, -1, 3, 0, 5)], [Fraction(v) for v in (2, -1, 1, 0, 4, 1)], [Fraction(v) for v in (0, 1, 3, -2, 1, 1)]]
    X = [[K(cs[j][i]) if i < conc else h.real(f"x{j}{i}") for i in range(n)] for j in range(p)]
    y = h.reals("y", n)
    return X, y

def obligations(tier):
    th = tier == "thorough"
    obs = []
    def lr(h, n, p, bias, solver="qr", l2=False, weighted=False, how="coeffs", single=False, conc=0, chunks=None):
        X, y = data(h, n, p, conc)
        D = design(X, bias)
        nop = (p,) if bias else ()
        kw = dict(add_bias=bias, solver=solver)
        lam = w = None
        if l2:
            P = h.param("lam", 0, 100, strict=True)
            lam = P.v
            kw["l2_reg"] = P.api
        cols = {f"x{j}": ("f64", X[j], chunks) for j in range(p)}
        cols["y"] = ("f64", y)
        if weighted:
            w = h.reals("w", n, 0)
            pos(h, *w)
            cols["w"] = ("f64", w)
            kw["weights"] = "w"
        regular(h, gram(D, w, lam, nop))
        fr = h.frame(**cols)
        xs = [f"x{j}" for j in range(p)]
        with F32(h, single):
            if how == "coeffs":
                r = h.run(fr, lambda pds, pl: pds.lin_reg(*xs, target="y", **kw))
                h.eq(len(r), 1, "rows")
                b = r[0].v
                normal(h, b, D, y, w, lam, nop)
            else:
                r = h.run(fr, lambda pds, pl: [pds.lin_reg(*xs, target="y", **kw).alias("c").first(), pds.lin_reg(*xs, target="y", return_pred=True, **kw).alias("p").implode()])
                b = r["c"][0].v
                pr = r["p"][0].v
                normal(h, b, D, y, w, lam, nop)
                h.eq(len(pr), n, "rows of predictions")
                for i in range(n):
                    f = dot_(D[i], b)
                    h.eq(pr[i][0], f, f"prediction {i}")
                    h.eq(pr[i][1], fsub(y[i], f), f"residual {i}")
    for n, p, bias in ((2, 1, False), (3, 1, False), (2, 1, True), (3, 1, True), (2, 2, False), (3, 2, False)) + (((4, 2, False), (4, 1, True)) if th else ()):
        obs.append(Ob(f"lin_reg[qr]/n={n},features={p},bias={bias}", lambda h, n=n, p=p, bias=bias: lr(h, n, p, bias), f"{n} rows, {p} features, all real data with a regular Gram matrix"))
    obs.append(Ob("lin_reg[qr]/n=4,features=2,bias=True", lambda h: lr(h, 4, 2, True, conc=3), "4 rows, 2 features and intercept, 3 rows of features fixed"))
    for s in ("svd", "choleskey"):
        obs.append(Ob(f"lin_reg[{s}]/n=3,features=2", lambda h, s=s: lr(h, 3, 2, False, solver=s), "3 rows, 2 features"))
        obs.append(Ob(f"lin_reg[{s},l2]/n=3,features=1,bias", lambda h, s=s: lr(h, 3, 1, True, solver=s, l2=True), "3 rows, 1 feature, intercept, every penalty"))
    for n, p, bias in ((2, 1, False), (3, 1, True), (3, 2, False)):
        obs.append(Ob(f"lin_reg[ridge]/n={n},features={p},bias={bias}", lambda h, n=n, p=p, bias=bias: lr(h, n, p, bias, l2=True), "every penalty in (0, 100)"))
    obs.append(Ob("lin_reg[ridge]/n=2,features=2,bias=True", lambda h: lr(h, 3, 2, True, l2=True, conc=2), "every penalty in (0, 100), 2 rows of features fixed"))
    for s in ("qr", "svd", "choleskey"):
        obs.append(Ob(f"lin_reg[weighted,{s}]/n=3,features=1,bias", lambda h, s=s: lr(h, 3, 1, True, solver=s, weighted=True), "all positive weights"))
    obs.append(Ob("lin_reg[weighted]/n=3,features=2", lambda h: lr(h, 3, 2, False, weighted=True, conc=1), "all positive weights"))
    obs.append(Ob("lin_reg[weighted]/n=2,features=1", lambda h: lr(h, 2, 1, False, weighted=True), "all positive weights"))
    for bias, wt, l2 in ((False, False, False), (True, False, False), (True, False, True), (True, True, False)):
        obs.append(Ob(f"lin_reg[return_pred]/n=3,features=1,bias={bias},weights={wt},l2={l2}", lambda h, bias=bias, wt=wt, l2=l2: lr(h, 3, 1, bias, weighted=wt, l2=l2, how="pred"), "predictions X b and residuals y - X b"))
    obs.append(Ob("lin_reg[return_pred]/n=3,features=2", lambda h: lr(h, 3, 2, False, how="pred"), "predictions X b and residuals y - X b"))
    obs.append(Ob("lin_reg[chunks]/n=3,features=2", lambda h: lr(h, 3, 2, False, how="pred", chunks=[1, 2]), "feature columns in two chunks"))
    for bias, wt, l2, how in ((True, False, False, "coeffs"), (True, False, True, "pred"), (True, True, False, "pred")):
        obs.append(Ob(f"lin_reg[f32,{how}]/n=3,features=1,bias={bias},weights={wt},l2={l2}", lambda h, bias=bias, wt=wt, l2=l2, how=how: lr(h, 3, 1, bias, weighted=wt, l2=l2, how=how, single=True), "single precision plugins over reals"))
    # integer features, feature expressions, order of the coefficients
    def ints(h):
        x = h.ints("x", 3, -5, 5)
        y = h.ints("y", 3, -5, 5)
        X, Y = [K(v) for v in x], [K(v) for v in y]
        D = design([X], True)
        regular(h, gram(D))
        r = h.run(h.frame(x=("i64", x), y=("i32", y)), lambda pds, pl: pds.lin_reg("x", target="y", add_bias=True))
        normal(h, r[0].v, D, Y)
    obs.append(Ob("lin_reg[integers]/n=3", ints, "integer columns in [-5, 5]"))
    def exprs(h):
        X, y = data(h, 3, 2)
        D = [[X[0][i] + X[1][i], fmul(K(2), X[1][i])] for i in range(3)]
        regular(h, gram(D))
        r = h.run(h.frame(a=("f64", X[0]), b=("f64", X[1]), y=("f64", y)), lambda pds, pl: pds.lin_reg("a + b", pl.col("b") * 2, target=pl.col("y")))
        normal(h, r[0].v, D, y)
    obs.append(Ob("lin_reg[expressions]/n=3", exprs, "features given as SQL text and expressions"))
    def forms(h):
        X, y = data(h, 3, 1)
        o = [1.0, -2.0, 0.5]
        D = [[X[0][i], K(o[i])] for i in range(3)]
        regular(h, gram(D))
        kind = h.pick(("series", "array"), "second feature")
        def f(pds, pl):
            import numpy as np
            return pds.lin_reg(pl.col("a"), pl.Series("o", o) if kind == "series" else np.array(o), target="y")
        normal(h, h.run(h.frame(a=("f64", X[0]), y=("f64", y)), f)[0].v, D, y)
    obs.append(Ob("lin_reg[series and arrays]/n=3", forms, "a feature given as a series or an array"))
    def other(h):
        for bad in (3, None, ["a"]):
            h.true(h.call(lambda: __import__("polars_ds").lin_reg(bad, target="y"), may_error=True) is ERR, f"{bad!r} is refused as a feature")
    obs.append(Ob("lin_reg refuses other features", other, "a number, None, a list"))
    def old(h, pred):
        X, y = data(h, 3, 1)
        w = h.reals("w", 3, 0)
        pos(h, *w)
        D = design(X, True)
        P = h.param("lam", 0, 100, strict=True)
        regular(h, gram(D, w))          # with weights the penalty is documented as ignored
        def f(pds, pl):
            import warnings
            from polars_ds.exprs import expr_linear as m
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return m.query_lstsq("x0", target="y", add_bias=True, weights="w", l2_reg=P.api, solver="svd", return_pred=pred)
        r = h.run(h.frame(x0=("f64", X[0]), y=("f64", y), w=("f64", w)), f)
        if not pred:
            normal(h, r[0].v, D, y, w)
        else:
            for i in range(3):
                h.eq(fadd(r[i][0], r[i][1]), y[i], "prediction + residual")
            e = [v[1] for v in r]
            h.zero(fsum_(fmul(w[i], e[i]) for i in range(3)), "weighted residuals")
    for pr in (False, True):
        obs.append(Ob(f"query_lstsq[return_pred={pr}]/n=3", lambda h, pr=pr: old(h, pr), "3 rows, 1 feature, every penalty and positive weights"))
    # ---------------------------------------------------------------- several targets
    def multi(h, n, p, t, bias, l2, pred, conc, single=False):
        X, y = data(h, n, p, conc)
        Y = [y] + [h.reals(f"z{k}", n) for k in range(t - 1)]
        D = design(X, bias)
        nop = (p,) if bias else ()
        lam = None
        kw = dict(add_bias=bias)
        if l2:
            P = h.param("lam", 0, 100, strict=True)
            lam, kw["l2_reg"] = P.v, P.api
        regular(h, gram(D, None, lam, nop))
        cols = {f"x{j}": ("f64", X[j]) for j in range(p)}
        cols.update({f"y{k}": ("f64", Y[k]) for k in range(t)})
        fr = h.frame(**cols)
        xs = [f"x{j}" for j in range(p)]
        ys = [f"y{k}" for k in range(t)]
        with F32(h, single):
            r = h.run(fr, lambda pds, pl: [pds.lin_reg(*xs, target=ys, **kw).alias("c").first()] + ([pds.lin_reg(*xs, target=ys, return_pred=True, **kw).alias("p").implode()] if pred else []), raw=True)
            cell = r.cols["c"].vals[0]
            for k in range(t):
                normal(h, cell[k].v, D, Y[k], None, lam, nop, f"target {k} normal equation")
            if pred:
                names = [nm for nm, _ in r.cols["p"].dt[1][1]]
                h.true(names == [f"target_{k}_{s}" for k in range(t) for s in ("pred", "resid")], f"field names {names}")
                pr = r.cols["p"].vals[0].v
                for i in range(n):
                    for k in range(t):
                        f = dot_(D[i], cell[k].v)
                        h.eq(pr[i][2 * k], f, f"target {k} prediction {i}")
                        h.eq(pr[i][2 * k + 1], fsub(Y[k][i], f), f"target {k} residual {i}")
    for n, p, t, bias, l2, pred in ((2, 1, 2, False, False, True), (3, 1, 2, True, False, True), (3, 1, 2, True, True, False), (2, 2, 3, False, False, False)):
        obs.append(Ob(f"lin_reg[targets]/n={n},features={p},targets={t},bias={bias},l2={l2}", lambda h, n=n, p=p, t=t, bias=bias, l2=l2, pred=pred: multi(h, n, p, t, bias, l2, pred, 0), f"{t} targets, {n} rows"))
    obs.append(Ob("lin_reg[f32,targets]/n=3,features=1,targets=2", lambda h: multi(h, 3, 1, 2, True, False, True, 0, True), "single precision plugins over reals"))
    # ---------------------------------------------------------------- simple_lin_reg
    def simple(h, n, bias, weighted, pred):
        x, y = h.reals("x", n), h.reals("y", n)
        D = design([x], bias)
        cols = dict(x=("f64", x), y=("f64", y))
        kw = dict(add_bias=bias)
        w = None
        if weighted:
            w = h.reals("w", n, 0)
            pos(h, *w)
            cols["w"] = ("f64", w)
            kw["weights"] = "w"
        regular(h, gram(D, w))
        r = h.run(h.frame(**cols), lambda pds, pl: [pds.simple_lin_reg("x", "y", **kw).alias("c").first()] + ([pds.simple_lin_reg("x", "y", return_pred=True, **kw).alias("p").implode()] if pred else []), raw=True)
        b = r.cols["c"].vals[0].v
        normal(h, b, D, y, w)
        if pred:
            pr = r.cols["p"].vals[0].v
            for i in range(n):
                f = dot_(D[i], b)
                h.eq(pr[i][0], f, f"prediction {i}")
                h.eq(pr[i][1], fsub(y[i], f), f"residual {i}")
    for bias in (False, True):
        for wt in (False, True):
            for n in (2, 3) + ((4,) if th else ()):
                obs.append(Ob(f"simple_lin_reg/n={n},bias={bias},weights={wt}", lambda h, n=n, bias=bias, wt=wt: simple(h, n, bias, wt, n == 2), f"{n} rows"))
    # ---------------------------------------------------------------- rcond
    def rc1(h, n, bias):
        """one feature: the singular value is the norm of the column"""
        x, y = h.reals("x", n), h.reals("y", n)
        D = design([x], False)
        regular(h, gram(D))
        P = h.param("rcond", 0, 1, strict=True)
        r = h.run(h.frame(x=("f64", x), y=("f64", y)), lambda pds, pl: pds.lin_reg_w_rcond("x", target="y", rcond=P.api), raw=True)
        b, s = next(iter(r.cols.values())).vals[0]
        h.eq(s.v, [fsqrt(gram(D)[0][0])], "singular values")
        normal(h, b.v, D, y)
    obs.append(Ob("lin_reg_w_rcond/n=2,features=1", lambda h: rc1(h, 2, False), "one feature, every cut-off below 1"))
    def rc2(h, l2):
        """two orthogonal columns: the singular values are their norms"""
        s1, s2 = h.real("s1", 0, 50), h.real("s2", 0, 50)
        pos(h, s1, s2)
        for s in (s1, s2):
            h.assume(fle(K(Fraction(1, 16)), s))
        y = h.reals("y", 2, -100, 100)
        P = h.param("rcond", Fraction(1, 1024), 1, strict=True)
        lam = T.ZERO
        kw = {}
        if l2:
            L = h.param("lam", 0, 10, strict=True)
            lam, kw["l2_reg"] = L.v, L.api
        r = h.run(h.frame(a=("f64", [s1, K(0)]), b=("f64", [K(0), s2]), y=("f64", y)), lambda pds, pl: pds.lin_reg_w_rcond("a", "b", target="y", rcond=P.api, **kw), raw=True)
        b, s = next(iter(r.cols.values())).vals[0]
        t1, t2 = (s1, s2) if not l2 else (fsqrt(fadd(sq(s1), lam)), fsqrt(fadd(sq(s2), lam)))
        big, small = (t1, t2) if le(t2, t1) else (t2, t1)
        h.eq(s.v, [big, small], "singular values")
        cut = fmul(P.v, big)
        for k, (t, s0, yy) in enumerate(((t1, s1, y[0]), (t2, s2, y[1]))):
            if lt(t, cut):
                h.eq(b.v[k], T.ZERO, f"coefficient {k} (cut)")
            else:
                h.eq(fmul(b.v[k], fadd(sq(s0), lam)), fmul(s0, yy), f"coefficient {k}")
    obs.append(Ob("lin_reg_w_rcond[cut]/orthogonal features", lambda h: rc2(h, False), "two orthogonal features of any norms in [1/16, 50], every cut-off ratio"))
    obs.append(Ob("lin_reg_w_rcond[cut,l2]/orthogonal features", lambda h: rc2(h, True), "two orthogonal features, every cut-off ratio and penalty"))
    def rc3(h, bias, single=False):
        """no cut: general design"""
        if bias:
            x, y = h.reals("x", 2, -10, 10), h.reals("y", 2, -10, 10)
            X = [x]
        else:
            X, y = [[K(1), h.real("a", -4, 4)], [K(2), h.real("b", -4, 4)]], h.reals("y", 2, -10, 10)
        D = design(X, bias)
        G = gram(D)
        regular(h, G)
        d = det(G)
        # well conditioned: no singular value is below the machine-precision cut-off
        h.assume(fle(K(Fraction(1, 64)), d))
        cols = {f"x{j}": ("f64", X[j]) for j in range(len(X))}
        cols["y"] = ("f64", y)
        with F32(h, single):
            r = h.run(h.frame(**cols), lambda pds, pl: pds.lin_reg_w_rcond(*[f"x{j}" for j in range(len(X))], target="y", add_bias=bias), raw=True)
        b, s = next(iter(r.cols.values())).vals[0]
        normal(h, b.v, D, y)
        h.zero(fsub(fadd(sq(s.v[0]), sq(s.v[1])), fadd(G[0][0], G[1][1])), "sum of squared singular values")
    obs.append(Ob("lin_reg_w_rcond[no cut]/n=2,features=2", lambda h: rc3(h, False), "2 rows, 2 features, determinant of the Gram matrix at least 1/64"))
    obs.append(Ob("lin_reg_w_rcond[no cut]/n=2,features=1,bias", lambda h: rc3(h, True), "2 rows, 1 feature and intercept"))
    return obs
