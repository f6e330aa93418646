from .common import *
from .d01 import F32, design

ASSUMPTIONS = ["finite data (magnitudes up to 1000)", "for the convergence obligations the design is the concrete one named in the obligation (a symbolic design has no bound on the number of sweeps)"]

def sweeps(h, D, y, l1, l2, bias, k):
    """k cyclic coordinate-descent sweeps of (1/2m)|y - Db|^2 + l1|b|_1 + l2/2|b|_2^2 (intercept last, unpenalised) from 0;
    each update is the exact minimiser in its coordinate"""
    m, p = len(D), len(D[0]) - (1 if bias else 0)
    b = [T.ZERO] * len(D[0])
    for _ in range(k):
        for j in range(p):
            b[j] = T.ZERO
            g = fsum_(fmul(D[i][j], fsub(y[i], dot_(D[i], b))) for i in range(m))
            N = fadd(fsum_(sq(D[i][j]) for i in range(m)), fmul(K(m), l2))
            t = fmul(K(m), l1)
            if eq(N, T.ZERO):
                b[j] = T.ZERO
            elif lt(t, g):
                b[j] = fdiv(fsub(g, t), N)
            elif lt(g, fneg(t)):
                b[j] = fdiv(fadd(g, t), N)
        if bias:
            b[-1] = T.ZERO
            b[-1] = mean_([fsub(y[i], dot_(D[i], b)) for i in range(m)])
    return b

def absv(x):
    return fabs(x)

def kkt(h, D, y, b, l1, l2, bias, tol, label="optimality"):
    """subgradient conditions up to the slack the stopping rule allows: once every coordinate moved by less than tol in the
    last sweep, the conditions of coordinate j are off by at most tol * sum_k |x_j . x_k| over the other coordinates"""
    m, q = len(D), len(D[0])
    p = q - (1 if bias else 0)
    h.eq(len(b), q, "number of coefficients")
    for v in b:
        if v is None or isinstance(v, FSpec):
            return h.eq(v, T.ZERO, "coefficient")
    r = [fsub(y[i], dot_(D[i], b)) for i in range(m)]
    for j in range(q):
        g = fsum_(fmul(D[i][j], r[i]) for i in range(m))
        slack = fmul(tol, fsum_(absv(fsum_(fmul(D[i][j], D[i][k]) for i in range(m))) for k in range(q) if k != j))
        if j >= p:
            h.le(absv(g), slack, f"{label}: intercept")
            continue
        g = fsub(g, fmul(fmul(K(m), l2), b[j]))
        t = fmul(K(m), l1)
        if eq(b[j], T.ZERO):
            h.le(absv(g), fadd(t, slack), f"{label}: coefficient {j} = 0")
        else:
            s = t if lt(T.ZERO, b[j]) else fneg(t)
            h.le(absv(fsub(g, s)), slack, f"{label}: coefficient {j}")

def regs(h, l1=True, l2=True, fixed=None):
    out = []
    for nm, on in (("l1", l1), ("l2", l2)):
        if on and nm == "l2" and fixed is not None:
            out.append((K(Fraction(fixed)), fixed))
        elif on:
            P = h.param(nm, 0, 10, strict=True)
            out.append((P.v, P.api))
        else:
            out.append((T.ZERO, 0.0))
    return out

def obligations(tier):
    th = tier == "thorough"
    obs = []
    YB = 10 if th else 3
    SETS = {"l1": (True, False), "l2": (False, True), "l1+l2": (True, True)}
    def enet(h, n, p, bias, kind, k, conc=False, order="C", last=False):
        """k sweeps (stopping tolerance 0) of the ElasticNet model"""
        (l1, a1), (l2, a2) = regs(h, *SETS[kind])
        cs = [[1, 2, -1, 1], [2, -1, 1, 0]]
        X = [[K(cs[j][i]) for i in range(n)] if conc else [K(cs[j][i]) if last and i == n - 1 else h.real(f"x{j}{i}", -100, 100) for i in range(n)] for j in range(p)]
        y = h.reals("y", n, -1000, 1000)
        D = design(X, bias)
        en = h.models().ElasticNet(a1, a2, has_bias=bias, tol=0.0, max_iter=k)
        h.true(not en.is_fit(), "not fitted before fit") if not bias else None
        en.fit(h.array([[X[j][i] for j in range(p)] for i in range(n)], order), h.array(y))
        b = sweeps(h, D, y, l1, l2, bias, k)
        h.eq(list(en.coeffs()), b[:p], "coefficients")
        h.eq(en.bias(), b[p] if bias else T.ZERO, "bias")
        h.true(bool(en.is_fit()) and bool(en.has_bias()) == bias, "is_fit, has_bias")
    for kind in SETS:
        for n, p, bias, k in ((2, 1, False, 1), (3, 1, True, 1)) + (((2, 2, False, 1), (3, 2, False, 1), (3, 1, False, 2)) if th else ()):
            obs.append(Ob(f"ElasticNet[{kind}]/n={n},features={p},bias={bias},sweeps={k}", lambda h, n=n, p=p, bias=bias, k=k, kind=kind: enet(h, n, p, bias, kind, k), f"{n} rows, {p} features in [-100, 100], all data, every penalty in (0, 10), {k} sweeps"))
        for n, p, bias, k in ((3, 2, True, 1), (3, 2, False, 2), (3, 1, True, 3)) + (((3, 2, True, 2), (4, 2, True, 1)) if th else ()):
            obs.append(Ob(f"ElasticNet[{kind},fixed design]/n={n},features={p},bias={bias},sweeps={k}", lambda h, n=n, p=p, bias=bias, k=k, kind=kind: enet(h, n, p, bias, kind, k, True, "F"), f"fixed integer design, all targets, every penalty in (0, 10), {k} sweeps"))
    obs.append(Ob("ElasticNet[l1]/fortran order", lambda h: enet(h, 2, 2, False, "l1", 1, False, "F", True), "column-major feature matrix, 2 rows of which one is fixed, 2 features"))
    # ---------------------------------------------------------------- the plugin: converged results are optimal
    def lasso(h, X, bias, kind, ylim=10, tolr=(Fraction(1, 2), 1), single=False, how="coeffs", l2=None):
        (l1, a1), (l2, a2) = regs(h, *SETS[kind], fixed=l2)
        n, p = len(X[0]), len(X)
        y = h.reals("y", n, -ylim, ylim)
        tol = h.param("tol", *tolr)
        D = design(X, bias)
        cols = {f"x{j}": ("f64", X[j]) for j in range(p)}
        cols["y"] = ("f64", y)
        xs = [f"x{j}" for j in range(p)]
        kw = dict(l1_reg=a1, l2_reg=a2, tol=tol.api, add_bias=bias)
        with F32(h, single):
            if how == "coeffs":
                r = h.run(h.frame(**cols), lambda pds, pl: pds.lin_reg(*xs, target="y", **kw))
                b = r[0].v
            else:
                r = h.run(h.frame(**cols), lambda pds, pl: [pds.lin_reg(*xs, target="y", **kw).alias("c").first(), pds.lin_reg(*xs, target="y", return_pred=True, **kw).alias("p").implode()])
                b = r["c"][0].v
                pr = r["p"][0].v
                for i in range(n):
                    f = dot_(D[i], b)
                    h.eq(pr[i][0], f, f"prediction {i}")
                    h.eq(pr[i][1], fsub(y[i], f), f"residual {i}")
        kkt(h, D, y, b, l1, l2, bias, tol.v)
    def free1(h, kind, how, single=False):
        x = h.reals("x", 2, -100, 100)
        lasso(h, [x], False, kind, 100, (Fraction(1, 1024), 1), single, how)
    for kind in ("l1", "l1+l2"):
        obs.append(Ob(f"lin_reg[{kind}]/one feature", lambda h, kind=kind: free1(h, kind, "pred"), "2 rows, one feature, all data, every penalty and tolerance"))
        obs.append(Ob(f"lin_reg[{kind},f32]/one feature", lambda h, kind=kind: free1(h, kind, "coeffs", True), "single precision plugin over reals"))
        for nm, X in (("orthogonal", [[1, 1, 0], [1, -1, 2]]), ("correlated", [[2, 0, 1], [0, 2, 1]])) + ((("correlated4", [[2, 0, 1, 1], [0, 2, 1, -1]]),) if th else ()):
            obs.append(Ob(f"lin_reg[{kind}]/{nm} features", lambda h, kind=kind, X=X: lasso(h, [[K(v) for v in c] for c in X], False, kind, 10 if th else 4, l2=0.75), "fixed integer design, targets in [-4, 4] (thorough: 10), every l1 penalty, l2 penalty 0 or 3/4, tolerance in [1/2, 1]"))
        for nm, X in (("centred", [[1, 0, -1]]), ("one", [[1, 2, -1]]), ("three", [[1, 2, 0]])) + ((("two", [[1, 2, -1], [0, 1, 1]]),) if th else ()):
            obs.append(Ob(f"lin_reg[{kind},bias]/{nm}", lambda h, kind=kind, X=X: lasso(h, [[K(v) for v in c] for c in X], True, kind, YB, l2=0.75), "fixed integer design with intercept, targets in [-%d, %d], every l1 penalty, l2 penalty 0 or 3/4, tolerance in [1/2, 1]" % (YB, YB)))
    obs.append(Ob("lin_reg[l1,f32,bias]/one", lambda h: lasso(h, [[K(1), K(2), K(-1)]], True, "l1", 2, single=True), "single precision plugin over reals"))
    obs.append(Ob("lin_reg[l1,bias,pred]/one", lambda h: lasso(h, [[K(1), K(2), K(-1)]], True, "l1", 2, how="pred"), "predictions and residuals"))
    obs.append(Ob("lin_reg[l1]/zero feature", lambda h: lasso(h, [[K(1), K(2), K(-1)], [K(0), K(0), K(0)]], False, "l1"), "a feature that is zero everywhere"))
    return obs
