from .common import *
from symx.ctx import ffn
from symx.interp import Ok
from .d01 import gram, det, regular, normal, design, F32

ASSUMPTIONS = ["values are finite floats", "the Gram matrix X'WX is regular and the fit is not exact (residual sum of squares > 0)", "factorisations of a regular matrix solve and invert exactly",
               "the survival function and the quantile of the t distribution are uninterpreted in the solver; replays compare the build's values with scipy's"]

PINS = {"student_t_sf": lambda it, a, c: Ok(ffn("tsf", fl(a[0]), fl(a[1]))), "student_t_ppf": lambda it, a, c: ffn("tppf", fl(a[0]), fl(a[1]))}

SETS = {3: [[1, 2, -1], [0, 1, 3]], 4: [[1, 2, -1, 3], [2, -1, 1, 0]], 5: [[1, 2, -1, 3, 0], [2, -1, 1, 0, 4]]}

def inv(M):
    p = len(M)
    d = det(M)
    if p == 1:
        return [[fdiv(K(1), d)]]
    R = [[None] * p for _ in range(p)]
    for i in range(p):
        for j in range(p):
            R[i][j] = fdiv(fmul(K((-1) ** (i + j)), det([r[:i] + r[i + 1:] for k, r in enumerate(M) if k != j])), d)
    return R

def obligations(tier):
    th = tier == "thorough"
    obs = []
    def report(h, n, p, bias, se="se", X=None, w=None, single=False, policy=None, how="select"):
        h.opts["pins"] = PINS
        y = h.reals("y", n, -100, 100)
        if X is None:
            X = [h.reals(f"x{j}", n, -100, 100) for j in range(p)]
        cols = {f"x{j}": ("f64", X[j]) for j in range(p)}
        yc, Yr, Xr, Wr = y, y, X, None
        if w == "any":
            Wr = [K(2)] * (n - 1) + [h.real("w", 0, 100)]
            pos(h, Wr[-1])
        elif w is not None:
            Wr = [K(v) for v in w]
        wc = Wr
        if policy == "skip":
            # one more row that is dropped because of its target, one because of a feature
            yc = [None] + y + [h.real("z", -100, 100)]
            cols = {f"x{j}": ("f64", [h.real(f"q{j}", -100, 100)] + X[j] + [None if j == 0 else h.real(f"s{j}", -100, 100)]) for j in range(p)}
        elif policy == "zero":
            # a null feature of the last row is read as zero; a null target is dropped
            yc = y + [None]
            cols = {"x0": ("f64", X[0][:-1] + [None, h.real("q", -100, 100)])}
            Xr = [X[0][:-1] + [T.ZERO]]
        D = design(Xr, bias)
        k = p + bias
        G = gram(D, Wr)
        regular(h, G)
        I = inv(G)
        kw = dict(add_bias=bias, std_err=se)
        if policy:
            kw["null_policy"] = policy
        cols["y"] = ("f64", yc)
        if Wr:
            cols["w"] = ("f64", wc)
            kw["weights"] = "w"
        xs = [f"x{j}" for j in range(p)]
        # specification
        xty = [fsum_(fmul(fmul(Wr[i], D[i][a]) if Wr else D[i][a], y[i]) for i in range(n)) for a in range(k)]
        b = [dot_(I[a], xty) for a in range(k)]
        e = [fsub(y[i], dot_(D[i], b)) for i in range(n)]
        ww = Wr or [K(1)] * n
        rss = fsum_(fmul(ww[i], sq(e[i])) for i in range(n))
        ym = fdiv(fsum_(fmul(ww[i], y[i]) for i in range(n)), fsum_(ww))
        tss = fsum_(fmul(ww[i], sq(fsub(y[i], ym))) for i in range(n))
        h.assume(flt(T.ZERO, rss))
        h.assume(flt(T.ZERO, tss))
        if h.mode == "real":
            from symx.harness import Skip
            if to_py(rss) < 1e-9 * (1 + to_py(tss)) or to_py(tss) < 1e-9:
                raise Skip()
        dof = n - k
        if se == "se" or Wr:
            v = [fmul(fdiv(rss, K(dof)), I[a][a]) for a in range(k)]
            nm = "std_err"
        else:
            nm = se + "_se"
            M = [[fsum_(fmul(I[a][c], D[i][c]) for c in range(k)) for i in range(n)] for a in range(k)]
            om = []
            for i in range(n):
                lev = fsum_(fmul(D[i][a], M[a][i]) for a in range(k))
                o = sq(e[i])
                if se == "hc1":
                    o = fmul(o, K(Fraction(n, dof)))
                elif se in ("hc2", "hc3"):
                    d = fsub(K(1), lev)
                    h.assume(flt(T.ZERO, d))
                    if h.mode == "real" and to_py(d) < 1e-6:
                        from symx.harness import Skip
                        raise Skip()
                    o = fdiv(o, d if se == "hc2" else sq(d))
                om.append(o)
            v = [fsum_(fmul(sq(M[a][i]), om[i]) for i in range(n)) for a in range(k)]
            for x in v:
                h.assume(flt(T.ZERO, x))
                if h.mode == "real" and to_py(x) < 1e-9:
                    from symx.harness import Skip
                    raise Skip()
        fr = h.frame(**cols)
        with F32(h, single):
            r = h.run(fr, lambda pds, pl: pds.lin_reg_report(*xs, target="y", **kw).alias("r"))
        h.eq(len(r), k, "one row per coefficient")
        r2 = fsub(K(1), fdiv(rss, tss))
        names = xs + (["__bias__"] if bias else [])
        for a in range(k):
            g = r[a]
            if not isinstance(g, dict):
                g = dict(zip(("features", "beta", nm, "t", "p>|t|", "0.025", "0.975", "r2", "adj_r2"), g))
            h.true(nm in g, f"field {nm}")
            f = g["features"]
            h.true(bytes(f.c).decode() == names[a] if isinstance(f, StrV) else f == names[a], f"feature {a}")
            h.eq(g["beta"], b[a], f"beta {a}")
            s = fsqrt(v[a])
            h.eq(g[nm], s, f"standard error {a}")
            t = fdiv(b[a], s)
            h.eq(g["t"], t, f"t {a}")
            h.eq(g["p>|t|"], fmul(K(2), ffn("tsf", fabs(g["t"]), K(dof))), f"p value {a}")   # t is settled above
            c = fmul(ffn("tppf", K(Fraction(0.975)), K(dof)), s)
            h.eq(g["0.025"], fsub(b[a], c), f"lower bound {a}")
            h.eq(g["0.975"], fadd(b[a], c), f"upper bound {a}")
            h.eq(g["r2"], r2, f"r2 {a}")
            if n - 1 - p > 0:
                h.eq(g["adj_r2"], fsub(K(1), fmul(fdiv(rss, tss), K(Fraction(n - 1, n - 1 - p)))), f"adjusted r2 {a}")
    KX = lambda n, p: [[K(v) for v in c] for c in SETS[n][:p]]
    ALL = ("se", "hc0", "hc1", "hc2", "hc3")
    for s in ALL:
        fx = s in ("hc2", "hc3")
        obs.append(Ob(f"lin_reg_report[{s}]/n=3,features=1", lambda h, s=s, fx=fx: report(h, 3, 1, False, s, X=KX(3, 1) if fx else None), "3 fixed rows of features, every target" if fx else "3 rows of reals"))
        obs.append(Ob(f"lin_reg_report[{s}]/n=4,features=1,bias", lambda h, s=s: report(h, 4, 1, True, s, X=KX(4, 1)), "4 fixed rows of features, every target"))
        obs.append(Ob(f"lin_reg_report[{s}]/n=4,features=2", lambda h, s=s: report(h, 4, 2, False, s, X=KX(4, 2)), "4 fixed rows of features, every target"))
        obs.append(Ob(f"lin_reg_report[{s}]/n=5,features=2,bias", lambda h, s=s: report(h, 5, 2, True, s, X=KX(5, 2)), "5 fixed rows of features, every target"))
        obs.append(Ob(f"lin_reg_report[f32,{s}]/n=4,features=1,bias", lambda h, s=s: report(h, 4, 1, True, s, X=KX(4, 1), single=True), "single precision plugin over reals"))
    obs.append(Ob("lin_reg_report[se]/n=3,features=1,bias", lambda h: report(h, 3, 1, True), "3 rows of reals"))
    for pol in ("skip", "zero"):
        for s in ("se", "hc3"):
            obs.append(Ob(f"lin_reg_report[{s},{pol}]/n=4", lambda h, pol=pol, s=s: report(h, 4, 1, True, s, X=KX(4, 1), policy=pol), "rows with a null target or a null feature"))
        obs.append(Ob(f"lin_reg_report[f32,{pol}]/n=4", lambda h, pol=pol: report(h, 4, 1, True, X=KX(4, 1), policy=pol, single=True), "rows with a null target or a null feature, single precision"))
    for sg in (False, True):
        q = "f32," if sg else ""
        obs.append(Ob(f"lin_reg_report[{q}weights]/n=3,features=1", lambda h, sg=sg: report(h, 3, 1, False, X=KX(3, 1), w="any", single=sg), "every weight of one row"))
        obs.append(Ob(f"lin_reg_report[{q}weights]/n=4,features=1,bias", lambda h, sg=sg: report(h, 4, 1, True, X=KX(4, 1), w=[1, 2, 3, 1], single=sg), "fixed weights, every target"))
        obs.append(Ob(f"lin_reg_report[{q}weights,hc1]/n=4,features=2", lambda h, sg=sg: report(h, 4, 2, False, "hc1", X=KX(4, 2), w=[3, 2, 1, 2], single=sg), "fixed weights, every target; std_err is not used with weights"))
    return obs
