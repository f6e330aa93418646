from .common import *
from .d01 import F32, design, gram, det, normal, regular

ASSUMPTIONS = ["finite data and nulls", "the rows a policy fits on have a regular Gram matrix (what a singular design returns is unspecified)", "factorisations of a regular matrix solve exactly"]

CS = [[1, 2, -1, 3, 1, 4], [2, -1, 1, 0, 3, 1]]
POL = {"skip": None, "zero": Fraction(0), "one": Fraction(1), "1.25": Fraction(5, 4), "-2": Fraction(-2), "raise": "raise", "ignore": "ignore"}

def obligations(tier):
    th = tier == "thorough"
    obs = []
    def setup(h, n, p, where, free=False):
        """n rows, p features; a null may be in each cell of the columns named in `where`"""
        X = [[h.real(f"x{j}{i}", -1000, 1000) if free else K(CS[j][i]) for i in range(n)] for j in range(p)]
        y = h.reals("y", n, -1000, 1000)
        cols, null = {}, {}
        for j in range(p):
            null[j] = [h.flag(f"null_x{j}_{i}") if f"x{j}" in where else False for i in range(n)]
            cols[f"x{j}"] = ("f64", [None if null[j][i] else X[j][i] for i in range(n)])
        null["y"] = [h.flag(f"null_y{i}") if "y" in where else False for i in range(n)]
        cols["y"] = ("f64", [None if null["y"][i] else y[i] for i in range(n)])
        return X, y, cols, null
    def rows_of(h, X, y, null, n, p, policy, bias):
        """(rows fitted on, design after the policy) or None when the call has to fail"""
        v = POL[policy]
        some = any(any(r) for r in null.values())
        if v == "raise" and some:
            return None
        filled = [[K(v) if null[j][i] and isinstance(v, Fraction) else X[j][i] for i in range(n)] for j in range(p)]
        D = design(filled, bias)
        if v is None:
            rows = [i for i in range(n) if not any(r[i] for r in null.values())]
        else:
            rows = [i for i in range(n) if not null["y"][i]]
        return rows, D
    def drop(h):
        if h.mode == "real":
            from symx.harness import Skip
            raise Skip()
        h.assume(False)

    def lr(h, n, p, bias, policy, where, how, l2=False, single=False, solver="qr", free=False, weighted=False):
        h.single = single
        X, y, cols, null = setup(h, n, p, where, free)
        some = any(any(r) for r in null.values())
        kw = dict(add_bias=bias, null_policy=policy)
        if how != "rcond":
            kw["solver"] = solver
        lam = w = None
        nop = (p,) if bias else ()
        if l2:
            P = h.param("lam", 0, 100, strict=True)
            lam, kw["l2_reg"] = P.v, P.api
        if weighted:
            w = h.reals("w", n, 0, 1000)
            pos(h, *w)
            cols["w"] = ("f64", w)
            kw["weights"] = "w"
        spec = rows_of(h, X, y, null, n, p, policy, bias)
        fr = h.frame(**cols)
        xs = [f"x{j}" for j in range(p)]
        if how == "rcond":
            go = lambda pds, pl: pds.lin_reg_w_rcond(*xs, target="y", **kw)
        elif how == "coeffs":
            go = lambda pds, pl: pds.lin_reg(*xs, target="y", **kw)
        else:
            go = lambda pds, pl: pds.lin_reg(*xs, target="y", return_pred=True, **kw)
        with F32(h, single):
            if spec is None or len(spec[0]) < p and not (policy == "ignore" and some):
                return h.true(h.run(fr, go, may_error=True) is ERR, "missing values are an error" if spec is None else "fewer rows than features are an error")
            rows, D = spec
            if weighted and len(rows) != n:
                return h.true(h.run(fr, go, may_error=True) is ERR, "weights that do not match the rows that are left are an error")
            if policy == "ignore" and some:
                if how == "rcond":
                    return drop(h)      # a decomposition of NaN: anything goes
                r = h.run(fr, go)
                return h.eq(len(r), n if how == "pred" else 1, "rows")
            Dr, yr = [D[i] for i in rows], [y[i] for i in rows]
            regular(h, gram(Dr, w, lam, nop))
            if how != "pred":
                r = h.run(fr, go)
                h.eq(len(r), 1, "rows")
                b = (r[0] if how == "coeffs" else r[0][0]).v
                return normal(h, b, Dr, yr, w, lam, nop)
            kw0 = dict(kw)
            r = h.run(fr, lambda pds, pl: [pds.lin_reg(*xs, target="y", **kw0).alias("c").first(), pds.lin_reg(*xs, target="y", return_pred=True, **kw).alias("p").implode()])
            b, pr = r["c"][0].v, r["p"][0].v
            normal(h, b, Dr, yr, w, lam, nop)
            h.eq(len(pr), n, "rows of predictions")
            for i in range(n):
                if i in rows:
                    f = dot_(D[i], b)
                    h.eq(pr[i][0], f, f"prediction {i}")
                    h.eq(pr[i][1], fsub(y[i], f), f"residual {i}")
                else:
                    h.eq([pr[i][0], pr[i][1]], [NAN, NAN], f"no prediction at the incomplete row {i}")
    # one feature, every pattern of nulls in the feature and in the target
    for policy in POL:
        for how in ("coeffs", "pred"):
            obs.append(Ob(f"lin_reg[{policy},{how}]/n=3,features=1", lambda h, a=(3, 1, False, policy, ("x0", "y"), how): lr(h, *a), "fixed feature, every null pattern, all targets"))
        obs.append(Ob(f"lin_reg[{policy},pred,bias]/n=4,features=1", lambda h, a=(4, 1, True, policy, ("x0",), "pred"): lr(h, *a), "fixed feature and intercept, every null pattern in the feature, all targets"))
        obs.append(Ob(f"lin_reg[{policy},pred,target nulls,bias]/n=4,features=1", lambda h, a=(4, 1, True, policy, ("y",), "pred"): lr(h, *a), "fixed feature and intercept, every null pattern in the target"))
        obs.append(Ob(f"lin_reg[{policy},coeffs]/n=3,features=2", lambda h, a=(3, 2, False, policy, ("x0", "x1"), "coeffs"): lr(h, *a), "two fixed features, every null pattern in them, all targets"))
        obs.append(Ob(f"lin_reg_w_rcond[{policy}]/n=3,features=1", lambda h, a=(3, 1, True, policy, ("x0", "y") if th else ("x0",), "rcond"): lr(h, *a), "fixed feature and intercept, every null pattern in the feature"))
        obs.append(Ob(f"lin_reg[f32,{policy},pred]/n=3,features=1", lambda h, a=(3, 1, False, policy, ("x0", "y"), "pred"): lr(h, *a, single=True), "single precision plugins over reals, fixed feature, every null pattern"))
        obs.append(Ob(f"lin_reg[f32,{policy},coeffs,bias]/n=3,features=1", lambda h, a=(3, 1, True, policy, ("x0",), "coeffs"): lr(h, *a, single=True), "single precision plugins over reals, fixed feature and intercept"))
    for policy in ("skip", "zero", "-2"):
        obs.append(Ob(f"lin_reg[{policy},free,pred]/n=3,features=1", lambda h, a=(3, 1, False, policy, ("x0", "y"), "pred"): lr(h, *a, free=True), "all features and targets, every null pattern"))
        obs.append(Ob(f"lin_reg[{policy},l2,pred]/n=3,features=1,bias", lambda h, a=(3, 1, True, policy, ("x0",), "pred"): lr(h, *a, l2=True), "every penalty, fixed feature and intercept"))
        obs.append(Ob(f"lin_reg[{policy},weights,pred]/n=3,features=1", lambda h, a=(3, 1, False, policy, ("x0", "y"), "pred"): lr(h, *a, weighted=True), "all positive weights, fixed feature, every null pattern"))
        for s in ("svd", "choleskey"):
            obs.append(Ob(f"lin_reg[{policy},{s},coeffs]/n=3,features=1", lambda h, a=(3, 1, True, policy, ("x0",), "coeffs"), s=s: lr(h, *a, solver=s), "fixed feature and intercept"))

    # ---------------------------------------------------------------- several targets
    def multi(h, n, bias, policy, where, pred, single=False):
        h.single = single
        X, y, cols, null = setup(h, n, 1, where)
        z = h.reals("z", n, -1000, 1000)
        cols["z"] = ("f64", z)
        some = any(any(r) for r in null.values())
        go = lambda pds, pl: pds.lin_reg("x0", target=["y", "z"], add_bias=bias, null_policy=policy, return_pred=pred)
        fr = h.frame(**cols)
        v = POL[policy]
        with F32(h, single):
            if some and (not isinstance(v, Fraction) or any(null["y"])):
                return h.true(h.run(fr, go, may_error=True) is ERR, "several targets: missing values are rejected unless features are filled")
            D = design([[K(v) if null[0][i] else X[0][i] for i in range(n)]], bias)
            regular(h, gram(D))
            r = h.run(fr, lambda pds, pl: [pds.lin_reg("x0", target=["y", "z"], add_bias=bias, null_policy=policy).alias("c").first(), pds.lin_reg("x0", target=["y", "z"], add_bias=bias, null_policy=policy, return_pred=True).alias("p").implode()])
        c, pr = r["c"][0], r["p"][0].v
        h.eq(len(pr), n, "rows of predictions")
        for k, t in enumerate((y, z)):
            normal(h, c[k].v, D, t, None, None, (), f"target {k} normal equation")
            for i in range(n):
                f = dot_(D[i], c[k].v)
                h.eq([pr[i][2 * k], pr[i][2 * k + 1]], [f, fsub(t[i], f)], f"target {k} row {i}")
    for policy in POL:
        obs.append(Ob(f"lin_reg[{policy},targets]/n=3", lambda h, policy=policy: multi(h, 3, False, policy, ("x0", "y"), True), "two targets, every null pattern in the feature and one target"))
    obs.append(Ob("lin_reg[zero,targets,bias]/n=4", lambda h: multi(h, 4, True, "zero", ("x0",), False), "two targets, intercept"))
    obs.append(Ob("lin_reg[f32,1.25,targets]/n=3", lambda h: multi(h, 3, True, "1.25", ("x0",), True, True), "two targets, single precision over reals"))
    obs.append(Ob("lin_reg[f32,skip,targets]/n=3", lambda h: multi(h, 3, False, "skip", ("x0", "y"), True, True), "two targets, single precision over reals"))

    # ---------------------------------------------------------------- recursive and rolling
    def moving(h, n, k, bias, policy, where, roll, minv=None, single=False):
        h.single = single
        X, y, cols, null = setup(h, n, 1, where)
        some = any(any(r) for r in null.values())
        q = 1 + bias
        kw = dict(add_bias=bias, null_policy=policy)
        if roll:
            kw["window_size"] = k
            if minv is not None:
                kw["min_valid_rows"] = minv
            go = lambda pds, pl: pds.rolling_lin_reg("x0", target="y", **kw)
        else:
            go = lambda pds, pl: pds.recursive_lin_reg("x0", target="y", start_with=k, **kw)
        fr = h.frame(**cols)
        spec = rows_of(h, X, y, null, n, 1, policy, bias)
        with F32(h, single):
            if spec is None:
                return h.true(h.run(fr, go, may_error=True) is ERR, "missing values are an error")
            rows, D = spec
            least = k if not roll or minv is None and not (some and policy != "raise") else (minv if minv is not None else min(k, n))
            if not roll and len(rows) < k:
                return drop(h)
            m = minv if minv is not None else k
            fits = {}
            for i in range(n):
                use = [r for r in rows if r <= i and (not roll or r > i - k)]
                ok = len(use) >= (m if roll else k) and (not roll or i >= k - 1)
                if not roll and i not in rows:
                    ok = False
                fits[i] = use if ok else None
                if ok:
                    regular(h, gram([D[r] for r in use]))
            r = h.run(fr, go)
        h.eq(len(r), n, "rows")
        for i in range(n):
            c, pr = r[i] if r[i] is not None else (None, None)
            if fits[i] is None:
                h.true(c is None and pr is None, f"row {i} is null, got {c}, {pr}")
                continue
            if c is None:
                h.true(False, f"row {i} has coefficients")
                continue
            normal(h, c.v, [D[u] for u in fits[i]], [y[u] for u in fits[i]], None, None, (), f"row {i}: normal equation")
            h.eq(pr, dot_(D[i], c.v), f"row {i}: prediction from the filled features")
    for policy in ("zero", "one", "1.25", "raise"):
        obs.append(Ob(f"recursive_lin_reg[{policy}]/n=4,start=2", lambda h, policy=policy: moving(h, 4, 2, False, policy, ("x0",), False), "fixed feature, every null pattern in it"))
        obs.append(Ob(f"recursive_lin_reg[{policy},target nulls]/n=4,start=2", lambda h, policy=policy: moving(h, 4, 2, False, policy, ("y",), False), "fixed feature, every null pattern in the target"))
        obs.append(Ob(f"rolling_lin_reg[{policy}]/n=4,window=2", lambda h, policy=policy: moving(h, 4, 2, False, policy, ("x0",), True), "fixed feature, every null pattern in it"))
        obs.append(Ob(f"rolling_lin_reg[{policy},target nulls]/n=4,window=3,min=2", lambda h, policy=policy: moving(h, 4, 3, False, policy, ("y",), True, 2), "fixed feature, every null pattern in the target"))
    for roll in (False, True):
        obs.append(Ob(f"{'rolling' if roll else 'recursive'}_lin_reg[f32,zero]/n=4", lambda h, roll=roll: moving(h, 4, 2, False, "zero", ("x0",), roll, single=True), "single precision over reals"))
        obs.append(Ob(f"{'rolling' if roll else 'recursive'}_lin_reg[one,bias]/n=4", lambda h, roll=roll: moving(h, 4, 3, True, "one", ("x0",), roll), "fixed feature and intercept"))
    def bad(h):
        n = 3
        X, y, cols, null = setup(h, n, 1, ("x0",))
        pol = h.pick(["whatever", "", "1.2.5"], "policy")
        what = h.choose(3, "what")
        fns = [lambda pds, pl: pds.lin_reg("x0", target="y", null_policy=pol), lambda pds, pl: pds.lin_reg("x0", target="y", null_policy=pol, return_pred=True), lambda pds, pl: pds.recursive_lin_reg("x0", target="y", start_with=2, null_policy=pol)]
        h.true(h.run(h.frame(**cols), fns[what], may_error=True) is ERR, "an unknown policy is an error")
    obs.append(Ob("unknown policy/n=3", bad, "policies that are no number; every null pattern"))
    return obs
