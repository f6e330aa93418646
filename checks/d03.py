from .common import *
from .d01 import F32, design, gram, det, normal, regular

ASSUMPTIONS = ["finite data; nulls where the obligation adds them", "every set of rows a fit is reported on has a regular Gram matrix (what a singular window returns, and rolling windows after a singular window, is unspecified)",
               "float rounding of the update formulas is outside: values are real numbers"]

def obligations(tier):
    th = tier == "thorough"
    obs = []
    CS = [[1, 2, -1, 3, 1, 4], [2, -1, 1, 0, 3, 1]]
    def data(h, n, p, conc, bias):
        X = [[K(CS[j][i]) if conc else h.real(f"x{j}{i}", -1000, 1000) for i in range(n)] for j in range(p)]
        return X, h.reals("y", n, -1000, 1000)
    def reg(h, kw, l2):
        if not l2:
            return None
        P = h.param("lam", 0, 100, strict=True)
        kw["l2_reg"] = P.api
        return P.v
    def fit_row(h, cell, pred, D, y, rows, i, lam, nop, what):
        """coefficients reported at row i are those of the fit on `rows`; the prediction uses row i"""
        if cell is None or pred is None:
            return h.true(False, f"{what}: value expected, got null")
        b = cell.v
        normal(h, b, [D[r] for r in rows], [y[r] for r in rows], None, lam, nop, f"{what}: normal equation")
        h.eq(pred, dot_(D[i], b), f"{what}: prediction")

    def recursive(h, n, p, start, bias, l2, conc=False, nulls=None, policy=None, single=False):
        h.single = single
        X, y = data(h, n, p, conc, bias)
        D = design(X, bias)
        nop = (p,) if bias else ()
        kw = dict(add_bias=bias)
        lam = reg(h, kw, l2)
        cols = {f"x{j}": ("f64", list(X[j])) for j in range(p)}
        ys = list(y)
        valid = list(range(n))
        if nulls == "x":
            m = [h.flag(f"null{i}") for i in range(n)]
            cols["x0"] = ("f64", [None if m[i] else X[0][i] for i in range(n)])
            valid = [i for i in range(n) if not m[i]]
        elif nulls == "y":
            m = [h.flag(f"null{i}") for i in range(n)]
            ys = [None if m[i] else y[i] for i in range(n)]
            valid = [i for i in range(n) if not m[i]]
        cols["y"] = ("f64", ys)
        if policy:
            kw["null_policy"] = policy
        if len(valid) < start:
            raise_skip(h)
        q = p + (1 if bias else 0)
        for k in range(start, len(valid) + 1):
            regular(h, gram([D[r] for r in valid[:k]], None, lam, nop))
        with F32(h, single):
            r = h.run(h.frame(**cols), lambda pds, pl: pds.recursive_lin_reg(*[f"x{j}" for j in range(p)], target="y", start_with=start, **kw))
        h.eq(len(r), n, "rows")
        for i in range(n):
            seen = [v for v in valid if v <= i]
            c, pr = r[i] if r[i] is not None else (None, None)
            if i not in valid or len(seen) < start:
                h.true(c is None and pr is None, f"row {i} is null before the start and where a value is missing, got {c}, {pr}")
            else:
                fit_row(h, c, pr, D, y, seen, i, lam, nop, f"row {i}")
    def raise_skip(h):
        if h.mode == "real":
            from symx.harness import Skip
            raise Skip()
        h.assume(False)

    for n, p, start, bias, l2 in ((3, 1, 1, False, False), (4, 1, 2, False, False), (3, 1, 2, True, False), (3, 1, 2, False, True)) + (((3, 1, 1, True, True), (5, 1, 1, False, False), (4, 1, 2, True, False), (4, 1, 2, True, True)) if th else ()):
        obs.append(Ob(f"recursive/n={n},features={p},start={start},bias={bias},l2={l2}", lambda h, a=(n, p, start, bias, l2): recursive(h, *a), f"{n} rows, {p} feature, all data{', every penalty' if l2 else ''}"))
    for n, p, start, bias, l2 in ((4, 2, 2, False, False), (4, 2, 3, True, False), (4, 2, 2, False, True), (5, 1, 2, True, False), (4, 1, 2, True, True)):
        obs.append(Ob(f"recursive[fixed design]/n={n},features={p},start={start},bias={bias},l2={l2}", lambda h, a=(n, p, start, bias, l2): recursive(h, *a, conc=True), f"fixed integer design, {n} rows, {p} features, all targets{', every penalty' if l2 else ''}"))
    for who in ("x", "y"):
        for n, start in ((3, 1), (4, 2)):
            obs.append(Ob(f"recursive[nulls in {who},skip]/n={n},start={start}", lambda h, a=(n, 1, start, False, False), who=who: recursive(h, *a, nulls=who, policy="skip"), f"{n} rows, one feature, every null pattern"))
    obs.append(Ob("recursive[nulls in y,zero]/n=3,start=1", lambda h: recursive(h, 3, 1, 1, False, False, nulls="y", policy="zero"), "rows without a target are dropped"))
    obs.append(Ob("recursive[nulls in x,skip,bias]/n=5,start=2", lambda h: recursive(h, 5, 1, 2, True, False, conc=True, nulls="x", policy="skip"), "fixed integer design with intercept, every null pattern, all targets"))
    obs.append(Ob("recursive[f32]/n=3,start=1", lambda h: recursive(h, 3, 1, 1, False, False, single=True), "single precision plugin over reals"))
    obs.append(Ob("recursive[f32,nulls]/n=3,start=1", lambda h: recursive(h, 3, 1, 1, False, False, nulls="x", policy="skip", single=True), "single precision plugin over reals, every null pattern"))
    obs.append(Ob("recursive[f32,l2,bias]/n=4,start=2", lambda h: recursive(h, 4, 1, 2, True, True, conc=True, single=True), "single precision plugin over reals, fixed design"))

    def rolling(h, n, p, win, bias, l2, conc=False, nulls=None, policy=None, minv=None, single=False):
        h.single = single
        X, y = data(h, n, p, conc, bias)
        D = design(X, bias)
        nop = (p,) if bias else ()
        kw = dict(add_bias=bias)
        lam = reg(h, kw, l2)
        cols = {f"x{j}": ("f64", list(X[j])) for j in range(p)}
        ys = list(y)
        valid = list(range(n))
        mv = 0
        if nulls:
            m = [h.flag(f"null{i}") for i in range(n)]
            valid = [i for i in range(n) if not m[i]]
            mv = minv if minv is not None else min(p, win)
            if nulls == "x":
                cols["x0"] = ("f64", [None if m[i] else X[0][i] for i in range(n)])
            else:
                ys = [None if m[i] else y[i] for i in range(n)]
            if not any(m):
                mv = 0
        cols["y"] = ("f64", ys)
        if policy:
            kw["null_policy"] = policy
        if minv is not None:
            kw["min_valid_rows"] = minv
        q = p + (1 if bias else 0)
        wins = {i: [r for r in range(i - win + 1, i + 1) if r in valid] for i in range(win - 1, n)}
        for i, w in wins.items():
            if len(w) >= mv and (len(w) >= q or l2):
                regular(h, gram([D[r] for r in w], None, lam, nop))
        with F32(h, single):
            r = h.run(h.frame(**cols), lambda pds, pl: pds.rolling_lin_reg(*[f"x{j}" for j in range(p)], target="y", window_size=win, **kw))
        h.eq(len(r), n, "rows")
        for i in range(n):
            c, pr = r[i] if r[i] is not None else (None, None)
            w = wins.get(i, [])
            if i < win - 1 or len(w) < mv:
                h.true(c is None and pr is None, f"row {i}: null when the window is short or has too few valid rows, got {c}, {pr}")
                continue
            if len(w) < q and not l2:
                continue          # under-determined
            if c is None:
                h.true(False, f"row {i}: coefficients expected, got null")
                continue
            normal(h, c.v, [D[k] for k in w], [y[k] for k in w], None, lam, nop, f"row {i}: normal equation")
            if i in valid or nulls == "y":
                h.eq(pr, dot_(D[i], c.v), f"row {i}: prediction")
    for n, p, win, bias, l2 in ((3, 1, 2, False, False), (4, 1, 3, False, False), (4, 1, 2, False, False), (3, 1, 2, True, False), (3, 1, 2, False, True)) + (((5, 1, 2, False, False), (4, 1, 3, True, False), (4, 1, 2, True, True)) if th else ()):
        obs.append(Ob(f"rolling/n={n},features={p},window={win},bias={bias},l2={l2}", lambda h, a=(n, p, win, bias, l2): rolling(h, *a), f"{n} rows, {p} feature, all data{', every penalty' if l2 else ''}"))
    for n, p, win, bias, l2 in ((4, 2, 2, False, False), (5, 2, 3, True, False), (5, 2, 3, False, True), (6, 1, 3, True, False), (5, 1, 3, True, True)):
        obs.append(Ob(f"rolling[fixed design]/n={n},features={p},window={win},bias={bias},l2={l2}", lambda h, a=(n, p, win, bias, l2): rolling(h, *a, conc=True), f"fixed integer design, {n} rows, {p} features, all targets{', every penalty' if l2 else ''}"))
    for who in ("x", "y"):
        obs.append(Ob(f"rolling[nulls in {who},skip]/n=4,window=2", lambda h, who=who: rolling(h, 4, 1, 2, False, False, nulls=who, policy="skip"), "4 rows, one feature, every null pattern"))
    obs.append(Ob("rolling[nulls in x,skip,min]/n=5,window=3,min=2", lambda h: rolling(h, 5, 1, 3, False, False, conc=True, nulls="x", policy="skip", minv=2), "fixed design, 5 rows, every null pattern, at least 2 valid rows"))
    obs.append(Ob("rolling[nulls in x,skip,bias,min]/n=6,window=3,min=2", lambda h: rolling(h, 6, 1, 3, True, False, conc=True, nulls="x", policy="skip", minv=2), "fixed design with intercept, 6 rows, every null pattern, at least 2 valid rows"))
    obs.append(Ob("rolling[nulls in x,skip]/n=5,features=2,window=3", lambda h: rolling(h, 5, 2, 3, False, False, conc=True, nulls="x", policy="skip"), "fixed design, 2 features, 5 rows, every null pattern"))
    obs.append(Ob("rolling[nulls in x,skip,l2]/n=4,window=2", lambda h: rolling(h, 4, 1, 2, False, True, conc=True, nulls="x", policy="skip"), "fixed design, ridge, every null pattern"))
    obs.append(Ob("rolling[f32]/n=4,window=2", lambda h: rolling(h, 4, 1, 2, False, False, single=True), "single precision plugin over reals"))
    obs.append(Ob("rolling[f32,nulls]/n=4,window=2", lambda h: rolling(h, 4, 1, 2, False, False, conc=True, nulls="x", policy="skip", single=True), "single precision plugin over reals, fixed design, every null pattern"))
    # ---------------------------------------------------------------- online model
    obs.append(Ob("rolling[nulls in x,skip,bias,l2,min]/n=5,window=3,min=2", lambda h: rolling(h, 5, 1, 3, True, True, conc=True, nulls="x", policy="skip", minv=2), "fixed design with intercept, 5 rows, every null pattern and penalty, at least 2 valid rows"))
    obs.append(Ob("rolling[f32,l2,bias]/n=4,window=3", lambda h: rolling(h, 4, 1, 3, True, True, conc=True, single=True), "single precision plugin over reals, fixed design"))
    def online(h, n, p, k, bias, l2, conc=False, nan=False, weights=False, remove=False):
        X, y = data(h, n + k, p, conc, bias)
        D = design(X, bias)
        nop = (p,) if bias else ()
        lam, api = None, 0.0
        if l2:
            P = h.param("lam", 0, 100, strict=True)
            lam, api = P.v, P.api
        w = [K(1)] * n
        used = list(range(n))
        m = h.models().OnlineLR(lambda_=api, has_bias=bias)
        regular(h, gram(D[:n], None, lam, nop))
        row = lambda i: [X[j][i] for j in range(p)]
        m.fit(h.array([row(i) for i in range(n)]), h.array([[v] for v in y[:n]]))
        for i in range(n, n + k):
            c = K(1)
            if weights:
                P = h.param(f"c{i}", 0, 10, strict=True)
                c, ca = P.v, P.api
            xs, yv = row(i), y[i]
            if nan and h.flag(f"nan{i}"):
                if h.flag(f"which{i}"):
                    xs = [NAN] + xs[1:]
                else:
                    yv = NAN
            else:
                used.append(i)
                w.append(c)
            if weights:
                m.update(h.array(xs), h.array([yv]), ca)
            else:
                m.update(h.array([xs]), h.array([[yv]]))
            regular(h, gram([D[u] for u in used], w, lam, nop))
        if remove:
            regular(h, gram(D[1:n + k], None, lam, nop))
            m.update(h.array(row(0)), h.array([y[0]]), -1.0)
            used, w = used[1:], w[1:]
        b = [num(v) for v in m.coeffs()] + ([num(m.bias())] if bias else [])
        normal(h, b, [D[u] for u in used], [y[u] for u in used], w, lam, nop, "normal equation after the updates")
        if not bias:
            h.eq(num(m.bias()), T.ZERO, "bias")
        # the reported inverse is the inverse of X'WX + lambda
        G = gram([D[u] for u in used], w, lam, nop)
        I = m.inv()
        q = len(G)
        for a in range(q):
            for c in range(q):
                h.zero(fsub(fsum_(fmul(num(I[a][e]), G[e][c]) for e in range(q)), K(1 if a == c else 0)), f"inverse {a},{c}", scale=1.0)
    for n, p, k, bias, l2 in ((1, 1, 1, False, False), (2, 1, 2, False, False), (2, 1, 1, True, False), (2, 1, 1, False, True)) + (((2, 1, 1, True, True),) if th else ()):
        obs.append(Ob(f"online/n={n},features={p},updates={k},bias={bias},l2={l2}", lambda h, a=(n, p, k, bias, l2): online(h, *a), f"fit on {n} rows and {k} updates, all data{', every penalty' if l2 else ''}"))
    obs.append(Ob("online[fixed design]/n=3,features=2,updates=2,bias", lambda h: online(h, 3, 2, 2, True, False, conc=True), "fixed integer design, all targets"))
    obs.append(Ob("online[fixed design,l2]/n=2,features=1,updates=2,bias", lambda h: online(h, 2, 1, 2, True, True, conc=True), "fixed integer design, all targets, every penalty"))
    obs.append(Ob("online[NaN]/n=1,features=1,updates=2", lambda h: online(h, 1, 1, 2, False, False, nan=True), "rows with a NaN change nothing"))
    obs.append(Ob("online[NaN]/n=2,features=2,updates=2", lambda h: online(h, 2, 2, 2, False, False, conc=True, nan=True), "rows with a NaN change nothing, fixed integer design"))
    obs.append(Ob("online[weights]/n=1,features=1,updates=2", lambda h: online(h, 1, 1, 2, False, False, weights=True), "every weight in (0, 10)"))
    obs.append(Ob("online[weights,bias]/n=2,features=1,updates=1", lambda h: online(h, 2, 1, 1, True, False, conc=True, weights=True), "every weight in (0, 10), fixed design"))
    obs.append(Ob("online[removal]/n=2,features=1,updates=1", lambda h: online(h, 2, 1, 1, False, False, remove=True), "c = -1 removes a row"))
    obs.append(Ob("online[removal,bias]/n=3,features=1,updates=1", lambda h: online(h, 3, 1, 1, True, False, conc=True, remove=True), "c = -1 removes a row, fixed design"))
    return obs
