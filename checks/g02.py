from .common import *
from symx.models_faer import eig_sym

ASSUMPTIONS = ["the singular value decomposition routine of the linear-algebra library returns a decomposition of the matrix it is given",
               "rows with a null are outside the bounds when features are centred (the means are those of the columns)"]

def centred(cols, center):
    if not center:
        return cols
    return [[fsub(x, mean_(c)) for x in c] for c in cols]

def svd(cols):
    """(singular values, right singular vectors) of the matrix with these columns, descending"""
    G = [[dot_(a, b) for b in cols] for a in cols]
    l, V = eig_sym(G)
    k = min(len(cols), len(cols[0]))
    return [fsqrt(x) for x in l[:k]], V[:k]

def outer(h, got, want, label):
    """equal up to sign"""
    for i in range(len(want)):
        for j in range(i, len(want)):
            h.eq(fmul(got[i], got[j]), fmul(want[i], want[j]), label)

def obligations(tier):
    th = tier == "thorough"
    obs = []
    def data(h, n, p, sym, nulls=False):
        """p columns of n rows; `sym` of them symbolic"""
        m = 2 if th or p == 1 else 1
        F = [[1, 3, -2, 4, 2], [2, -1, 5, 1, -3], [4, 1, 1, -2, 6]]
        cols = [h.reals(f"x{j}", m, -20, 20) + [K(v) for v in F[j][m:n]] if j < sym else [K(v) for v in F[j][:n]] for j in range(p)]
        return cols
    def orth(h, n):
        """three orthogonal columns with symbolic lengths"""
        B = [[1, 1, 1, 1], [1, -1, 1, -1], [1, 1, -1, -1]]
        s = [h.real(f"s{j}", 1, 20) for j in range(3)]
        return [[fmul(s[j], K(v)) for v in B[j]] for j in range(3)]
    def names(p):
        return [f"f{j}" for j in range(p)]
    def frame(h, cols):
        return h.frame(**{f"f{j}": ("f64", c) for j, c in enumerate(cols)})
    def sv(h, cols, center, var, ratio):
        r = h.run(frame(h, cols), lambda pds, pl: pds.exprs.num.singular_values(*names(len(cols)), center=center, as_explained_var=var, as_ratio=ratio))
        h.true(len(r) == 1, "one row")
        s, _ = svd(centred(cols, center))
        if var:
            s = [fdiv(fmul(x, x), K(len(cols[0]) - 1)) for x in s]
        if ratio:
            t = fsum_(s)
            if h.br(eq(t, ZERO)):
                raise Infeasible()
            s = [fdiv(x, t) for x in s]
        h.eq(list(r[0].v), s, "singular values")
        for a, b in zip(r[0].v, r[0].v[1:]):
            h.le(b, a, "descending")
    def pca(h, cols, center):
        r = h.run(frame(h, cols), lambda pds, pl: pds.pca(*names(len(cols)), center=center))
        s, V = svd(centred(cols, center))
        h.true(len(r) == len(s), "one entry per singular value")
        for q, x, v in zip(r, s, V):
            q = list(q.values()) if isinstance(q, dict) else list(q)
            h.eq(q[0], x, "singular value")
            w = list(q[1].v)
            h.true(len(w) == len(v), "a weight per feature")
            outer(h, w, v, "weights")
    def pc(h, cols, center, k):
        r = h.run(frame(h, cols), lambda pds, pl: pds.principal_components(*names(len(cols)), k=k, center=center))
        n = len(cols[0])
        h.true(len(r) == n, "a row per row")
        c = centred(cols, center)
        s, V = svd(c)
        rows = [list(q.values()) if isinstance(q, dict) else list(q) for q in r]
        h.true(all(len(q) == k for q in rows), "k components")
        for i in range(k):
            got = [q[i] for q in rows]
            if n < k:
                h.eq(got, [NAN] * n)
                continue
            want = [fsum_(fmul(c[j][t], V[i][j]) for j in range(len(c))) for t in range(n)]
            outer(h, got, want, f"component {i + 1}")
    cases = [("one feature", 3, 1, 1), ("two features", 3, 2, 1), ("two features, four rows", 4, 2, 1)]
    if th:
        cases += [("two symbolic features", 3, 2, 2), ("two features, five rows", 5, 2, 1)]
    for nm, n, p, m in cases:
        for center in (True, False):
            c = "centred" if center else "as is"
            mk = lambda h, n=n, p=p, m=m: data(h, n, p, m)
            for var in (False, True):
                for ratio in (False, True):
                    obs.append(Ob(f"singular_values[{nm},{c}{',variance' if var else ''}{',ratio' if ratio else ''}]", lambda h, a=(center, var, ratio), mk=mk: sv(h, mk(h), *a), f"{n} rows, {p} features, {m} of them with symbolic values"))
            obs.append(Ob(f"pca[{nm},{c}]", lambda h, center=center, mk=mk: pca(h, mk(h), center), f"{n} rows, {p} features, {m} of them with symbolic values"))
            for k in range(1, p + 1):
                obs.append(Ob(f"principal_components[{nm},{c},k={k}]", lambda h, center=center, k=k, mk=mk: pc(h, mk(h), center, k), f"{n} rows, {p} features, {m} of them with symbolic values"))
    for k in (1, 2, 3):
        obs.append(Ob(f"principal_components[orthogonal features,k={k}]", lambda h, k=k: pc(h, orth(h, 4), False, k), "4 rows, 3 orthogonal features of symbolic lengths"))
    obs.append(Ob("pca[orthogonal features]", lambda h: pca(h, orth(h, 4), False), "4 rows, 3 orthogonal features of symbolic lengths"))
    obs.append(Ob("singular_values[orthogonal features]", lambda h: sv(h, orth(h, 4), False, False, False), "4 rows, 3 orthogonal features of symbolic lengths"))
    # rows with nulls are dropped
    def nulls(h, what):
        cols = data(h, 3, 2, 1)
        ins = [[cols[0][0], h.real("u"), cols[0][1], cols[0][2]], [cols[1][0], None, cols[1][1], cols[1][2]]]
        f = frame(h, ins)
        s, V = svd(cols)
        if what == "sv":
            r = h.run(f, lambda pds, pl: pds.exprs.num.singular_values("f0", "f1", center=False))
            h.eq(list(r[0].v), s)
        elif what == "var":
            r = h.run(f, lambda pds, pl: pds.exprs.num.singular_values("f0", "f1", center=False, as_explained_var=True))
            h.eq(list(r[0].v), [fdiv(fmul(x, x), K(2)) for x in s])
        elif what == "pca":
            r = h.run(f, lambda pds, pl: pds.pca("f0", "f1", center=False))
            for q, x, v in zip(r, s, V):
                q = list(q.values()) if isinstance(q, dict) else list(q)
                h.eq(q[0], x)
                outer(h, list(q[1].v), v, "weights")
        else:
            r = h.run(f, lambda pds, pl: pds.principal_components("f0", "f1", k=1, center=False), may_error=True)
            h.true(r is ERR, "nulls are refused")
    for w in ("sv", "var", "pca", "pc"):
        obs.append(Ob(f"rows with nulls[{w}]", lambda h, w=w: nulls(h, w), "3 complete rows and one with a null"))
    def krange(h):
        cols = data(h, 3, 2, 1)
        k = h.pick([-1, 0, 1, 2, 3], "k")
        r = h.run(frame(h, cols), lambda pds, pl: pds.principal_components("f0", "f1", k=k), may_error=True)
        h.true((r is ERR) == (not 1 <= k <= 2), "between 1 and the number of features")
    obs.append(Ob("principal_components/the number of components", krange, "k from -1 to 3, 2 features"))
    # fewer rows than features / components
    def wide(h, what):
        cols = [[h.real(f"x{j}", 1, 9)] for j in range(2)]
        f = frame(h, cols)
        if what == "pca":
            r = h.run(f, lambda pds, pl: pds.pca("f0", "f1", center=False))
            h.true(len(r) == 1, "one singular value")
            q = list(r[0].values()) if isinstance(r[0], dict) else list(r[0])
            h.eq(fmul(q[0], q[0]), fadd(sq(cols[0][0]), sq(cols[1][0])))
        elif what == "sv":
            r = h.run(f, lambda pds, pl: pds.exprs.num.singular_values("f0", "f1", center=False))
            h.true(len(r[0].v) == 1, "one singular value")
            h.eq(fmul(r[0].v[0], r[0].v[0]), fadd(sq(cols[0][0]), sq(cols[1][0])))
        else:
            r = h.run(f, lambda pds, pl: pds.principal_components("f0", "f1", k=2, center=False))
            q = list(r[0].values()) if isinstance(r[0], dict) else list(r[0])
            h.eq(q, [NAN, NAN])
    for w in ("sv", "pca", "pc"):
        obs.append(Ob(f"one row, two features[{w}]", lambda h, w=w: wide(h, w), "1 row, 2 symbolic features"))
    return obs
