from .common import *
from .c01 import dist_, rows_

ASSUMPTIONS = ["coordinates and targets are finite 64-bit floats of magnitude at most 1000 (nulls and NaN where the obligation adds them)", "two other points at exactly the same distance from a row may be taken in either order (the obligations assume pairwise distinct distances)", "the search bound is larger than every distance unless it is symbolic, and no distance equals it exactly"]

def obligations(tier):
    th = tier == "thorough"
    obs = []
    XY = list("xyz")
    def add(name, fn, bounds, paths=6000):
        obs.append(Ob(name, fn, bounds, paths=paths))

    def avg(h, n, dim, k, m, weighted, par=False, nulls=None, min_bound=None, bound=False, tdt="f64"):
        cols = [h.reals(XY[d], n, -1000, 1000) for d in range(dim)]
        if nulls == "null":
            cols = [h.opts_(c, f"c{d}") for d, c in enumerate(cols)]
        elif nulls == "nan":
            cols[0] = [h.special(f"s{i}", v, ("nan",)) for i, v in enumerate(cols[0])]
        y = h.reals("y", n, -1000, 1000) if tdt == "f64" else h.ints("y", n, -1000, 1000)
        h.threads = 2 if par else 1
        f = h.frame(t=(tdt, y), **{XY[d]: ("f64", c) for d, c in enumerate(cols)})
        kw = {"max_bound": 1e9}
        bd = None
        mb = K(Fraction(1e-9))
        if min_bound == "sym":
            p = h.param("mb", 0.001, 100)
            kw["min_bound"], mb = p.api, p.v
        elif min_bound is not None:
            kw["min_bound"], mb = min_bound, K(Fraction(min_bound))
        if bound:
            p = h.param("b", 0.001, 2000)
            kw["max_bound"], bd = p.api, p.v
        r = h.run(f, lambda pds, pl: pds.query_knn_avg(*XY[:dim], target="t", k=k, dist=m, weighted=weighted, parallel=par, **kw))
        pts = rows_(cols)
        bad = [any(v is None or v is NAN or isinstance(v, FSpec) for v in p) for p in pts]
        elig = [j for j in range(n) if not bad[j]]
        y = [fl(v) for v in y]
        if len(r) != n:
            return h.true(False, "one answer per row")
        for i in range(n):
            if bad[i]:
                h.true(r[i] is None, f"row {i} has a missing feature: null, got {r[i]}")
                continue
            d = {j: dist_(m, pts[j], pts[i]) for j in elig}
            d[i] = K(0)
            oth = [j for j in elig if j != i]
            for a in range(len(oth)):
                h.assume(bnot(feq(d[oth[a]], K(0))))
                for b in range(a):
                    h.assume(bnot(feq(d[oth[a]], d[oth[b]])))
                if bd is not None:
                    h.assume(bnot(feq(d[oth[a]], bd)))
                h.assume(bnot(feq(d[oth[a]], mb)))
            order = []
            for j in oth:
                q = 0
                while q < len(order) and h.br(flt(d[order[q]], d[j])):
                    q += 1
                order.insert(q, j)
            near = [i] + order[:k]
            if bd is not None:
                near = [j for j in near if j == i or h.br(flt(d[j], bd))]
            use = [j for j in near if (j == i and mb == K(0)) or (j != i and h.br(fle(mb, d[j])))]
            if not use:
                h.true(r[i] is None, f"row {i} has no neighbour: null, got {r[i]}")
                continue
            if r[i] is None:
                h.true(False, f"row {i} has an average")
                continue
            if not weighted:
                h.eq(r[i], fdiv(fsum_(y[j] for j in use), K(len(use))), f"average of row {i}")
            else:
                p1 = min_bound is not None and min_bound != "sym" and min_bound <= 2.3e-16
                ws = [fdiv(K(1), fadd(K(1), d[j]) if p1 else d[j]) for j in use]
                h.eq(r[i], fdiv(fsum_(fmul(w, y[j]) for w, j in zip(ws, use)), fsum_(ws)), f"weighted average of row {i}")
    for n, dim, k, m, w, par in [(1, 1, 1, "l1", False, False), (2, 1, 1, "l1", False, False), (3, 1, 1, "l1", False, True), (3, 1, 2, "sql2", False, False), (3, 1, 1, "inf", True, False), (2, 2, 1, "l2", False, False), (2, 2, 1, "sql2", True, True), (2, 2, 2, "inf", False, False), (3, 1, 2, "l1", True, False), (2, 3, 1, "l1", False, False)]:
        add(f"query_knn_avg[{m},weighted={w},par={par}]/n={n},d={dim},k={k}", lambda h, a=(n, dim, k, m, w, par): avg(h, *a), f"{n} arbitrary points in {dim} dimensions, any targets")
    for nu in ("null", "nan"):
        add(f"query_knn_avg[{nu}]/n=3,k=1", lambda h, nu=nu: avg(h, 3, 1, 1, "l1", False, False, nu), f"3 points, any may have a {nu} feature")
    add("query_knn_avg[null]/n=2,d=2,k=1,par", lambda h: avg(h, 2, 2, 1, "l1", False, True, "null"), "2 points in 2 dimensions, nulls")
    for w in (False, True):
        add(f"query_knn_avg[min_bound=0,weighted={w}]/n=2,k=1", lambda h, w=w: avg(h, 2, 1, 1, "l1", w, min_bound=0.0), "2 points; the row itself takes part when the lower bound is 0")
        add(f"query_knn_avg[min_bound,weighted={w}]/n=3,k=2", lambda h, w=w: avg(h, 3, 1, 2, "l1", w, min_bound="sym"), "3 points, any lower bound")
    add("query_knn_avg[max_bound]/n=3,k=2", lambda h: avg(h, 3, 1, 2, "l1", False, bound=True), "3 points, any upper bound")
    add("query_knn_avg[max_bound,sql2]/n=2,d=2,k=1", lambda h: avg(h, 2, 2, 1, "sql2", False, bound=True), "2 points in 2 dimensions, any upper bound")
    add("query_knn_avg[integer target]/n=2,k=1", lambda h: avg(h, 2, 1, 1, "l1", False, tdt="i32"), "integer targets")
    def target(h):
        x = h.reals("x", 2, -1000, 1000)
        y = h.opts_(h.reals("y", 2), "y")
        f = h.frame(y=("f64", y), x=("f64", x))
        r = h.run(f, lambda pds, pl: pds.query_knn_avg("x", target="y", k=1, dist="l1"), may_error=True)
        if None in y:
            h.true(r is ERR or all(v is None or True for v in r), "a missing target is not allowed")
            if r is not ERR:
                h.true(False, "a null target is rejected")
    add("query_knn_avg[null target is rejected]/n=2", target, "2 points, null targets")
    # trees that split
    GRID1 = [0.0, 1.0, 2.0, 3.5, 5.0, 8.0, 13.0, 21.0, 2.25, 4.0, 4.75, 6.5, 7.0]
    def split(h, n, k, free, m):
        x = [K(Fraction(v)) for v in GRID1[:n]]
        x[free] = h.real("x", -50, 50)
        y = h.reals("y", n, -1000, 1000)
        f = h.frame(y=("f64", y), x=("f64", x))
        r = h.run(f, lambda pds, pl: pds.query_knn_avg("x", target="y", k=k, dist=m))
        for i in range(n):
            d = [dist_(m, (x[j],), (x[i],)) for j in range(n)]
            oth = [j for j in range(n) if j != i]
            for a in range(len(oth)):
                if oth[a] == free or i == free:
                    for b in range(len(oth)):
                        if b != a:
                            h.assume(bnot(feq(d[oth[a]], d[oth[b]])))
                    h.assume(flt(K(Fraction(1, 1000)), d[oth[a]]))
        for i in range(n):
            d = [dist_(m, (x[j],), (x[i],)) for j in range(n)]
            oth = [j for j in range(n) if j != i]
            near = []
            for j in oth:
                q = 0
                while q < len(near) and h.br(flt(d[near[q]], d[j])):
                    q += 1
                near.insert(q, j)
            ds = [d[j] for j in near]
            if h.br(feq(ds[k - 1], ds[k])):
                continue
            h.eq(r[i], fdiv(fsum_(y[j] for j in near[:k]), K(k)), f"average of row {i}")
    add("query_knn_avg[split]/n=11,k=2", lambda h: split(h, 11, 2, 3, "l1"), "11 points of which one is arbitrary, any targets")
    if th:
        add("query_knn_avg[split]/n=13,k=1", lambda h: split(h, 13, 1, 12, "sql2"), "13 points of which one is arbitrary, any targets")
    return obs
