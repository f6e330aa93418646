from .common import *
from .c01 import dist_, rows_, cloud, IDS

ASSUMPTIONS = ["coordinates are finite 64-bit floats of magnitude at most 1000 (nulls and NaN where the obligation adds them), radii are positive", "rayon runs its closures once each, in any order: the tasks write disjoint slots"]

def obligations(tier):
    th = tier == "thorough"
    obs = []
    def add(name, fn, bounds, paths=6000):
        obs.append(Ob(name, fn, bounds, paths=paths))
    def lim(h, name, n):
        return h.reals(name, n, -1000, 1000)
    XY = list("xyz")

    def points(h, n, dim, nulls=None):
        cols = [lim(h, XY[d], n) for d in range(dim)]
        if nulls == "null":
            cols = [h.opts_(c, f"c{d}") for d, c in enumerate(cols)]
        elif nulls == "nan":
            cols[0] = [h.special(f"s{i}", v, ("nan",)) for i, v in enumerate(cols[0])]
        return cols
    def bad(p):
        return any(v is None or v is NAN or isinstance(v, FSpec) for v in p)

    def inside_check(h, m, pts, q, r, got, gotd, ids, elig, sort):
        pos = {v: j for j, v in enumerate(ids)}
        got = list(got)
        if not all(isinstance(g, int) and g in pos for g in got):
            return h.true(False, f"known ids, got {got}")
        idx = [pos[g] for g in got]
        if len(set(idx)) != len(idx) or not set(idx) <= set(elig):
            return h.true(False, f"distinct eligible points, got {got}")
        d = {j: dist_(m, pts[j], q) for j in elig}
        for j in elig:
            if j in idx:
                h.true(fle(d[j], r), "a point in the answer is within the radius")
            else:
                h.true(flt(r, d[j]), "a point left out is beyond the radius")
        if sort:
            for a, b in zip(idx, idx[1:]):
                h.le(d[a], d[b], "sorted by distance")
        if gotd is not None:
            h.eq(list(gotd), [d[j] for j in idx], "reported distances")

    # ------------------------------------------------ query_radius_ptwise
    def rad(h, n, dim, m, sort, par, nulls=None, fixed=None):
        cols = points(h, n, dim, nulls)
        ids = IDS[:n]
        f = h.frame(id=("u32", ids), **{XY[d]: ("f64", c) for d, c in enumerate(cols)})
        if fixed is None:
            p = h.param("r", 0.001, 3000)
            r, api = p.v, p.api
        else:
            r, api = K(Fraction(fixed)), fixed
        h.threads = 2 if par else 1
        out = h.run(f, lambda pds, pl: pds.query_radius_ptwise(*XY[:dim], index="id", r=api, dist=m, sort=sort, parallel=par))
        pts = rows_(cols)
        elig = [j for j in range(n) if not bad(pts[j])]
        if len(out) != n:
            return h.true(False, "one answer per row")
        for i in range(n):
            g = out[i].v if isinstance(out[i], Lst) else out[i]
            if bad(pts[i]):
                h.true(g is None, f"row {i} is null, got {g}")
            elif g is None:
                h.true(False, f"row {i} has an answer")
            else:
                inside_check(h, m, pts, pts[i], r, g, None, ids, elig, sort)
    for n, dim, m, sort, par in [(1, 1, "l1", True, False), (3, 1, "l1", True, False), (3, 1, "l2", False, False), (3, 1, "inf", False, True), (3, 1, "sql2", True, True), (2, 2, "l1", True, False), (2, 2, "l2", True, False), (2, 2, "sql2", False, True), (2, 2, "inf", True, False), (2, 3, "l2", False, False)]:
        add(f"query_radius_ptwise[{m},sort={sort},par={par}]/n={n},d={dim}", lambda h, a=(n, dim, m, sort, par): rad(h, *a), f"{n} arbitrary points in {dim} dimensions, any radius")
    for nu in ("null", "nan"):
        add(f"query_radius_ptwise[{nu}]/n=3", lambda h, nu=nu: rad(h, 3, 1, "l1", True, False, nu), f"3 points, any may have a {nu} coordinate")
    add("query_radius_ptwise[null]/n=2,d=2", lambda h: rad(h, 2, 2, "sql2", False, False, "null"), "2 points in 2 dimensions, nulls")

    # ------------------------------------------------ splitting trees
    GRID1 = [0.0, 1.0, 2.0, 3.0, 5.0, 8.0, 13.0, 21.0, 2.0, 4.0, 4.0, 6.5, 7.0]
    GRID2 = [7.0, 1.0, 4.0, 4.0, 0.0, 9.0, 2.0, 2.5, 6.0, 3.0, 5.0, 1.5, 8.0]
    def split(h, n, dim, m, sym, r, what, sort=True):
        """all points but the symbolic ones are fixed; for counts and radius queries"""
        base = [GRID1, GRID2][:dim]
        cols = [[K(Fraction(base[d][i])) for i in range(n)] for d in range(dim)]
        for (i, d) in sym:
            cols[d][i] = h.real(f"{'xy'[d]}{i}", -50, 50)
        ids = IDS[:n]
        f = h.frame(id=("u32", ids), **{XY[d]: ("f64", c) for d, c in enumerate(cols)})
        if r == "sym":
            p = h.param("r", 0.001, 100)
            r, api = p.v, p.api
        else:
            r, api = K(Fraction(r)), r
        pts = rows_(cols)
        if what == "radius":
            out = h.run(f, lambda pds, pl: pds.query_radius_ptwise(*XY[:dim], index="id", r=api, dist=m, sort=sort))
            for i in range(n):
                g = out[i].v if isinstance(out[i], Lst) else out[i]
                if g is None:
                    h.true(False, f"row {i} has an answer")
                else:
                    inside_check(h, m, pts, pts[i], r, g, None, ids, range(n), sort)
        else:
            out = h.run(f, lambda pds, pl: pds.query_nb_cnt(*XY[:dim], r=api, dist=m))
            for i in range(n):
                c = sum(h.br(fle(dist_(m, pts[j], pts[i]), r)) for j in range(n))
                h.eq(out[i], c, f"count of row {i}")
    for n, dim, m, sym, r, what in [(11, 1, "l1", [(4, 0)], 2.0, "radius"), (12, 1, "sql2", [(11, 0)], 4.0, "count"), (11, 1, "l2", [(10, 0)], 3.0, "count"), (11, 2, "l1", [(4, 0)], 4.0, "radius"), (12, 2, "inf", [(0, 1)], 3.0, "count"), (11, 2, "l2", [], "sym", "count"),
                                    (11, 1, "inf", [], "sym", "radius"), (11, 2, "sql2", [], "sym", "count"), (13, 2, "l1", [], "sym", "radius")] + \
            ([(11, 2, "l2", [(4, 0), (4, 1)], 4.0, "radius"), (11, 2, "l2", [(2, 0)], 3.0, "count"), (12, 2, "sql2", [(0, 1)], 9.0, "radius"), (12, 1, "l1", [(2, 0), (5, 0)], 3.0, "count")] if th else []):
        add(f"split tree[{what},{m},r={r},{len(sym)} free]/n={n},d={dim}", lambda h, a=(n, dim, m, sym, r, what): split(h, *a), f"{n} points in {dim} dimensions, coordinates {sym} {'and the radius ' if r == 'sym' else ''}arbitrary")

    # ------------------------------------------------ a point that moves along a line through a deeper tree
    def line(h, n, m, base, dr, r, what):
        dim = len(base)
        w = 2 if m == "l2" and not th else 14
        t = h.real("t", -w, w)
        q = [K(base[d]) if dr[d] == 0 else fadd(K(base[d]), fmul(K(dr[d]), t)) for d in range(dim)]
        pts = [[K(v) for v in p] for p in cloud(n, dim)]
        R = K(Fraction(r))
        if what == "tree":
            w, c = h.call(lambda: (lambda T_: (T_.within(h.array([q]), r, sort=True, return_dist=True), T_.within_count(h.array([q]), r)))(h.spatial().KDTree(h.array(pts), m)))
            g = [tuple(x) for x in w[0]]
            inside_check(h, m, pts, q, R, [x[0] for x in g], [x[1] for x in g], list(range(n)), range(n), True)
            return h.eq(c[0], len(g), "count")
        pts = pts + [q]
        cols = rows_(pts)
        if what == "count":
            f = h.frame(r=("f64", [None] * n + [R]), **{XY[d]: ("f64", list(c)) for d, c in enumerate(cols)})
            out = h.run(f, lambda pds, pl: pds.query_nb_cnt(*XY[:dim], r="r", dist=m))
            want = sum(h.br(fle(dist_(m, p, q), R)) for p in pts[:-1]) + 1
            return h.eq(list(out), [None] * n + [want], "count of the moving row")
        ids = list(range(100, 101 + n))
        f = h.frame(id=("u32", ids), **{XY[d]: ("f64", list(c)) for d, c in enumerate(cols)})
        out = h.run(f, lambda pds, pl: pds.query_radius_ptwise(*XY[:dim], index="id", r=r, dist=m, sort=False))
        for i in range(n + 1):
            g = out[i].v if isinstance(out[i], Lst) else out[i]
            inside_check(h, m, pts, pts[i], R, g, None, ids, range(n + 1), False)
    LN = [(24, "l1", (3, 4), (1, 0), 3.0, "tree"), (24, "l2", (5, 2), (0, 1), 2.5, "tree"), (24, "inf", (6, 7), (0, 1), 2.0, "tree"), (24, "sql2", (8, 3), (1, 1), 6.0, "tree"), (30, "inf", (5, 4, 3), (1, 0, 0), 3.0, "tree"), (30, "sql2", (2, 6, 7), (0, 1, 0), 9.0, "tree"), (30, "l1", (2, 6, 7), (0, 0, 1), 6.0, "tree"),
          (22, "l1", (3, 4), (0, 1), 3.0, "count"), (22, "sql2", (5, 2), (1, 0), 8.0, "count"), (22, "inf", (6, 7), (1, 0), 2.0, "count"), (24, "inf", (5, 4, 3), (0, 1, 0), 3.0, "count"), (22, "l2", (7, 3), (0, 1), 2.5, "count"), (24, "l1", (2, 6, 7), (0, 0, 1), 6.0, "count"),
          (14, "inf", (6, 7), (0, 1), 3.0, "radius"), (14, "l1", (4, 5), (1, 0), 4.0, "radius")]
    if th:
        LN += [(45, m, b, d, r, w) for m, r in (("l1", 4.0), ("sql2", 7.0), ("inf", 2.5), ("l2", 2.5)) for b, d in (((3, 4), (1, 0)), ((7, 2), (0, 1)), ((9, 9), (1, 1))) for w in ("tree", "count")]
    for a in LN:
        add(f"line[{a[5]},{a[1]},{a[2]},{a[3]},r={a[4]}]/n={a[0]},d={len(a[2])}", lambda h, a=a: line(h, *a), f"{a[0]} fixed points in {len(a[2])} dimensions and one anywhere on a line")
    # ------------------------------------------------ query_nb_cnt
    def cnt(h, n, dim, m, how, par, nulls=None):
        cols = points(h, n, dim, nulls)
        rs = h.reals("r", n, 0.001, 3000)
        if how in ("column", "expr"):
            rs = h.opts_(rs, "r")
        h.threads = 2 if par else 1
        f = h.frame(r=("f64", rs), **{XY[d]: ("f64", c) for d, c in enumerate(cols)})
        if how == "number":
            p = h.param("rad", 0.001, 3000)
            arg, rs = p.api, [p.v] * n
            out = h.run(f, lambda pds, pl: pds.query_nb_cnt(*XY[:dim], r=arg, dist=m, parallel=par))
        elif how == "int":
            rs = [K(2)] * n
            out = h.run(f, lambda pds, pl: pds.query_nb_cnt(*XY[:dim], r=2, dist=m, parallel=par))
        elif how == "column":
            out = h.run(f, lambda pds, pl: pds.query_nb_cnt(*XY[:dim], r="r", dist=m, parallel=par))
        elif how == "expr":
            out = h.run(f, lambda pds, pl: pds.query_nb_cnt(*XY[:dim], r=pl.col("r") * 0.5, dist=m, parallel=par))
            rs = [None if v is None else fmul(v, K(Fraction(1, 2))) for v in rs]
        elif how == "scalar expr":
            out = h.run(f, lambda pds, pl: pds.query_nb_cnt(*XY[:dim], r=pl.col("r").max(), dist=m, parallel=par))
            mx = max_(rs)
            rs = [mx] * n
        elif how == "scalar null":
            out = h.run(f, lambda pds, pl: pds.query_nb_cnt(*XY[:dim], r=pl.lit(None, dtype=pl.Float64), dist=m, parallel=par))
            rs = [None] * n
        else:
            ps = [h.param(f"rad{i}", 0.001, 3000) for i in range(n)]
            out = h.run(f, lambda pds, pl: pds.query_nb_cnt(*XY[:dim], r=[q.api for q in ps], dist=m, parallel=par))
            rs = [q.v for q in ps]
        pts = rows_(cols)
        want = []
        for i in range(n):
            if bad(pts[i]) or rs[i] is None:
                want.append(None)
            else:
                want.append(sum(h.br(fle(dist_(m, pts[j], pts[i]), rs[i])) for j in range(n) if not bad(pts[j])))
        h.eq(list(out), want)
    for n, dim, m, how, par in [(3, 1, "l1", "number", False), (3, 1, "l2", "number", True), (2, 2, "sql2", "number", False), (2, 2, "inf", "int", True), (2, 1, "l1", "column", False), (2, 2, "l1", "column", True), (3, 1, "inf", "column", True),
                                (2, 1, "sql2", "expr", False), (2, 1, "l1", "scalar expr", False), (2, 1, "l1", "scalar null", False), (2, 1, "l2", "list", False), (1, 1, "l1", "column", False)]:
        add(f"query_nb_cnt[{m},r={how},par={par}]/n={n},d={dim}", lambda h, a=(n, dim, m, how, par): cnt(h, *a), f"{n} arbitrary points in {dim} dimensions")
    for nu in ("null", "nan"):
        add(f"query_nb_cnt[{nu}]/n=3", lambda h, nu=nu: cnt(h, 3, 1, "l1", "number", False, nu), f"3 points, any may have a {nu} coordinate")
        add(f"query_nb_cnt[{nu},column radius,par]/n=2", lambda h, nu=nu: cnt(h, 2, 1, "sql2", "column", True, nu), f"2 points, any may have a {nu} coordinate")

    # ------------------------------------------------ query_radius_freq_cnt
    def freq(h, n, m):
        cols = points(h, n, 1)
        ids = IDS[:n]
        p = h.param("r", 0.001, 3000)
        f = h.frame(id=("u32", ids), x=("f64", cols[0]))
        r = h.run(f, lambda pds, pl: pds.query_radius_freq_cnt("x", index="id", r=p.api, dist=m))
        rows = [tuple(c.values()) if isinstance(c, dict) else tuple(c) for c in r]
        pts = rows_(cols)
        got = dict(rows)
        h.true(len(got) == len(rows) and set(got) == set(ids), f"every id once, got {rows}")
        for j in range(n):
            h.eq(got.get(ids[j]), sum(h.br(fle(dist_(m, pts[j], pts[i]), p.v)) for i in range(n)), f"count of id {ids[j]}")
        cs = [c for _, c in rows]
        h.true(all(a >= b for a, b in zip(cs, cs[1:])), "most frequent first")
    add("query_radius_freq_cnt[l1]/n=3", lambda h: freq(h, 3, "l1"), "3 arbitrary points, any radius")

    # ------------------------------------------------ comparisons with one point
    def near(h, n, dim, m, how, nulls=None):
        cols = points(h, n, dim, nulls)
        q = [h.param(f"q{d}", -1000, 1000) for d in range(dim)]
        rs = h.reals("r", n, 0, 3000)
        f = h.frame(r=("f64", rs), **{XY[d]: ("f64", c) for d, c in enumerate(cols)})
        if how == "number":
            p = h.param("rad", 0.001, 3000)
            rs, arg = [p.v] * n, p.api
            out = h.run(f, lambda pds, pl: pds.within_dist_from(*XY[:dim], pt=[v.api for v in q], r=arg, dist=m))
        else:
            out = h.run(f, lambda pds, pl: pds.within_dist_from(*XY[:dim], pt=[v.api for v in q], r=pl.col("r"), dist=m))
        for i, p in enumerate(rows_(cols)):
            if bad(p):
                h.true(out[i] is None, f"row {i} is null")
            elif out[i] is None:
                h.true(False, f"row {i} has an answer")
            else:
                h.eq(out[i], fle(dist_(m, p, [v.v for v in q]), rs[i]), f"row {i}")
    for n, dim, m, how in [(2, 2, "l1", "number"), (2, 2, "l2", "number"), (2, 2, "sql2", "column"), (2, 2, "inf", "column"), (1, 3, "l2", "column"), (1, 3, "inf", "number"), (2, 1, "l1", "column")]:
        add(f"within_dist_from[{m},r={how}]/n={n},d={dim}", lambda h, a=(n, dim, m, how): near(h, *a), f"{n} arbitrary points in {dim} dimensions, any point and radius")
    for m in ("l1", "l2", "inf"):
        add(f"within_dist_from[{m},nulls]/n=2,d=2", lambda h, m=m: near(h, 2, 2, m, "number", "null"), "2 points, any nulls")
    def near_cos(h, n, nulls):
        """a fixed point: the expression computes with it in python"""
        cols = points(h, n, 2, "null" if nulls else None)
        for c in cols:
            for v in c:
                if v is not None:
                    h.assume(flt(K(0), v))
        p = h.param("rad", 0.001, 3)
        f = h.frame(**{XY[d]: ("f64", c) for d, c in enumerate(cols)})
        out = h.run(f, lambda pds, pl: pds.within_dist_from("x", "y", pt=[3.0, 4.0], r=p.api, dist="cosine"))
        for i, (x, y) in enumerate(rows_(cols)):
            if x is None or y is None:
                h.true(out[i] is None, f"row {i} is null")
            elif out[i] is None:
                h.true(False, f"row {i} has an answer")
            else:
                d = fsub(K(1), fdiv(fadd(fmul(K(3), x), fmul(K(4), y)), fmul(K(5), fsqrt(fadd(sq(x), sq(y))))))
                h.eq(out[i], fle(d, p.v), f"row {i}")
    for nu in (False, True):
        add(f"within_dist_from[cosine,nulls={nu}]/n=1,d=2", lambda h, nu=nu: near_cos(h, 1, nu), "1 point with positive coordinates, any radius")
    def nearest(h, n, dim, m, k, nulls=None):
        cols = points(h, n, dim, nulls)
        q = [h.param(f"q{d}", -1000, 1000) for d in range(dim)]
        f = h.frame(**{XY[d]: ("f64", c) for d, c in enumerate(cols)})
        out = h.run(f, lambda pds, pl: pds.is_knn_from(*XY[:dim], pt=[v.api for v in q], k=k, dist=m))
        pts = rows_(cols)
        d = [None if bad(p) else dist_(m, p, [v.v for v in q]) for p in pts]
        for i in range(n):
            if d[i] is None:
                h.true(out[i] is None, f"row {i} is null")
                continue
            if out[i] is None:
                h.true(False, f"row {i} has an answer")
                continue
            closer = sum(h.br(flt(d[j], d[i])) for j in range(n) if j != i and d[j] is not None)
            h.eq(out[i], closer < k, f"row {i}: fewer than {k} rows are closer")
    for n, dim, m, k in [(3, 1, "l1", 1), (3, 1, "inf", 2), (2, 2, "sql2", 1), (2, 2, "l2", 1), (2, 2, "l1", 1), (2, 1, "l1", 3)]:
        add(f"is_knn_from[{m}]/n={n},d={dim},k={k}", lambda h, a=(n, dim, m, k): nearest(h, *a), f"{n} arbitrary points in {dim} dimensions")
    add("is_knn_from[nulls]/n=3,k=1", lambda h: nearest(h, 3, 1, "l1", 1, "null"), "3 points, any nulls")

    # ------------------------------------------------ KDTree
    def tree(h, n, dim, m, nq, how, wd, sort, add_=0, par=False):
        pts = [lim(h, f"p{i}_", dim) if nq < 10 else [K(i * 3)] * dim for i in range(n)]
        qs = [lim(h, f"q{i}_", dim) if nq < 10 or i == nq - 1 else [K(Fraction(3 * i % 7))] * dim for i in range(nq)]
        h.threads = 2 if par else 1
        if how == "number":
            p = h.param("r", 0.001, 3000)
            rs = [p.v] * nq
            rad = lambda: p.api
        elif nq == 1:
            import numpy as np
            p = h.param("r", 0.001, 3000)
            rs = [p.v]
            rad = lambda: np.array([p.api])
        else:
            rs = [h.real(f"r{i}", 0.001, 3000) if nq < 10 or i == nq - 2 else K(2) for i in range(nq)]
            rad = lambda: h.array(rs)
        def go():
            t = h.spatial().KDTree(h.array(pts[:n - add_] if add_ else pts), m)
            if add_:
                t.add(h.array(pts[n - add_:]))
            X = h.array(qs)
            return t.within(X, rad(), sort=sort, return_dist=wd, parallel=par), t.within_count(X, rad(), parallel=par)
        w, c = h.call(go)
        if w is None or len(w) != nq or c is None or len(c) != nq:
            return h.true(False, f"one answer per query, got {w} {c}")
        for i in range(nq):
            g = [tuple(x) if wd else x for x in w[i]]
            gi = [x[0] for x in g] if wd else g
            inside_check(h, m, pts, qs[i], rs[i], gi, [x[1] for x in g] if wd else None, list(range(n)), range(n), sort)
            h.eq(c[i], len(gi), f"count of query {i}")
    for n, dim, m, nq, how, wd, sort, ad, par in [(3, 1, "l1", 1, "number", True, True, 0, False), (2, 2, "sql2", 1, "number", False, False, 0, False), (2, 1, "l2", 2, "array", False, True, 0, False), (2, 1, "inf", 2, "array", True, False, 0, False),
                                                  (2, 1, "l1", 1, "array", True, True, 0, False), (2, 1, "l1", 1, "array", False, False, 0, True), (3, 1, "sql2", 1, "number", True, True, 1, False),
                                                  (2, 1, "l1", 17, "number", True, True, 0, True), (2, 1, "l1", 17, "array", False, True, 0, True), (2, 1, "l1", 17, "number", False, False, 0, True), (2, 1, "inf", 17, "array", True, False, 0, True)]:
        add(f"KDTree.within[{m},r={how},dist={wd},sort={sort},add={ad},par={par}]/n={n},d={dim},queries={nq}", lambda h, a=(n, dim, m, nq, how, wd, sort, ad, par): tree(h, *a), f"{n} arbitrary points, {nq} query points (the last is arbitrary)")
    return obs
