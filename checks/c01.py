from .common import *

ASSUMPTIONS = ["coordinates are finite 64-bit floats (nulls and NaN where the obligation adds them) of magnitude at most 1000", "rayon runs its closures once each, in any order: the tasks write disjoint slots"]

IDS = [7, 3, 11, 0, 5, 2, 9, 4, 13, 6, 21, 8, 17, 30, 12, 1]
METRICS = ("l1", "l2", "sql2", "inf")

def dist_(m, a, b):
    ds = [fsub(x, y) for x, y in zip(a, b)]
    if m == "l1":
        return fsum_(fabs(d) for d in ds)
    if m == "inf":
        return max_([fabs(d) for d in ds])
    s = fsum_(sq(d) for d in ds)
    return fsqrt(s) if m == "l2" else s

def knn_check(h, m, pts, q, k, got, gotd, ids, elig, bound=None, strict=True):
    """got: the ids answered for query point q among the points pts[j], j in elig"""
    pos = {v: j for j, v in enumerate(ids)}
    got = list(got)
    if not all(isinstance(g, int) and g in pos for g in got):
        return h.true(False, f"known ids, got {got}")
    idx = [pos[g] for g in got]
    if len(set(idx)) != len(idx) or not set(idx) <= set(elig):
        return h.true(False, f"distinct eligible neighbours, got {got}")
    d = {j: dist_(m, pts[j], q) for j in elig}
    if bound is None:
        if len(idx) != min(k, len(elig)):
            return h.true(False, f"{min(k, len(elig))} neighbours, got {len(idx)}")
    else:
        for j in idx:
            h.le(d[j], bound, "neighbour within the bound")
        if len(idx) < k:
            for j in elig:
                if j not in idx:
                    h.le(bound, d[j], "no eligible neighbour within the bound is left out")
                    if strict:
                        h.true(flt(bound, d[j]), "no eligible neighbour at the bound is left out")
    for a, b in zip(idx, idx[1:]):
        h.le(d[a], d[b], "non-decreasing distances")
    if idx:
        for j in elig:
            if j not in idx and (bound is None or len(idx) == k):
                h.le(d[idx[-1]], d[j], "the k smallest distances")
    if gotd is not None:
        h.eq(list(gotd), [d[j] for j in idx], "reported distances")

def cloud(n, dim):
    """fixed integer points, spread out and in clumps, with ties in single coordinates"""
    out, a = [], 5
    for i in range(n):
        p = []
        for d in range(dim):
            a = (a * 37 + 11 * d + 7 * i + 3) % 101
            p.append(a % 11)
        out.append(p)
    return out

def rows_(cols):
    return list(zip(*cols))

def obligations(tier):
    th = tier == "thorough"
    obs = []
    def lim(h, name, n):
        return h.reals(name, n, -1000, 1000)

    # ------------------------------------------------ query_knn_ptwise, small fully symbolic frames
    def small(h, n, dim, k, m, wd, par, nulls=False, dm=False, em=False, bound=False):
        cols = [lim(h, "xyz"[d], n) for d in range(dim)]
        if nulls:
            cols = [[h.special(f"{'xyz'[d]}{i}", v, ("nan", "null")) if False else h.opt(v, f"{'xyz'[d]}{i}") for i, v in enumerate(c)] for d, c in enumerate(cols)]
        ids = IDS[:n]
        dmask = [h.pick([True, False, None], f"d{i}") for i in range(n)] if dm else [True] * n
        emask = [h.pick([True, False, None], f"e{i}") for i in range(n)] if em else [True] * n
        f = h.frame(id=("u32", ids), dm=("bool", dmask), em=("bool", emask), **{"xyz"[d]: ("f64", c) for d, c in enumerate(cols)})
        feats = list("xyz"[:dim])
        kw = {}
        b = None
        if bound:
            p = h.param("r", 0.001, 2000)
            b = p.v
            kw["max_bound"] = p.api
        else:
            kw["max_bound"] = 1e9
        if dm:
            kw["data_mask"] = "dm"
        if em:
            kw["eval_mask"] = "em"
        h.threads = 2 if par else 1
        r = h.run(f, lambda pds, pl: pds.query_knn_ptwise(*feats, index="id", k=k, dist=m, parallel=par, return_dist=wd, **kw))
        pts = rows_(cols)
        elig = [j for j in range(n) if dmask[j] is True and None not in pts[j]]
        if len(r) != n:
            return h.true(False, "one answer per row")
        for i in range(n):
            g, gd = (r[i] if wd else (r[i], None))
            if wd and isinstance(r[i], dict):
                g, gd = r[i]["idx"], r[i]["dist"]
            g = g.v if isinstance(g, Lst) else g
            gd = gd.v if isinstance(gd, Lst) else gd
            if emask[i] is not True or None in pts[i]:
                h.true(g is None and gd is None, f"row {i} is null, got {g}")
            elif g is None:
                h.true(False, f"row {i} has an answer")
            else:
                knn_check(h, m, pts, pts[i], k + 1, g, gd, ids, elig, b)
    for n, dim, k, m, wd, par in [(3, 1, 1, "l1", True, False), (3, 1, 1, "l2", True, False), (3, 1, 2, "sql2", True, False), (3, 1, 1, "inf", False, True), (4, 1, 2, "l1", False, False),
                                  (1, 2, 1, "l2", True, False), (2, 2, 1, "sql2", True, False), (2, 2, 1, "inf", False, False), (2, 2, 2, "l1", True, True), (2, 3, 1, "l2", True, False)] + \
            ([(3, 2, 1, "inf", False, False), (3, 2, 1, "sql2", False, False), (4, 1, 1, "sql2", True, True), (4, 1, 3, "l2", True, False)] if th else []):
        obs.append(Ob(f"query_knn_ptwise[{m},dist={wd},par={par}]/n={n},d={dim},k={k}", lambda h, a=(n, dim, k, m, wd, par): small(h, *a), f"{n} arbitrary points in {dim} dimensions, k={k}", paths=6000))
    for n, dim, k, m, wd, par in [(2, 2, 1, "l1", True, False), (3, 1, 1, "sql2", False, True)]:
        obs.append(Ob(f"query_knn_ptwise[nulls,{m}]/n={n},d={dim}", lambda h, a=(n, dim, k, m, wd, par): small(h, *a, nulls=True), f"{n} points in {dim} dimensions, any null pattern"))
        obs.append(Ob(f"query_knn_ptwise[data mask,{m}]/n={n},d={dim}", lambda h, a=(n, dim, k, m, wd, par): small(h, *a, dm=True), f"{n} points, any three-valued data mask"))
        obs.append(Ob(f"query_knn_ptwise[eval mask,{m}]/n={n},d={dim}", lambda h, a=(n, dim, k, m, wd, par): small(h, *a, em=True), f"{n} points, any three-valued evaluation mask"))
        obs.append(Ob(f"query_knn_ptwise[max_bound,{m}]/n={n},d={dim}", lambda h, a=(n, dim, k, m, wd, par): small(h, *a, bound=True), f"{n} points, any positive distance bound"))
    # ------------------------------------------------ trees that split: 11 to 13 rows, some symbolic
    GRID1 = [0.0, 1.0, 2.0, 3.0, 5.0, 8.0, 13.0, 21.0, 2.0, 4.0, 4.0, 6.5, 7.0]
    GRID2 = [7.0, 1.0, 4.0, 4.0, 0.0, 9.0, 2.0, 2.5, 6.0, 3.0, 5.0, 1.5, 8.0]
    def big(h, n, dim, k, m, sym, query, bound=None, wd=True, order=0):
        """rows in `sym` have one or more symbolic coordinates; only row `query` is evaluated"""
        base = [GRID1, GRID2][:dim]
        cols = [[K(Fraction(base[d][i])) for i in range(n)] for d in range(dim)]
        for (i, d) in sym:
            cols[d][i] = h.real(f"{'xy'[d]}{i}", -50, 50)
        ids = IDS[:n]
        em = [i == query for i in range(n)]
        f = h.frame(id=("u32", ids), em=("bool", em), **{"xy"[d]: ("f64", c) for d, c in enumerate(cols)})
        feats = list("xy"[:dim])
        b = None
        if bound == "sym":
            p = h.param("r", 0.001, 2000)
            b, api = p.v, p.api
        elif bound is not None:
            b, api = K(Fraction(bound)), bound
        else:
            api = 1e9
        r = h.run(f, lambda pds, pl: pds.query_knn_ptwise(*feats, index="id", k=k, dist=m, return_dist=wd, eval_mask="em", max_bound=api))
        pts = rows_(cols)
        for i in range(n):
            if i != query:
                h.true(r[i] is None or (isinstance(r[i], dict) and r[i]["idx"] is None) or (isinstance(r[i], tuple) and r[i][0] is None), f"row {i} is null")
        g = r[query]
        g = (g["idx"], g["dist"]) if isinstance(g, dict) else g if wd else (g, None)
        g = [x.v if isinstance(x, Lst) else x for x in g]
        knn_check(h, m, pts, pts[query], k + 1, g[0], g[1], ids, range(n), b)
    SPL = [(11, 1, 1, "l1", [(3, 0)], 3), (11, 1, 2, "sql2", [(3, 0)], 5), (12, 1, 1, "l2", [(11, 0)], 11), (12, 1, 1, "inf", [(2, 0)], 11),
           (11, 2, 1, "l1", [(4, 0)], 4), (12, 2, 1, "inf", [(11, 1)], 11), (11, 2, 1, "sql2", [(10, 0)], 10), (13, 2, 2, "l2", [(12, 0)], 12), (13, 2, 2, "l1", [(0, 0)], 12)]
    if th:
        SPL += [(12, 1, 1, "inf", [(2, 0), (11, 0)], 11), (11, 2, 1, "l1", [(4, 0), (4, 1)], 4), (12, 2, 1, "inf", [(11, 0), (11, 1)], 11), (11, 2, 1, "sql2", [(10, 0), (10, 1)], 10), (13, 2, 2, "l2", [(12, 0), (12, 1)], 12), (13, 2, 2, "l1", [(12, 1), (0, 0)], 12)]
    for n, dim, k, m, sym, q in SPL:
        obs.append(Ob(f"query_knn_ptwise[split,{m},row {q},{len(sym)} free]/n={n},d={dim},k={k}", lambda h, a=(n, dim, k, m, sym, q): big(h, *a), f"{n} points in {dim} dimensions, coordinates {sym} arbitrary", paths=6000))
    for n, dim, k, m, sym, q, b in [(11, 1, 2, "l1", [(3, 0)], 3, 2.0), (12, 1, 1, "l1", [(3, 0)], 3, "sym"), (11, 2, 2, "inf", [(4, 0)], 4, 1.5)] + ([(12, 1, 3, "l1", [(3, 0)], 3, "sym"), (11, 2, 2, "inf", [(4, 0), (4, 1)], 4, 1.5)] if th else []):
        obs.append(Ob(f"query_knn_ptwise[split,bound,{m},row {q},{len(sym)} free]/n={n},d={dim},k={k}", lambda h, a=(n, dim, k, m, sym, q, b): big(h, *a), f"{n} points in {dim} dimensions, coordinates {sym} arbitrary, distance bound {b}", paths=6000))
    # ------------------------------------------------ a query point that moves along a line through a deeper tree
    def line(h, n, k, m, base, dr, bound=None, tree=False):
        dim = len(base)
        P = cloud(n, dim)
        w = 2 if m == "l2" and not th else 14
        t = h.real("t", -w, w)
        q = [K(base[d]) if dr[d] == 0 else fadd(K(base[d]), fmul(K(dr[d]), t)) for d in range(dim)]
        pts = [[K(v) for v in p] for p in P]
        ids = list(range(100, 100 + n))
        b, api = (None, 1e9) if bound is None else (K(Fraction(bound)), bound)
        if tree:
            ds, idx = h.call(lambda: h.spatial().KDTree(h.array(pts), m).knn(h.array([q]), k, max_dist_bound=api))
            g = [int(v) for v in list(idx[0])]
            g = [100 + v for v in g if v != 4294967295]
            return knn_check(h, m, pts, q, k, g, list(ds[0])[:len(g)], ids, range(n), b)
        cols = [[p[d] for p in pts] + [q[d]] for d in range(dim)]
        f = h.frame(id=("u32", ids + [99]), dm=("bool", [True] * n + [False]), em=("bool", [False] * n + [True]), **{"xyz"[d]: ("f64", c) for d, c in enumerate(cols)})
        r = h.run(f, lambda pds, pl: pds.query_knn_ptwise(*list("xyz"[:dim]), index="id", k=k, dist=m, return_dist=True, data_mask="dm", eval_mask="em", max_bound=api))
        g = r[n]
        g = (g["idx"], g["dist"]) if isinstance(g, dict) else g
        g = [x.v if isinstance(x, Lst) else x for x in g]
        knn_check(h, m, pts, q, k + 1, g[0], g[1], ids, range(n), b)
    LN = [(24, 1, "l1", (3, 4), (1, 0)), (24, 1, "l2", (5, 2), (0, 1)), (24, 2, "sql2", (1, 9), (1, 0)), (24, 1, "inf", (6, 7), (0, 1)), (24, 1, "inf", (2, 3), (1, 1)), (24, 1, "l1", (8, 1), (-1, 1)), (24, 1, "inf", (4, 8), (1, -1)),
          (30, 1, "inf", (3, 4, 5), (1, 0, 0)), (30, 1, "l1", (5, 4, 3), (0, 1, 0)), (30, 1, "sql2", (6, 2, 7), (0, 0, 1)), (24, 1, "l2", (2, 6, 4), (1, 0, 0))]
    if th:
        LN += [(30, 2, m, b, d) for m in METRICS for b, d in (((3, 4, 5), (1, 1, 0)), ((7, 2, 6), (0, 1, -1)), ((2, 8, 3), (1, -1, 1)), ((9, 9, 1), (0, 0, 1)))]
        LN += [(45, 3, m, b, d) for m in METRICS for b, d in (((3, 4), (1, 0)), ((7, 2), (0, 1)), ((9, 9), (1, 1)))]
    for n, k, m, b, d in LN:
        obs.append(Ob(f"query_knn_ptwise[line,{m},{b},{d}]/n={n},d={len(b)},k={k}", lambda h, a=(n, k, m, b, d): line(h, *a), f"{n} fixed points in {len(b)} dimensions, the query point is anywhere on a line", paths=6000))
    for n, k, m, b, d, bd in [(24, 3, "inf", (6, 7), (1, 0), 2.0), (24, 2, "sql2", (3, 3), (0, 1), 5.0), (30, 3, "l1", (3, 4, 5), (0, 1, 0), 5.0)]:
        obs.append(Ob(f"query_knn_ptwise[line,bound {bd},{m},{b},{d}]/n={n},d={len(b)},k={k}", lambda h, a=(n, k, m, b, d, bd): line(h, *a), f"{n} fixed points in {len(b)} dimensions, the query point is anywhere on a line, distance bound {bd}", paths=6000))
    for n, k, m, b, d in [(24, 1, "l1", (3, 4), (0, 1)), (24, 2, "l2", (5, 2), (1, 0)), (24, 1, "inf", (6, 7), (1, 0)), (24, 2, "inf", (2, 9), (1, 1)), (30, 1, "sql2", (5, 4, 3), (0, 1, 0)), (30, 1, "inf", (5, 4, 3), (0, 0, 1))]:
        obs.append(Ob(f"KDTree.knn[line,{m},{b},{d}]/n={n},d={len(b)},k={k}", lambda h, a=(n, k, m, b, d): line(h, *a, tree=True), f"{n} fixed points in {len(b)} dimensions, the query point is anywhere on a line", paths=6000))
    # ------------------------------------------------ rows without a value
    def missing(h, n, dim, k, kind):
        cols = [lim(h, "xyz"[d], n) for d in range(dim)]
        bad = h.choose(n + 1, "bad")            # rows before `bad` have a missing coordinate
        for i in range(bad):
            cols[0][i] = {"null": None, "nan": NAN}[kind]
        ids = IDS[:n]
        f = h.frame(id=("u32", ids), **{"xyz"[d]: ("f64", c) for d, c in enumerate(cols)})
        r = h.run(f, lambda pds, pl: pds.query_knn_ptwise(*list("xyz"[:dim]), index="id", k=k, dist="l1"))
        pts = rows_(cols)
        for i in range(n):
            g = r[i].v if isinstance(r[i], Lst) else r[i]
            if i < bad:
                h.true(g is None, f"row {i} is null, got {g}")
            elif g is None:
                h.true(False, f"row {i} has an answer")
            else:
                knn_check(h, "l1", pts, pts[i], k + 1, g, None, ids, range(bad, n))
    for kind in ("null", "nan"):
        obs.append(Ob(f"query_knn_ptwise[{kind} rows]/n=3", lambda h, kind=kind: missing(h, 3, 1, 1, kind), f"3 points, the first 0 to 3 have a {kind} coordinate"))
    # ------------------------------------------------ distance to the k-th neighbour
    def kth(h, n, dim, k, m, par, nulls=False):
        cols = [lim(h, "xyz"[d], n) for d in range(dim)]
        if nulls:
            cols = [h.opts_(c, f"c{d}") for d, c in enumerate(cols)]
        f = h.frame(**{"xyz"[d]: ("f64", c) for d, c in enumerate(cols)})
        h.threads = 2 if par else 1
        r = h.run(f, lambda pds, pl: pds.query_dist_from_kth_nb(*list("xyz"[:dim]), k=k, dist=m, parallel=par, max_bound=1e9))
        pts = rows_(cols)
        elig = [j for j in range(n) if None not in pts[j]]
        want = []
        for i in range(n):
            if None in pts[i]:
                want.append(None)
            elif len(elig) < k + 1:
                want.append(r[i])           # fewer than k other points: unspecified
            else:
                ds = [dist_(m, pts[j], pts[i]) for j in elig]
                want.append(kth_smallest(h, ds, k))
        h.eq(list(r), want)
    def kth_smallest(h, ds, k):
        ds = list(ds)
        for i in range(len(ds)):
            for j in range(i + 1, len(ds)):
                if h.br(flt(ds[j], ds[i])):
                    ds[i], ds[j] = ds[j], ds[i]
        return ds[k]
    for n, dim, k, m, par in [(2, 1, 1, "l1", False), (3, 1, 1, "l2", False), (3, 1, 2, "inf", True), (3, 2, 2, "sql2", False), (2, 2, 1, "l1", True), (4, 1, 2, "l1", False)]:
        if n * dim <= 4 and not (n == 4) or th:
            obs.append(Ob(f"query_dist_from_kth_nb[{m},par={par}]/n={n},d={dim},k={k}", lambda h, a=(n, dim, k, m, par): kth(h, *a), f"{n} arbitrary points in {dim} dimensions", paths=6000))
    obs.append(Ob("query_dist_from_kth_nb[nulls]/n=3", lambda h: kth(h, 3, 1, 1, "l1", False, True), "3 points, nulls"))
    # ------------------------------------------------ how often a row is a neighbour
    def freq(h, n, k, dm):
        x = lim(h, "x", n)
        ids = IDS[:n]
        mask = [h.pick([True, False], f"d{i}") for i in range(n)] if dm else [True] * n
        f = h.frame(id=("u32", ids), x=("f64", x), dm=("bool", mask))
        r = h.run(f, lambda pds, pl: pds.query_knn_freq_cnt("x", index="id", k=k, dist="l1", max_bound=1e9, **({"data_mask": "dm"} if dm else {})))
        rows = [tuple(c.values()) if isinstance(c, dict) else tuple(c) for c in r]
        elig = [j for j in range(n) if mask[j]]
        kk = min(k + 1, len(elig))
        got = {}
        for a, c in rows:
            if not (isinstance(a, int) and a in ids and a not in got):
                return h.true(False, f"distinct known ids, got {rows}")
            got[a] = c
        tot = 0
        for j in range(n):
            lo = hi = 0
            if j in elig:
                for i in range(n):
                    d = dist_("l1", (x[j],), (x[i],))
                    better = sum(h.br(flt(dist_("l1", (x[l],), (x[i],)), d)) for l in elig if l != j)
                    same = sum(h.br(feq(dist_("l1", (x[l],), (x[i],)), d)) for l in elig if l != j)
                    if better + same < kk:
                        lo += 1
                    if better < kk:
                        hi += 1
            c = got.get(ids[j], 0)
            h.true(ile(lo, c) if not isinstance(c, int) else lo <= c, f"count of id {ids[j]}: at least {lo}")
            h.true(ile(c, hi) if not isinstance(c, int) else c <= hi, f"count of id {ids[j]}: at most {hi}")
            tot = tot + c
        h.true(tot == kk * n, f"{kk * n} neighbour slots in total, got {tot}")
    obs.append(Ob("query_knn_freq_cnt/n=3,k=1", lambda h: freq(h, 3, 1, False), "3 arbitrary points", paths=3000))
    obs.append(Ob("query_knn_freq_cnt[data mask]/n=3,k=1", lambda h: freq(h, 3, 1, True), "3 arbitrary points, any data mask", paths=3000))
    # ------------------------------------------------ KDTree
    def tree(h, n, dim, k, m, nq, par=False, add=0, bound=False, order="C"):
        pts = [lim(h, f"p{i}_", dim) for i in range(n)]
        qs = [lim(h, f"q{i}_", dim) if i in (0, nq - 1) else [K(Fraction(3 * i % 7))] * dim for i in range(nq)]
        h.threads = 2 if par else 1
        kw, b = {}, None
        if bound:
            p = h.param("r", 0.001, 2000)
            b = p.v
            kw["max_dist_bound"] = p.api
        else:
            kw["max_dist_bound"] = 1e9
        def go():
            t = h.spatial().KDTree(h.array(pts[:n - add], order), m)
            if add:
                t.add(h.array(pts[n - add:]))
            return t.knn(h.array(qs), k, parallel=par, **kw), t.count(), len(t)
        (ds, idx), cnt, ln = h.call(go)       # distances first (the tests rely on it)
        h.eq([cnt, ln], [n, n], "count")
        h.eq([list(idx.shape), list(ds.shape)], [[nq, k], [nq, k]], "shape")
        for i in range(nq):
            g, gd = list(idx[i]), list(ds[i])
            g = [int(v) if not isinstance(v, (int, SI)) else v for v in g]
            real = [j for j, v in enumerate(g) if v != 4294967295]
            h.true(real == list(range(len(real))), "padding comes last")
            h.true(all(g[j] == 4294967295 for j in range(len(real), k)), "padded ids")
            h.eq(gd[len(real):], [PINF] * (k - len(real)), "padded distances")
            knn_check(h, m, pts, qs[i], k, g[:len(real)], gd[:len(real)], list(range(n)), range(n), b)
    for n, dim, k, m, nq, par, add, bound, order in [(2, 1, 1, "l1", 1, False, 0, False, "C"), (3, 1, 2, "sql2", 1, False, 0, False, "C"), (2, 2, 1, "l2", 1, False, 0, False, "C"), (2, 2, 3, "inf", 1, False, 0, False, "C"),
                                              (3, 1, 2, "l1", 1, False, 1, False, "C"), (3, 1, 2, "l1", 1, False, 2, False, "C"), (2, 1, 2, "l1", 1, False, 0, True, "C"), (2, 2, 1, "l1", 2, False, 0, False, "F"), (2, 1, 1, "l1", 16, True, 0, False, "C")]:
        obs.append(Ob(f"KDTree.knn[{m},add={add},bound={bound},{order}]/n={n},d={dim},k={k},queries={nq}", lambda h, a=(n, dim, k, m, nq, par, add, bound, order): tree(h, *a), f"{n} arbitrary points, {nq} arbitrary query points", paths=3000))
    return obs
