"""Parallel execution against the sequential result of the same code, for numbers of worker threads and rows around the split boundaries"""
from .strs import *

ASSUMPTIONS = ["rayon runs its closures once each, in any order: the tasks write disjoint slots"]

WORDS = ["kitten", "sitting", "", "ca", "abc", "añb", "ab", "ba", "abcd", "abdc", "xyz", "zyx", "bca", "aab", "cabb", "bb", "acab", "ccc", "bcab", "abab"]

def plain(v):
    """nested lists of the values of (arrays, lists, tuples of) numbers"""
    if hasattr(v, "tolist"):
        v = v.tolist()
    return [plain(x) for x in v] if isinstance(v, (list, tuple)) else v

def obligations(tier):
    th = tier == "thorough"
    obs = []
    # ---------------------------------------------------------------- string functions
    STR = {
        "str_leven": lambda p, x, y, par: p.str_leven(x, y, parallel=par),
        "str_leven[sim]": lambda p, x, y, par: p.str_leven(x, y, parallel=par, return_sim=True),
        "str_d_leven": lambda p, x, y, par: p.str_d_leven(x, y, parallel=par),
        "str_d_leven[sim]": lambda p, x, y, par: p.str_d_leven(x, y, parallel=par, return_sim=True),
        "str_osa": lambda p, x, y, par: p.str_osa(x, y, parallel=par),
        "str_osa[sim]": lambda p, x, y, par: p.str_osa(x, y, parallel=par, return_sim=True),
        "str_lcs_seq": lambda p, x, y, par: p.str_lcs_seq(x, y, parallel=par),
        "str_lcs_seq[dist]": lambda p, x, y, par: p.str_lcs_seq(x, y, parallel=par, return_sim=False),
        "str_hamming": lambda p, x, y, par: p.str_hamming(x, y, parallel=par),
        "str_hamming[pad]": lambda p, x, y, par: p.str_hamming(x, y, pad=True, parallel=par),
        "str_jaro": lambda p, x, y, par: p.str_jaro(x, y, parallel=par),
        "str_jw": lambda p, x, y, par: p.str_jw(x, y, parallel=par),
        "str_fuzz": lambda p, x, y, par: p.str_fuzz(x, y, parallel=par),
        "str_jaccard": lambda p, x, y, par: p.str_jaccard(x, y, parallel=par),
        "str_sorensen_dice": lambda p, x, y, par: p.str_sorensen_dice(x, y, parallel=par),
        "str_overlap_coeff": lambda p, x, y, par: _oc(x, y, par),
        "str_tversky_sim": lambda p, x, y, par: p.str_tversky_sim(x, y, 0.5, 0.25, parallel=par),
        "filter_by_levenshtein": lambda p, x, y, par: p.filter_by_levenshtein(x, y, 3, parallel=par),
        "filter_by_hamming": lambda p, x, y, par: p.filter_by_hamming(x, y, 2, parallel=par),
        "filter_by_hamming[pad]": lambda p, x, y, par: p.filter_by_hamming(x, y, 3, pad=True, parallel=par),
    }
    def _oc(x, y, par):
        from polars_ds.exprs.string import str_overlap_coeff
        return str_overlap_coeff(x, y, parallel=par)
    def strs(h, call, how, t, ns, lit="bac"):
        h.threads = t
        n = h.pick(ns, "n")
        k = max(n // t, 1)
        # the arbitrary row: first, last, and both sides of the first and the last boundary
        at = h.pick(sorted({i for i in ((0, k - 1, k, (t - 1) * k, n - 1) if th else (0, k, n - 1)) if 0 <= i < n}) or [0], "at")
        nul = h.pick(sorted({None, k, n - 1} - {at} if n > 1 else {None}, key=str), "null") if th else (n - 1 if at == k else k)
        x = h.str("x", 2, 2, 97, 99) if th else h.str("x", 1, 1, 97, 98)
        l = [(S(WORDS[i % 20]), S(WORDS[(7 * i + 3) % 20])) for i in range(n)]
        if n:
            l[at] = (x, l[at][1])
            if nul is not None and nul < n:
                l[nul] = (None, l[nul][1]) if how == "lit" or nul % 2 else (l[nul][0], None)
        ch = None if n < 3 else h.pick((None, [1, n - 1]), "chunks") if th else (None, [1, n - 1])[n % 2]
        if how == "col":
            f = h.frame(a=("str", [p for p, _ in l], ch), b=("str", [q for _, q in l], ch))
            run = lambda par: h.run(f, lambda pds, pl: call(pds, "a", "b", par))
        else:
            f = h.frame(a=("str", [p for p, _ in l], ch))
            run = lambda par: h.run(f, lambda pds, pl: call(pds, "a", pl.lit(lit), par))
        s = run(False)
        p = run(True)
        h.eq(len(p), n, "one answer per row")
        h.eq(p, s)
    TS = range(1, 9) if th else (2, 3, 8)
    for i, (name, call) in enumerate(STR.items()):
        for how in ("col", "lit"):
            for t in TS:
                if not th and t == (2, 8)[(i + (how == "lit")) % 2]:
                    continue
                ns = (0, 1, t - 1, t, t + 1, 2 * t + 1, 3 * t - 1) if th else (0, 1, t - 1, t, t + 1, 2 * t + 1)
                ns = sorted(set(ns))
                obs.append(Ob(f"{name}/{how}/threads={t}", lambda h, c=call, how=how, t=t, ns=ns: strs(h, c, how, t, ns),
                              f"{ns} rows: fixed strings, a null, and an arbitrary string of letters at either side of the split boundaries; one or two chunks; {t} threads", paths=9000, threads=t))
    # ---------------------------------------------------------------- neighbours
    def ptrows(h, n, t, dims=1):
        """fixed distinct points, one arbitrary point at a split boundary, a null"""
        k = max(n // t, 1)
        at = h.pick(sorted({i for i in ((0, k - 1, k, (t - 1) * k, n - 1) if th else (k, n - 1)) if 0 <= i < n}) or [0], "at")
        x = [fl(((5 * i) % 7) * 2 + i / 8) for i in range(n)]
        y = [fl((3 * i) % 5 - i / 4) for i in range(n)]
        if n:
            x[at] = h.real("p", 0, 4)
        return at, x, y
    def nbr(h, call, t, ns, mask):
        h.threads = t
        n = h.pick(ns, "n")
        at, x, y = ptrows(h, n, t)
        nul = n // 2
        if mask == "null" and n > 2 and nul != at:
            x[nul] = None
        em = [mask != "mask" or i % 3 != 1 for i in range(n)]
        dm = [mask != "mask" or i % 4 != 2 for i in range(n)]
        rad = [fl((i % 4) * 1.5 + 0.5) for i in range(n)]
        ch = [1, n - 1] if n > 2 and n % 2 else None
        f = h.frame(id=("u32", [10 + 3 * i for i in range(n)], ch), x=("f64", x, ch), y=("f64", y, ch), em=("bool", em, ch), dm=("bool", dm, ch), rad=("f64", rad, ch), t=("f64", [fl(i * i) for i in range(n)], ch))
        s = h.run(f, lambda pds, pl: call(pds, pl, False))
        p = h.run(f, lambda pds, pl: call(pds, pl, True))
        h.eq(len(p), n, "one answer per row")
        h.eq(p, s)
    N = {
        "query_knn_ptwise": (lambda p, pl, par: p.query_knn_ptwise("x", "y", index="id", k=1, dist="l1", parallel=par), "null"),
        "query_knn_ptwise[masks]": (lambda p, pl, par: p.query_knn_ptwise("x", "y", index="id", k=2, dist="sql2", parallel=par, eval_mask="em", data_mask="dm"), "mask"),
        "query_knn_ptwise[dist]": (lambda p, pl, par: p.query_knn_ptwise("x", "y", index="id", k=1, dist="inf", parallel=par, return_dist=True), "null"),
        "query_knn_ptwise[dist, masks]": (lambda p, pl, par: p.query_knn_ptwise("x", "y", index="id", k=1, dist="l1", parallel=par, return_dist=True, eval_mask="em", data_mask="dm"), "mask"),
        "query_knn_avg": (lambda p, pl, par: p.query_knn_avg("x", "y", target="t", k=2, dist="l1", parallel=par), "null"),
        "query_knn_avg[weighted]": (lambda p, pl, par: p.query_knn_avg("x", "y", target="t", k=1, dist="l1", weighted=True, parallel=par), ""),
        "query_dist_from_kth_nb": (lambda p, pl, par: p.query_dist_from_kth_nb("x", "y", k=2, dist="l1", parallel=par), ""),
        "query_radius_ptwise": (lambda p, pl, par: p.query_radius_ptwise("x", "y", index="id", r=2.5, dist="l1", parallel=par), "null"),
        "query_nb_cnt": (lambda p, pl, par: p.query_nb_cnt("x", "y", r=2.5, dist="l1", parallel=par), "null"),
        "query_nb_cnt[radius column]": (lambda p, pl, par: p.query_nb_cnt("x", "y", r="rad", dist="inf", parallel=par), ""),
    }
    for i, (name, (call, mask)) in enumerate(N.items()):
        for t in TS:
            if not th and t == (2, 8)[i % 2]:
                continue
            ns = sorted({0, 1, t - 1, t, t + 1, 2 * t + 1} if th else {1, t - 1, t + 1} if t == 8 else {1, 2, t + 1, 2 * t + 1})
            obs.append(Ob(f"{name}/threads={t}", lambda h, c=call, t=t, ns=ns, mask=mask: nbr(h, c, t, ns, mask), f"{ns} rows: fixed points, one arbitrary coordinate at a split boundary; {t} threads", paths=9000, threads=t))
    def one(h, call, t, ns, lo=-4, hi=4):
        """scalar answers (sums over the pieces) and series"""
        h.threads, h.c.mono = t, True
        n = h.pick(ns, "n")
        at, x, y = ptrows(h, n, t)
        x[at] = h.real("v", lo, hi)
        f = h.frame(x=("f64", x), y=("f64", y))
        s = h.run(f, lambda pds, pl: call(pds, pl, False))
        p = h.run(f, lambda pds, pl: call(pds, pl, True))
        h.eq(p, s)
    M = {
        "query_similar_count": (lambda p, pl, par: p.query_similar_count([1.0, 2.0], "x", 3.0, parallel=par), (3, 5, 9, 12)),
        "query_similar_count[ratio]": (lambda p, pl, par: p.query_similar_count([1.0, 2.0, 0.5], "x", 9.0, parallel=par, return_ratio=True), (3, 6, 10)),
        "query_sample_entropy": (lambda p, pl, par: p.query_sample_entropy("x", ratio=0.4, parallel=par), (5, 6)),
        "query_approx_entropy": (lambda p, pl, par: p.query_approx_entropy("x", m=2, filtering_level=0.4, parallel=par), (5, 6)),
        "query_knn_entropy": (lambda p, pl, par: p.query_knn_entropy("x", "y", k=1, dist="inf", parallel=par), (4, 6) if th else (4,)),
        "query_knn_entropy[l2]": (lambda p, pl, par: p.query_knn_entropy("x", "y", k=2, dist="l2", parallel=par), (4, 6) if th else (4,)),
        "convolve[full]": (lambda p, pl, par: p.convolve("x", [1.0, -2.0, 0.5], mode="full", parallel=par), (3, 6, 9)),
        "convolve[same]": (lambda p, pl, par: p.convolve("x", [1.0, -2.0, 0.5, 3.0], mode="same", parallel=par), (4, 9)),
        "convolve[valid]": (lambda p, pl, par: p.convolve("x", [1.0, -2.0], mode="valid", parallel=par), (3, 6, 9)),
    }
    for i, (name, (call, ns)) in enumerate(M.items()):
        for t in TS:
            if not th and t == (2, 8)[i % 2]:
                continue
            obs.append(Ob(f"{name}/threads={t}", lambda h, c=call, t=t, ns=ns: one(h, c, t, ns), f"{ns} values, one of them arbitrary; {t} threads", paths=9000, threads=t))
    # ---------------------------------------------------------------- the k-d tree object
    def tree(h, what, n):
        pts = [[fl(((5 * i) % 7) * 2 + i / 8), fl((3 * i) % 5 - i / 4)] for i in range(6)]
        qs = [[fl(i % 4 + 0.25), fl(i // 2)] for i in range(n)]
        at = h.choose(n, "at")
        qs[at] = [h.real("p", 0, 4), fl(1.0)]
        rad = [fl(1.5 + i) for i in range(n)]
        A = h.array(pts), h.array(qs), h.array(rad)
        f = {"knn": lambda t, par: t.knn(A[1], 2, parallel=par),
             "within": lambda t, par: t.within(A[1], 3.0, sort=True, parallel=par),
             "within[dist]": lambda t, par: t.within(A[1], 3.0, sort=True, return_dist=True, parallel=par),
             "within[radii]": lambda t, par: t.within(A[1], A[2], sort=True, parallel=par),
             "within[radii, dist]": lambda t, par: t.within(A[1], A[2], sort=True, return_dist=True, parallel=par),
             "within_count": lambda t, par: t.within_count(A[1], 3.0, parallel=par),
             "within_count[radii]": lambda t, par: t.within_count(A[1], A[2], parallel=par)}[what]
        s, p = h.call(lambda: (lambda T_: (f(T_, False), f(T_, True)))(h.spatial().KDTree(A[0], "l1")))
        h.eq(plain(p), plain(s))
    for w in ("knn", "within", "within[dist]", "within[radii]", "within[radii, dist]", "within_count", "within_count[radii]"):
        for n in (1, 4) if th else (3,):
            obs.append(Ob(f"KDTree.{w}/queries={n}", lambda h, w=w, n=n: tree(h, w, n), f"6 fixed points, {n} query points, one with an arbitrary coordinate", paths=3000))
    return obs
