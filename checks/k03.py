from .common import *
import importlib

ASSUMPTIONS = ["whole-number arguments in [-100000, 100000], other numeric arguments any real in [-1000, 1000]; where the package loops up to the argument, -2 to 4",
               "names come from a list: every documented one and several that are not"]

BIG = 100000

def obligations(tier):
    obs = []
    P = lambda: importlib.import_module("polars_ds")
    ts = lambda: importlib.import_module("polars_ds.exprs.ts_features")
    import os as _os

    def case(name, mk, ok, bounds, **kw):
        """mk(h) -> (python arguments, their values); ok(values) -> whether the call is in range; kw: f"""
        f = kw["f"]
        def go(h):
            api, vals = mk(h)
            want = ok(*vals)
            r = h.call(lambda: f(*api), may_error=True)
            h.true((r is ERR) == (not want), "refused" if not want else "accepted")
        obs.append(Ob(name, go, bounds))
    def ints(*names, lo=-BIG, hi=BIG):
        def mk(h):
            q = [h.iparam(n, lo, hi) for n in names]
            return [x.api for x in q], [x.v for x in q]
        return mk
    def reals(*names, lo=-1000, hi=1000):
        def mk(h):
            q = [h.param(n, lo, hi) for n in names]
            return [x.api for x in q], [x.v for x in q]
        return mk
    def mixed(*qs):
        def mk(h):
            a, v = [], []
            for q in qs:
                x, y = q(h)
                a += x
                v += y
            return a, v
        return mk
    def pick(vals, name="c"):
        def mk(h):
            v = h.pick(vals, name)
            return [v], [v]
        return mk
    IN, RE = "any whole number", "any real number"
    ge = lambda n: (lambda v: le(fl(n), fl(v)))
    # ---------------------------------------------------------------- whole numbers
    for name, n, f in (
            ("query_knn_ptwise/k", 1, lambda k: P().query_knn_ptwise("a", "b", index="i", k=k)),
            ("query_knn_avg/k", 1, lambda k: P().query_knn_avg("a", "b", target="t", k=k)),
            ("query_knn_entropy/k", 1, lambda k: P().query_knn_entropy("a", "b", k=k)),
            ("query_transfer_entropy/lag", 1, lambda k: P().query_transfer_entropy("a", "b", lag=k)),
            ("recursive_lin_reg/start_with", 1, lambda k: P().recursive_lin_reg("a", target="t", start_with=k)),
            ("query_mean_n_abs_max/n_maxima", 1, lambda k: ts().query_mean_n_abs_max("a", n_maxima=k)),
            ("query_mase/freq", 1, lambda k: P().query_mase("a", "b", train="t", freq=k)),
            ("random_binomial/n", 1, lambda k: P().random_binomial(n=k, p=0.5)),
            ("str_nearest/threshold", 1, lambda k: P().str_nearest("a", word="w", threshold=k)),
            ("psi/n_bins", 2, lambda k: P().psi("a", "b", n_bins=k)),
            ("rfft/n", 2, lambda k: P().rfft("a", n=k))):
        if name.startswith("psi/"):     # the package lists the quantiles
            case(name, lambda h: (lambda v: ([v], [v]))(h.pick([-3, -1, 0, 1, 2, 3, 10], "k")), ge(n), "-3 to 10", f=f)
        else:
            case(name, ints("k"), ge(n), IN, f=f)
    for feats in (1, 2, 3):
        xs = ["a", "b", "c"][:feats]
        case(f"rolling_lin_reg/window_size/{feats} features", ints("k"), lambda v, m=max(2, feats): le(fl(m), fl(v)), IN,
             f=lambda k, xs=xs: P().rolling_lin_reg(*xs, target="t", window_size=k))
    case("random_int/equal bounds", ints("lo", "hi"), lambda a, b: not eq(fl(a), fl(b)), "any two whole numbers", f=lambda a, b: P().random_int(a, b))
    case("query_permute_entropy/tau", ints("k"), ge(1), IN, f=lambda k: P().query_permute_entropy("a", tau=k))
    case("query_permute_entropy/n_dims", pick(list(range(-2, 5))), lambda v: v > 1, "-2 to 4", f=lambda k: P().query_permute_entropy("a", n_dims=k))
    case("query_permute_entropy/n_dims, tau = 2", pick(list(range(-2, 5))), lambda v: v > 1, "-2 to 4", f=lambda k: P().query_permute_entropy("a", tau=2, n_dims=k))
    case("query_ar_coeffs/lag", pick(list(range(-2, 5))), lambda v: v > 0, "-2 to 4", f=lambda k: P().query_ar_coeffs("a", lag=k))
    case("query_sample_entropy/m", pick(list(range(-2, 5))), lambda v: v > 1, "-2 to 4", f=lambda k: P().query_sample_entropy("a", m=k))
    case("query_approx_entropy", mixed(reals("r"), pick(list(range(-1, 4)), "m")), lambda r, m: lt(fl(0), r) and m > 1, "any real level, m from -1 to 3",
         f=lambda r, m: P().query_approx_entropy("a", m=m, filtering_level=r))
    # ---------------------------------------------------------------- real numbers
    inside = lambda v: lt(fl(0), v) and lt(v, fl(1))
    case("query_radius_ptwise/r", reals("r"), lambda v: lt(fl(0), v), RE, f=lambda r: P().query_radius_ptwise("a", "b", index="i", r=r))
    case("random_null/pct", reals("r"), inside, RE, f=lambda r: P().random_null("a", pct=r))
    case("jitter/std", reals("r"), lambda v: le(fl(0), v), RE, f=lambda r: P().jitter("a", std=r))
    case("add_noise[gaussian]/std", reals("r"), lambda v: le(fl(0), v), RE, f=lambda r: P().add_noise("a", noise_type="gaussian", std=r))
    case("str_tversky_sim/alpha and beta", reals("a", "b"), lambda a, b: le(fl(0), a) and le(fl(0), b), "any two reals", f=lambda a, b: P().str_tversky_sim("x", "y", alpha=a, beta=b))
    case("winsorize", reals("a", "b"), lambda a, b: inside(a) and inside(b) and lt(a, b), "any two reals", f=lambda a, b: P().exprs.stats.winsorize("x", q_low=a, q_high=b))
    case("perturb/epsilon", pick([0.0, 0.5, -0.5, float("nan"), float("inf"), float("-inf")]), lambda v: v in (0.0, 0.5, -0.5), "finite, infinite and NaN", f=lambda e: P().perturb("x", epsilon=e))
    case("add_noise[uniform]/epsilon", pick([0.0, 0.5, float("nan"), float("inf")]), lambda v: v in (0.0, 0.5), "finite, infinite and NaN", f=lambda e: P().add_noise("x", noise_type="uniform", epsilon=e))
    def en(h):
        m = h.models()
        a, b = h.param("a", -1000, 1000), h.param("b", -1000, 1000)
        r = h.call(lambda: m.ElasticNet(a.api, b.api), may_error=True)
        h.true((r is ERR) == (not (lt(fl(0), a.v) or lt(fl(0), b.v))), "refused exactly if neither is positive")
    obs.append(Ob("ElasticNet/l1_reg and l2_reg", en, "any two reals"))
    sa = lambda: importlib.import_module("polars_ds.sample_and_split")
    def frac(h, what):
        q = h.param("r", -2, 2)
        df = h.df(h.frame(x=("f64", h.reals("x", 3))))
        r = h.call(lambda: getattr(sa(), what)(df, q.api, seed=7), may_error=True)
        h.true((r is ERR) == (not inside(q.v)), "refused exactly outside (0, 1)")
    for what in ("sample", "split_by_ratio"):
        obs.append(Ob(f"{what}/a rate", lambda h, w=what: frac(h, w), RE))
    def cnt(h):
        q = h.iparam("n", -BIG, BIG)
        df = h.df(h.frame(x=("f64", h.reals("x", 3))))
        r = h.call(lambda: sa().sample(df, q.api, seed=7), may_error=True)
        h.true((r is ERR) == (not lt(fl(0), fl(q.v))), "refused exactly below 1")
    obs.append(Ob("sample/a number of rows", cnt, IN))
    tr = lambda: importlib.import_module("polars_ds.modeling.transforms")
    def scale(h, what):
        a, b = h.param("a", -2, 2), h.param("b", -2, 2)
        df = h.df(h.frame(x=("f64", [fl(1), fl(2), fl(4)])))
        r = h.call(lambda: getattr(tr(), what)(df, ["x"], q_low=a.api, q_high=b.api), may_error=True)
        ok = le(fl(0), a.v) and le(b.v, fl(1)) and lt(a.v, b.v)
        h.true((r is ERR) == (not ok), "refused exactly unless 0 <= q_low < q_high <= 1")
    for what in ("robust_scale", "winsorize"):
        obs.append(Ob(f"transforms.{what}", lambda h, w=what: scale(h, w), "any two reals"))
    case("transforms.polynomial_features/degree", pick(list(range(-2, 5))), lambda v: v > 1, "-2 to 4",
         f=lambda k: tr().polynomial_features(["a", "b"], degree=k))
    # ---------------------------------------------------------------- names
    DIST = ["l1", "l2", "sql2", "inf", "cosine", "h", "haversine"]
    for nm, f in (("query_knn_ptwise", lambda d: P().query_knn_ptwise("a", "b", index="i", k=2, dist=d)), ("query_knn_avg", lambda d: P().query_knn_avg("a", "b", target="t", k=2, dist=d)),
                  ("query_radius_ptwise", lambda d: P().query_radius_ptwise("a", "b", index="i", r=1.0, dist=d)), ("query_nb_cnt", lambda d: P().query_nb_cnt("a", "b", r=1.0, dist=d))):
        case(f"{nm}/dist", pick(DIST), lambda d: d in ("l1", "l2", "sql2", "inf"), "the documented distances", f=f)
    BAD = ["", "L2", "euclid", "l3", "minkowski"]
    for nm, f in (("within_dist_from", lambda d, n, m: P().within_dist_from(*"abc"[:m], pt=[1.0, 2.0, 3.0][:n], r=1.0, dist=d)), ("is_knn_from", lambda d, n, m: P().is_knn_from(*"abc"[:m], pt=[1.0, 2.0, 3.0][:n], k=1, dist=d))):
        case(f"{nm}/dist and dimensions", mixed(pick(DIST + BAD), pick([1, 2, 3], "n"), pick([1, 2, 3], "m")),
             lambda d, n, m: d in DIST and n == m and (d not in ("h", "haversine") or n == 2), "the documented distances and others, 1 to 3 dimensions", f=f)
    case("query_knn_entropy/dist", pick(DIST + BAD), lambda d: d in ("l2", "inf"), "the distances and others", f=lambda d: P().query_knn_entropy("a", "b", dist=d))
    W = lambda good: pick(good + ["", "x", good[0].upper() + "_", " " + good[0]])
    for nm, good, f in (
            ("corr/method", ["pearson", "spearman", "xi", "kendall", "bicor"], lambda m: P().corr("a", "b", method=m)),
            ("detrend/method", ["linear", "mean"], lambda m: P().detrend("a", method=m)),
            ("add_noise/noise_type", ["gaussian", "uniform"], lambda m: P().add_noise("a", noise_type=m)),
            ("str_nearest/metric", ["lv", "hamming"], lambda m: P().str_nearest("a", word="w", metric=m)),
            ("similar_to_vocab/metric", ["lv", "dlv", "jw", "osa"], lambda m: P().similar_to_vocab("a", ["u", "v"], threshold=0.5, metric=m)),
            ("similar_to_vocab/strategy", ["avg", "all", "any"], lambda m: P().similar_to_vocab("a", ["u", "v"], threshold=0.5, strategy=m)),
            ("normalize_string/form", ["NFC", "NFKC", "NFD", "NFKD"], lambda m: P().normalize_string("a", form=m)),
            ("query_similar_count/metric", ["sql2", "sqzl2"], lambda m: P().query_similar_count([1.0, 2.0], "a", threshold=1.0, metric=m)),
            ("query_ar_coeffs/null_policy", ["raise", "one", "zero"], lambda m: P().query_ar_coeffs("a", lag=1, null_policy=m))):
        case(nm, W(good), lambda m, g=good: m in g, "the documented names and four others", f=f)
    case("query_ar_coeffs/null_policy/numbers", pick(["1.5", "-2", "0", "1e3", "nan", "inf", "-inf", "1e999", "1.5x"]), lambda m: m in ("1.5", "-2", "0", "1e3"), "numbers as text", f=lambda m: P().query_ar_coeffs("a", lag=1, null_policy=m))
    # ---------------------------------------------------------------- numbers of things
    L = lambda: pick([0, 1, 2, 3])
    case("query_similar_count/the length of the query", L(), lambda n: n >= 2, "0 to 3 values", f=lambda n: P().query_similar_count([1.0, 5.0, 2.0][:n], "a", threshold=1.0))
    case("query_similar_count/nulls in the query", pick([[1.0, None], [None, 1.0], [1.0, 2.0], [1.0, None, 2.0]]), lambda q: None not in q, "with and without nulls", f=lambda q: P().query_similar_count(q, "a", threshold=1.0))
    case("f_test/the number of variables", L(), lambda n: n >= 1, "0 to 3 variables", f=lambda n: P().f_test(*["a", "b", "c"][:n], group="g"))
    case("psi_w_breakpoints/the number of breakpoints", L(), lambda n: n >= 1, "0 to 3 breakpoints", f=lambda n: P().psi_w_breakpoints("a", "b", breakpoints=[1.0, 2.0, 3.0][:n]))
    case("lin_reg/the number of targets", L(), lambda n: n >= 1, "0 to 3 targets", f=lambda n: P().lin_reg("x", target=["a", "b", "c"][:n]))
    case("principal_components/k", mixed(ints("k"), pick([1, 2, 3], "n")), lambda k, n: le(fl(1), fl(k)) and le(fl(k), fl(n)), "any whole k, 1 to 3 features", f=lambda k, n: P().principal_components(*["a", "b", "c"][:n], k=k))
    case("transforms.rank_hot_encode/the number of ranks", L(), lambda n: n >= 2, "0 to 3 ranks", f=lambda n: tr().rank_hot_encode("a", ["u", "v", "w"][:n]))
    case("sample_and_split.random_cols", mixed(pick([0, 1, 2, 3, 4], "k"), pick([[], ["a"], ["a", "c"]], "keep")), lambda k, keep: k <= 3 - len(keep), "3 columns",
         f=lambda k, keep: sa().random_cols(["a", "b", "c"], k, keep=keep or None))
    # ---------------------------------------------------------------- kd-tree
    def kd(h):
        d = h.pick(["l1", "l2", "sql2", "inf", "cosine", "h", "", "L2"], "d")
        shape = h.pick(["matrix", "row", "cube"], "shape")
        x = {"matrix": [[fl(1), fl(2)]], "row": [fl(1), fl(2)], "cube": [[[fl(1), fl(2)]]]}[shape]
        r = h.call(lambda: h.spatial().KDTree(h.array(x), d), may_error=True)
        h.true((r is ERR) == (d not in ("l1", "l2", "sql2", "inf") or shape != "matrix"), "only matrices and the four distances")
    obs.append(Ob("KDTree/data and distance", kd, "1 to 3 dimensions of data, the documented distances and others"))
    def kq(h, what):
        t = h.call(lambda: h.spatial().KDTree(h.array([[fl(1), fl(2)], [fl(0), fl(5)]]), "l2"))
        shape = h.pick(["matrix", "row", "cube"], "shape")
        x = h.array({"matrix": [[fl(1), fl(2)]], "row": [fl(1), fl(2)], "cube": [[[fl(1), fl(2)]]]}[shape])
        f = {"knn": lambda: t.knn(x, 1), "within": lambda: t.within(x, 1.0), "within_count": lambda: t.within_count(x, 1.0), "add": lambda: t.add(x)}[what]
        h.true((h.call(f, may_error=True) is ERR) == (shape != "matrix"), "only matrices")
    for what in ("knn", "within", "within_count", "add"):
        obs.append(Ob(f"KDTree.{what}/the query", lambda h, w=what: kq(h, w), "1 to 3 dimensions of data"))
    return obs
