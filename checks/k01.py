from .common import *
from .f01 import PINS as TAILS
from symx.interp import Ok

ASSUMPTIONS = ["columns have the stated types and lengths; inputs the function refuses (an error) declare nothing",
               "expressions built from polars operations alone are typed by polars and are not part of this property"]

CX = (4, 12, -7, 20, 5, -31, 44, 3, 11, 70, 8, 9, -2, 15, 33, 28, -19, 6, 1, 25)
FL = ("f64", "f32")
NUM = ("f64", "f32", "i64", "i32", "u32", "u64")
def total(f):
    return lambda it, a, c: Ok(C.NAN) if any(isinstance(x, C.FSpec) for x in a) else f(it, a, c)

PINS = dict({k: total(f) if k != "sf_unchecked" else f for k, f in TAILS.items()}, digamma=lambda it, a, c: a[0] if isinstance(a[0], C.FSpec) else C.ffn("digamma", fl(a[0])), student_t_ppf=lambda it, a, c: C.ffn("tppf", fl(a[0]), fl(a[1])))

def config(f32):
    import polars_ds.config as cfg
    cfg.LIN_REG_EXPR_F64 = not f32

def column(h, c, k, n, nulls):
    """a column of the kind: 'x' kinds are numeric types, the others fixed contents"""
    if k in ("f64", "f32"):
        v = h.reals(c, n, -50, 50)
    elif k in ("i64", "i32"):
        v = [h.int(f"{c}{i}", 0, 20) for i in range(n)]
    elif k in ("u32", "u64"):
        v = [h.int(f"{c}{i}", 0, 20) for i in range(n)]
    elif k == "bool":
        v = [h.bool(f"{c}{i}") for i in range(n)]
    elif k == "bit":
        k, v = "u32", [h.int(f"{c}{i}", 0, 1) for i in range(n)]
    elif k == "cpos":
        k, v = "f64", [K(x) for x in range(1, n + 1)]
    elif k == "cx":
        k, v = "f64", [K(Fraction(x, 4)) for x in CX[:n]]
    elif k == "index":
        k, v = "u32", list(range(n))
    elif k == "str":
        v = [h.str(f"{c}{i}", 2, 0) for i in range(n)]
    elif k == "cstr":
        k, v = "str", [StrV(["ab", "b", "ab cd"][i % 3]) for i in range(n)]
    elif k == "group":
        k, v = "str", [StrV("uv"[i % 2]) for i in range(n)]
    elif k == "lf":
        k, v = ("list", "f64"), [Lst(h.reals(f"{c}{i}_", 2, 0, 1), "f64") for i in range(n)]
    elif k == "li":
        k, v = ("list", "i64"), [Lst([h.int(f"{c}{i}_{j}", 0, 3) for j in range(2)], "i64") for i in range(n)]
    elif k == "ls":
        k, v = ("list", "str"), [Lst([StrV("a"), StrV("b")], "str") for i in range(n)]
    if nulls and k != "index":
        v = [v[0], None] + v[2:]
    return (k, v)

def table(tier):
    """(name, expression, columns: name -> kind ('x': the tested numeric type), types, options)"""
    rows = []
    def add(name, fn, cols, dts=("f64",), **o):
        rows.append((name, fn, cols, dts, o))
    xy, xyz = {"x": "x", "y": "x"}, {"x": "x", "y": "x", "z": "x"}
    # elementwise
    for f in ("gamma", "expit", "logit", "exp2", "trunc", "fract", "next_up", "next_down", "digamma"):
        add(f, lambda pds, pl, f=f: getattr(pds.exprs.num, f)("x"), {"x": "x"}, NUM)
    add("xlogy", lambda pds, pl: pds.exprs.num.xlogy("x", "y"), xy, NUM)
    for f in ("gcd", "lcm"):
        add(f, lambda pds, pl, f=f: getattr(pds.exprs.num, f)("x", "y"), xy, ("i64", "i32", "u32"), n=1, nulls=False)
        add(f + " with a constant", lambda pds, pl, f=f: getattr(pds.exprs.num, f)("x", 3), {"x": "x"}, ("i64", "i32", "u32"), n=1, nulls=False)
    add("haversine", lambda pds, pl: pds.haversine("x", "y", "z", "w"), {"x": "x", "y": "x", "z": "x", "w": "x"}, FL, nulls=False)
    add("haversine to a point", lambda pds, pl: pds.haversine("x", "y", 1.0, 2.0), xy, nulls=False)
    # numerical
    add("jaccard_row of integers", lambda pds, pl: pds.jaccard_row("a", "b"), {"a": "li", "b": "li"}, n=1, nulls=False)
    add("jaccard_row of strings", lambda pds, pl: pds.jaccard_row("a", "b"), {"a": "ls", "b": "ls"}, nulls=False)
    add("jaccard_col", lambda pds, pl: pds.jaccard_col("x", "y"), xy, ("i64", "u32"), nulls=False, n=2)
    add("jaccard_col of strings", lambda pds, pl: pds.jaccard_col("a", "b"), {"a": "cstr", "b": "cstr"})
    add("psi report", lambda pds, pl: pds.psi_w_breakpoints("x", "y", [1.5]), {"x": "cpos", "y": "x"}, FL, nulls=False, n=2)
    add("psi_discrete", lambda pds, pl: [pds.psi_discrete("a", "b"), pds.psi_discrete("a", "b", return_report=True).implode()], {"a": "cstr", "b": "group"})
    add("psi_discrete of integers", lambda pds, pl: pds.psi_discrete("x", "y", return_report=True), xy, ("i64", "u32"), nulls=False, n=2)
    for f, kw in (("woe_discrete", {}), ("info_value_discrete", {}), ("info_value_discrete", {"return_sum": False}), ("target_encode", {})):
        add(f"{f} {kw}", lambda pds, pl, f=f, kw=kw: getattr(pds.exprs.num, f)("g", "t", **kw), {"g": "group", "t": "bit"}, nulls=False, n=4)
    add("integrate_trapz", lambda pds, pl: [pds.integrate_trapz("y", "x"), pds.integrate_trapz("y", 0.5)], xy, FL + ("i64",), nulls=False)
    for m in ("full", "same", "valid", "left", "right"):
        add(f"convolve {m}", lambda pds, pl, m=m: pds.convolve("x", [1.0, 2.0], mode=m).implode(), {"x": "x"}, FL + ("i64",), nulls=False)
    add("rfft", lambda pds, pl: pds.rfft("x").implode(), {"x": "x"}, FL, nulls=False, n=4)
    add("isotonic_regression", lambda pds, pl: [pds.exprs.num.isotonic_regression("x"), pds.exprs.num.isotonic_regression("x", weights="w")], {"x": "x", "w": "cpos"}, FL + ("i64",), nulls=False)
    # tests and statistics
    add("t tests", lambda pds, pl: [pds.ttest_ind("x", "y", equal_var=True), pds.ttest_ind("x", "y"), pds.ttest_1samp("x", 0.0), pds.ttest_ind_from_stats("x", 1.0, 1.0, 5)], xy, nulls=False)
    add("ks_2samp", lambda pds, pl: pds.ks_2samp("x", "y"), xy, nulls=False)
    add("f_test", lambda pds, pl: pds.f_test("x", group="g"), {"x": "x", "g": "group"}, ("f64", "i64"), nulls=False, n=4)
    add("f_test of two", lambda pds, pl: pds.f_test("x", "y", group="g").implode(), {"x": "x", "y": "x", "g": "group"}, nulls=False, n=4)
    add("chi2", lambda pds, pl: pds.chi2("g", "h"), {"g": "group", "h": "cstr"}, nulls=False, n=4)
    add("chi2 full", lambda pds, pl: pds.chi2("g", "h", return_full=True).implode(), {"g": "group", "h": "cstr"}, nulls=False, n=4)
    add("mann_whitney_u", lambda pds, pl: pds.mann_whitney_u("x", "y"), {"x": "cpos", "y": "x"}, nulls=False, n=2, paths=300)
    add("kendall_tau", lambda pds, pl: pds.kendall_tau("x", "y"), xy, ("f64", "i64"), nulls=False, n=2)
    add("xi_corr", lambda pds, pl: [pds.xi_corr("x", "y"), pds.xi_corr("x", "y", return_p=True).struct.field("statistic")], xy, nulls=False, n=2)
    # random columns
    from types import SimpleNamespace as NS
    add("random numbers", lambda pds, pl: [pds.random(), pds.random_int(0, 5), pds.random_exp(0.5), pds.random_normal(0.0, 1.0), pds.random_binomial(3, 0.5)], {"x": "x"}, nulls=False, n=2)
    add("random strings", lambda pds, pl: pds.random_str(1, 2), {"x": "x"}, nulls=False, n=2)
    add("perturb, jitter", lambda pds, pl: [pds.perturb("x", 0.5), pds.jitter("x", 1.0)], {"x": "x"}, FL, nulls=False, n=2)
    # metrics
    add("roc_auc", lambda pds, pl: pds.query_roc_auc("t", "x"), {"t": "bit", "x": "x"}, FL + ("i64",), nulls=False)
    add("tpr_fpr", lambda pds, pl: pds.query_tpr_fpr("t", "x"), {"t": "bit", "x": "x"}, FL + ("i64",), nulls=False)
    add("confusion matrix", lambda pds, pl: [pds.query_confusion_matrix("t", "x"), pds.query_confusion_matrix("t", "x", all_metrics=True)], {"t": "bit", "x": "x"}, FL, nulls=False, n=2)
    add("binary metrics", lambda pds, pl: pds.query_binary_metrics("t", "x"), {"t": "bit", "x": "x"}, nulls=False, n=2)
    # time series
    add("lempel_ziv", lambda pds, pl: [pds.query_lempel_ziv("b"), pds.query_lempel_ziv("b", as_ratio=False)], {"b": "bool"}, nulls=False)
    add("entropies", lambda pds, pl: [pds.query_sample_entropy("x", m=2), pds.query_approx_entropy("x", 2, 0.5)], {"x": "cpos"}, nulls=False, n=4)
    add("similar_count", lambda pds, pl: [pds.query_similar_count([0.0, 1.0], "x", 0.5), pds.query_similar_count([0.0, 1.0], "x", 0.5, return_ratio=True)], {"x": "x"}, nulls=False)
    # neighbours
    pts = {"x": "x", "y": "x", "i": "index", "z": "x"}
    add("neighbours", lambda pds, pl: [pds.query_knn_ptwise("x", "y", index="i", k=1), pds.query_knn_ptwise("x", "y", index="i", k=1, return_dist=True), pds.query_knn_freq_cnt("x", "y", index="i", k=1).implode()], pts, nulls=False, n=2)
    add("radius", lambda pds, pl: [pds.query_radius_ptwise("x", "y", index="i", r=1.0), pds.query_radius_freq_cnt("x", "y", index="i", r=1.0).implode(), pds.query_nb_cnt("x", "y", r=1.0)], pts, nulls=False, n=2)
    add("knn values", lambda pds, pl: [pds.query_dist_from_kth_nb("x", "y", k=1), pds.query_knn_avg("x", "y", target="z", k=1)], {"x": "x", "y": "cpos", "z": "x"}, nulls=False, n=3)
    # regression
    for f32 in (False, True):
        D = ("f64", "f32", "i64")
        kw = dict(nulls=False, f32=f32)
        add("lin_reg", lambda pds, pl: [pds.lin_reg("x", target="y"), pds.lin_reg("x", target="y", return_pred=True).implode()], {"x": "cpos", "y": "x"}, D, **kw)
        add("lin_reg, weights", lambda pds, pl: [pds.lin_reg("x", target="y", weights="w"), pds.lin_reg("x", target="y", weights="w", return_pred=True).implode()], {"x": "cpos", "y": "x", "w": "cpos"}, D, **kw)
        add("lin_reg, targets", lambda pds, pl: [pds.lin_reg("x", target=["y", "z"]), pds.lin_reg("x", target=["y", "z"], return_pred=True).implode()], {"x": "cpos", "y": "x", "z": "x"}, D, **kw)
        add("lin_reg_w_rcond", lambda pds, pl: pds.lin_reg_w_rcond("x", target="y"), {"x": "cpos", "y": "x"}, **kw)
        add("rolling, recursive", lambda pds, pl: [pds.recursive_lin_reg("x", target="y", start_with=2), pds.rolling_lin_reg("x", target="y", window_size=2), pds.rolling_lin_reg("x", target="y", window_size=2, null_policy="skip")], {"x": "cpos", "y": "x"}, D, **kw)
        for se in ("se", "hc0", "hc1", "hc2", "hc3"):
            add(f"lin_reg_report {se}", lambda pds, pl, se=se: pds.lin_reg_report("x", target="y", std_err=se), {"x": "cpos", "y": "x"}, **kw)
        add("lin_reg_report, weights", lambda pds, pl: pds.lin_reg_report("x", target="y", weights="w", std_err="hc1"), {"x": "cpos", "y": "x", "w": "cpos"}, **kw)
    # text
    S2 = {"a": "str", "b": "str"}
    T = {"a": "cstr", "b": "group"}
    add("string distances", lambda pds, pl: [pds.str_leven("a", "b"), pds.str_leven("a", "b", return_sim=True), pds.str_d_leven("a", "b"), pds.str_d_leven("a", "b", return_sim=True), pds.str_osa("a", "b"), pds.str_osa("a", "b", return_sim=True)], T)
    add("string similarities", lambda pds, pl: [pds.str_jw("a", "b"), pds.str_jaro("a", "b"), pds.str_fuzz("a", "b"), pds.str_lcs_seq("a", "b"), pds.str_lcs_seq("a", "b", return_sim=False), pds.str_hamming("a", "b")], T)
    add("n-grams", lambda pds, pl: [pds.str_jaccard("a", "b"), pds.exprs.string.str_overlap_coeff("a", "b"), pds.str_sorensen_dice("a", "b"), pds.str_tversky_sim("a", "b", 0.5, 0.5)], T)
    add("string filters", lambda pds, pl: [pds.filter_by_levenshtein("a", "b", 1), pds.filter_by_hamming("a", "b", 1), pds.is_stopword("a")], T)
    add("string filters with a literal", lambda pds, pl: [pds.filter_by_levenshtein("a", pl.lit("ab"), 1), pds.str_leven("a", pl.lit("ab")), pds.str_fuzz("a", pl.lit("ab")), pds.str_jw("a", pl.lit("ab"))], {"a": "cstr"})
    add("text", lambda pds, pl: [pds.to_camel_case("a"), pds.to_snake_case("a"), pds.to_pascal_case("a"), pds.to_constant_case("a"), pds.remove_diacritics("a"), pds.normalize_string("a", "NFC"), pds.map_words("a", {"ab": "x"}), pds.normalize_whitespace("a")], {"a": "cstr"})
    add("nearest word", lambda pds, pl: pds.str_nearest("a", "ab"), {"a": "cstr"}, nulls=False)
    add("vocabulary", lambda pds, pl: [pds.similar_to_vocab("a", ["ab"], 0.5), pds.similar_to_vocab("a", ["ab"], 0.5, strategy="any")], {"a": "cstr"}, nulls=False)
    # decompositions, combinations, further features
    add("singular_values", lambda pds, pl: [pds.singular_values("a", "b"), pds.singular_values("a", "b", as_ratio=True)], {"a": "cx", "b": "cpos"}, nulls=False)
    add("pca", lambda pds, pl: pds.pca("a", "b").implode(), {"a": "cx", "b": "cpos"}, nulls=False)
    add("principal_components", lambda pds, pl: [pds.principal_components("a", "b", k=k).implode() for k in (1, 2)], {"a": "cx", "b": "cpos"}, nulls=False)
    add("combinations", lambda pds, pl: [pds.exprs.expr_iter.combinations("x", k=2).implode(), pds.exprs.expr_iter.combinations("x", k=2, unique=False).implode()], {"x": "x"}, ("f64", "f32", "i64", "u32"), nulls=False)
    add("product", lambda pds, pl: pds.exprs.expr_iter.product("x", "y").implode(), xy, ("f64", "f32", "i64", "u32"), nulls=False, n=2)
    add("combinations of strings", lambda pds, pl: [pds.exprs.expr_iter.combinations("a", k=2).implode(), pds.exprs.expr_iter.product("a", "b").implode()], {"a": "cstr", "b": "group"}, nulls=False)
    add("first digits", lambda pds, pl: pds.query_first_digit_cnt("x"), {"x": "x"}, ("i64",), nulls=False, n=1)
    add("mcc", lambda pds, pl: pds.query_mcc("t", "b"), {"t": "bit", "b": "bit"}, nulls=False, n=2)
    add("normal_test", lambda pds, pl: pds.normal_test("a"), {"a": "cx"}, nulls=False, n=20)
    add("cond_entropy", lambda pds, pl: pds.query_cond_entropy("a", "b"), {"a": "cstr", "b": "group"}, nulls=False)
    add("knn_entropy", lambda pds, pl: pds.query_knn_entropy("x", "y", k=1), {"x": "x", "y": "cpos"}, FL, nulls=False)
    add("padded hamming", lambda pds, pl: [pds.str_hamming("a", "b", pad=True), pds.str_hamming("a", pl.lit("ab"), pad=True)], T)
    add("stems", lambda pds, pl: [pds.exprs.string.str_snowball("a"), pds.exprs.string.str_tokenize("a", stem=True)], {"a": "cstr"})
    return rows

def obligations(tier):
    obs = []
    def add(name, fn, cols, dts=("f64",), bounds=None, nulls=True, n=3, f32=None, paths=60, secs=60, **o):
        def ob(h, dt):
            h.opts["pins"] = PINS
            fr = h.frame(**{c: column(h, c, dt if k == "x" else k, n, nulls) for c, k in cols.items()})
            try:
                config(f32)
                h.schema(fr, fn)
            finally:
                config(False)
        for dt in dts:
            obs.append(Ob(f"{name}{'[f32]' if f32 else ''}/{dt}", lambda h, dt=dt: ob(h, dt), bounds or f"{n} rows of {dt}" + (", nulls" if nulls else ""), paths=paths, secs=secs))
    for name, fn, cols, dts, o in table(tier):
        add(name, fn, cols, dts, **o)
    return obs
