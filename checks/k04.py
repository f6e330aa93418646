from .common import *
from .k01 import PINS

ASSUMPTIONS = ["the result of the expression on a frame with the same columns is the oracle; what that result must be is the business of the function's own property"]

class Cn:
    def __init__(self, n):
        self.n = n

def obligations(tier):
    obs = []
    C = Cn
    T = []
    t = lambda f, *a, **k: T.append((f, a, k))
    x, y, z, p, b01, k1, k2, g, s, s2, b, i, q, g2 = (Cn(c) for c in ("x", "y", "z", "p", "t", "k", "k2", "g", "s", "s2", "b", "i", "q", "h"))
    # values
    for f in ("trunc", "fract", "center", "z_normalize", "is_increasing", "is_decreasing", "detrend", "expit", "isotonic_regression", "rfft"):
        t(f, x)
    t("gcd", k1, k2); t("lcm", k1, 6); t("xlogy", x, y); t("haversine", x, y, z, p)
    t("l1_horizontal", x, y); t("l2_sq_horizontal", x, y); t("l_inf_horizontal", x, y)
    t("isotonic_regression", x, weights=p); t("integrate_trapz", x, p); t("integrate_trapz", x, 0.5); t("convolve", x, [1.0, 2.0])
    t("psi_discrete", g, g); t("info_value_discrete", g, b01); t("jaccard_col", s, s2)
    # statistics
    t("ttest_ind", x, y); t("ttest_1samp", x, 0.5); t("f_test", x, group=g); t("weighted_mean", x, p); t("weighted_cov", x, y, p); t("cosine_sim", x, y)
    t("corr", x, y, method="kendall"); t("corr", x, y, method="spearman"); t("kendall_tau", x, y); t("mann_whitney_u", i, p)
    t("random_null", x, 0.5, seed=3); t("perturb", x, 0.5, seed=3); t("jitter", x, 0.5, seed=3)
    # metrics
    for f in ("query_r2", "query_l1", "query_l2", "query_l_inf", "query_mape", "query_smape"):
        t(f, x, y)
    t("query_adj_r2", x, y, p=1); t("query_mase", x, y, train=z); t("query_hubor_loss", x, y, delta=1.0); t("query_mad", x); t("query_mad", x, use_mean=False)
    t("query_roc_auc", b01, x); t("query_log_loss", b01, p); t("query_confusion_matrix", b01, p, threshold=0.5); t("query_binary_metrics", b01, p)
    # time series
    for f in ("query_mid_range", "query_abs_energy", "query_mean_abs_change", "query_symm_ratio", "query_cv", "query_count_uniques"):
        t(f, x)
    t("query_mean_n_abs_max", x, n_maxima=2); t("query_range_count", x, 0.0, 1.0); t("query_c3_stats", x, lag=1); t("query_time_reversal_asymmetry_stats", x, n_lags=1)
    t("query_auto_corr", x, lag=1); t("query_auto_corr", x, lag=1, normalize=False); t("query_ar_coeffs", x, lag=1, add_bias=False)
    t("query_longest_streak", b); t("query_streak", b); t("query_avg_streak", b); t("query_lempel_ziv", b); t("query_first_digit_cnt", k1); t("query_similar_count", [1.0, 2.0], x, threshold=1.0, metric="sql2")
    t("query_transfer_entropy", p, i, k=1); t("query_knn_entropy", p, i, k=1); t("query_cond_entropy", g, b01)
    # strings
    for f in ("str_leven", "str_osa", "str_hamming", "str_jaro", "str_fuzz", "str_lcs_seq"):
        t(f, s, s2)
    t("str_leven", s, s2, return_sim=True); t("str_jaccard", s, s2, substr_size=1); t("filter_by_levenshtein", s, s2, bound=1); t("to_snake_case", s); t("str_tversky_sim", s, s2, alpha=1.0, beta=0.5)
    # neighbours and regression
    t("query_knn_ptwise", x, y, index=i, k=1); t("query_radius_ptwise", x, y, index=i, r=1.0); t("query_nb_cnt", x, y, r=1.0); t("query_nb_cnt", x, r=p); t("query_knn_avg", x, target=z, k=1)
    t("within_dist_from", x, y, pt=[0.0, 0.5], r=1.0); t("is_knn_from", x, pt=[0.5], k=2)
    t("lin_reg", x, target=z); t("lin_reg", x, target=z, return_pred=True, add_bias=True); t("lin_reg", x, target=z, weights=p); t("rolling_lin_reg", x, target=z, window_size=2); t("recursive_lin_reg", x, target=z, start_with=2)
    t("simple_lin_reg", x, target=z); t("combinations", k1, 2); t("product", k1, k2)
    for f in ("gamma", "digamma", "logit", "exp2", "softmax", "next_up", "next_down", "query_cid_ce", "query_entropy", "query_permute_entropy", "query_approx_entropy", "query_sample_entropy", "gmean", "hmean"):
        t(f, p, *({"query_approx_entropy": (2, 0.3), "query_sample_entropy": (0.3,)}.get(f, ())))
    t("psi", i, q); t("psi", i, q, return_report=True); t("psi_w_breakpoints", x, y, breakpoints=[0.0, 1.0]); t("info_value", i, b01)
    t("principal_components", p, q, k=1); t("pca", p, q); t("singular_values", p, q); t("ks_2samp", p, q); t("chi2", g, g2); t("normal_test", p); t("ttest_ind", p, q, equal_var=False)
    t("corr", p, q, method="pearson"); t("corr", p, q, method="xi"); t("corr", p, q, method="bicor"); t("weighted_var", x, p); t("weighted_corr", q, i, p); t("weighted_cosine_sim", x, y, p); t("weighted_gmean", q, p); t("weighted_hmean", q, p); t("xi_corr", p, q); t("bicor", p, q)
    t("add_noise", x, seed=3); t("query_mcc", b01, p); t("query_tpr_fpr", b01, p); t("query_msle", p, q); t("query_log_cosh", p, q); t("query_fairness", x, b); t("query_p_pct_score", b01, b); t("query_multi_roc_auc", b01, q, n_classes=2)
    t("query_copula_entropy", p, i, k=1); t("query_cond_indep", p, i, q, k=1)
    for f in ("str_d_leven", "str_jw", "str_sorensen_dice"):
        t(f, s, s2, **({"substr_size": 1} if f in ("str_sorensen_dice", "str_overlap_coeff") else {}))
    t("filter_by_hamming", s, s2, bound=1); t("similar_to_vocab", s, ["ab", "b"], threshold=0.3); t("str_nearest", s, word="ab"); t("is_stopword", s); t("extract_numbers", s); t("replace_non_ascii", s); t("str_snowball", s); t("to_camel_case", s); t("to_pascal_case", s); t("to_constant_case", s); t("normalize_whitespace", s); t("map_words", s, {"a": "b"})
    t("query_dist_from_kth_nb", x, y, k=1)
    t("lin_reg_w_rcond", p, target=z, rcond=0.0); t("lin_reg_report", p, target=z); t("lin_reg", p, target=z, l2_reg=0.5)
    N = {"woe": 4, "normal_test": 4, "query_cond_indep": 4, "query_copula_entropy": 4, "add_noise": 2, "filter_by_hamming": 1, "str_d_leven": 1, "str_jw": 1, "str_sorensen_dice": 1, "str_overlap_coeff": 1, "similar_to_vocab": 1, "str_nearest": 1, "is_stopword": 1, "extract_numbers": 1, "replace_non_ascii": 1, "str_snowball": 1, "to_camel_case": 1, "to_pascal_case": 1, "to_constant_case": 1, "normalize_whitespace": 1, "map_words": 1, "query_dist_from_kth_nb": 2, "to_snake_case": 1, "query_adj_r2": 4, "psi_w_breakpoints": 2, "query_transfer_entropy": 4, "query_knn_entropy": 3, "query_knn_avg": 2, "str_fuzz": 1, "str_lcs_seq": 1, "str_jaccard": 1, "str_osa": 1, "str_leven": 1, "query_knn_ptwise": 2, "query_radius_ptwise": 2, "query_nb_cnt": 2, "corr": 3, "filter_by_levenshtein": 1, "str_tversky_sim": 1, "str_jaro": 1, "mann_whitney_u": 2, "jaccard_col": 1, "query_mase": 2, "haversine": 1, "rolling_lin_reg": 3, "isotonic_regression": 2, "gcd": 1, "lcm": 1, "query_first_digit_cnt": 1, "query_avg_streak": 2}
    def col(h, c, n):
        if c in ("x", "y", "z"):
            return "f64", h.reals(c, n, -50, 50)
        if c == "p":
            return "f64", [K(Fraction(v, 16)) for v in (3, 11, 6, 13)[:n]]
        if c == "q":
            return "f64", [K(Fraction(v, 16)) for v in (8, 2, 9, 7)[:n]]
        if c == "h":
            return "str", [StrV("cdd"[j % 3]) for j in range(n)]
        if c == "t":
            return "i64", [0, 1, 1, 0][:n]
        if c == "i":
            return "i64", [2, 0, 3, 1][:n] if n == 4 else list(range(n))
        if c == "b":
            return "bool", [h.bool(f"{c}{q}") for q in range(n)]
        if c in ("k", "k2"):
            return "i64", [h.int(f"{c}{q}", 1, 9) for q in range(n)]
        if c == "g":
            return "str", [StrV("uv"[q % 2]) for q in range(n)]
        return "str", [h.str(f"{c}{q}", 2, 1, ascii=True) for q in range(n)]
    flat = lambda vs: [w for v in vs for w in (v if isinstance(v, list) else [v])]
    COND = ("query_fairness", "query_p_pct_score")         # their condition is an expression
    nm_ = lambda v: v.n if isinstance(v, Cn) else [nm_(w) for w in v] if isinstance(v, list) else v
    def one(h, f, a, k, n, how, nulls):
        h.opts["pins"] = PINS
        names = list(dict.fromkeys(v.n for v in flat(list(a) + list(k.values())) if isinstance(v, Cn)))
        cols = {c: col(h, c, n) for c in names}
        if f in ("center", "z_normalize", "detrend", "query_r2", "query_adj_r2", "lin_reg", "simple_lin_reg", "rolling_lin_reg", "recursive_lin_reg", "query_auto_corr", "corr", "kendall_tau", "ttest_ind", "query_cv", "query_ar_coeffs", "f_test", "ttest_1samp", "query_symm_ratio"):
            for c in names:
                if c in ("x", "y"):
                    h.assume(bor(*[bnot(feq(v, cols[c][1][0])) for v in cols[c][1][1:]]))
        if "x" in cols and f in ("lin_reg", "rolling_lin_reg", "recursive_lin_reg", "query_ar_coeffs"):
            for v in cols["x"][1]:
                h.assume(flt(fl(0), v))
        if nulls:
            c = names[0]
            cols[c][1][-1] = None
        fr = h.frame(**{c: v for c, v in cols.items()})
        want = h.run(fr, lambda pds, pl: getattr(pds, f)(*[pl.col(nm_(v)) if f in COND else nm_(v) for v in a], **{q: nm_(v) for q, v in k.items()}).alias("o"), may_error=True)
        arg = lambda v: h.column(*cols[v.n], how, v.n) if isinstance(v, Cn) else v
        nm, got = h.compat(lambda c2: getattr(c2, f)(*[arg(v) for v in a], **{q: arg(v) for q, v in k.items()}), f, may_error=True)
        if want is ERR or got is ERR:
            return h.true(want is got, "an error exactly if the expression on a frame is one")
        h.true(nm == f.replace("query_", ""), f"the series is called {f.replace('query_', '')}, got {nm}")
        h.true(len(got) == len(want), "as many values")
        h.eq(list(got), list(want), "the values of the expression on a frame")
    hows = ("series", "array", "other")
    for q, (f, a, k) in enumerate(T):
        n = N.get(f, 3)
        kw = ",".join(f"{u}" if isinstance(v, Cn) else f"{u}={'··' if isinstance(v, list) and isinstance(v[0], Cn) else v}" for u, v in k.items())
        for how in ("series",) if f == "lin_reg_report" else hows if f in ("query_r2", "query_nb_cnt", "lin_reg", "str_leven", "gcd", "query_longest_streak") else (hows[q % 3],):
            obs.append(Ob(f"{f}[{','.join('·' if isinstance(v, Cn) else str(v) for v in a)}{';' + kw if kw else ''}]/{how}", lambda h, f=f, a=a, k=k, n=n, w=how: one(h, f, a, k, n, w, False), f"{n} rows, given as {how}", paths=1500))
    for f in ("query_l1", "query_mad", "lin_reg", "query_abs_energy", "center"):
        a, k = next((a, k) for g_, a, k in T if g_ == f)
        obs.append(Ob(f"{f}/a null in the first series", lambda h, f=f, a=a, k=k: one(h, f, a, k, 3, "series", True), "3 rows, the last of the first one null", paths=1500))
    # ---------------------------------------------------------------- what cannot be called
    def refuse(h):
        nm = h.pick(["frame", "str_to_expr", "pl", "annotations", "__version__", "warn_len_compare"], "nm")
        _, r = h.compat(lambda c2: getattr(c2, nm)(h.column("f64", h.reals("x", 2), "series")), nm, may_error=True)
        h.true(r is ERR, f"{nm} is refused")
    obs.append(Ob("names that are not expressions", refuse, "every name on the list"))
    def nopos(h):
        _, r = h.compat(lambda c2: c2.query_mad(x=h.column("f64", h.reals("x", 2), "series")), "query_mad", may_error=True)
        h.true(r is ERR, "without a positional argument it is refused")
    obs.append(Ob("no positional argument", nopos, "2 reals"))
    def unknown(h):
        _, r = h.compat(lambda c2: c2.no_such_function(h.column("f64", h.reals("x", 2), "series")), "no_such_function", may_error=True)
        h.true(r is ERR, "an unknown name is refused")
    obs.append(Ob("unknown name", unknown, "2 reals"))
    return obs
