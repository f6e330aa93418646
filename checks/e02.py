from .common import *

ASSUMPTIONS = ["scores and labels have no nulls; labels are 0/1"]
HALF = Fraction(1, 2)

def labels(h, n, name="y"):
    ys = [h.int(f"{name}{i}", 0, 1) for i in range(n)]
    return [1 if br(ieq(y, 1)) else 0 for y in ys]

def obligations(tier):
    thorough = tier == "thorough"
    obs = []
    def data(h, n):
        y = labels(h, n)
        s = h.reals("s", n)
        return y, s, h.frame(y=("i64", y), s=("f64", s))
    # ---------------------------------------------------------------- auc
    def auc_def(y, s):
        pos_ = [x for x, t in zip(s, y) if t]
        neg_ = [x for x, t in zip(s, y) if not t]
        tot = Fraction(0)
        for a in pos_:
            for b in neg_:
                tot += 0 if lt(a, b) else HALF if eq(a, b) else 1
        return K(tot / (len(pos_) * len(neg_)))
    def auc(h, n, gini):
        y, s, f = data(h, n)
        if 0 < sum(y) < n:
            if gini:
                from_ = lambda pds, pl: __import__("polars_ds.exprs.metrics", fromlist=["x"]).query_gini("y", "s")
                h.eq(h.run(f, from_), [fsub(fmul(K(2), auc_def(y, s)), T.ONE)])
            else:
                h.eq(h.run(f, lambda pds, pl: pds.query_roc_auc("y", "s")), [auc_def(y, s)])
        elif sum(y) == 0:
            if not gini:
                h.eq(h.run(f, lambda pds, pl: pds.query_roc_auc("y", "s")), [NAN])
    for n in ((1, 2, 3, 4) if thorough else (1, 2, 3)):
        obs.append(Ob(f"roc_auc/n={n}", lambda h, n=n: auc(h, n, False), f"{n} rows, any order of scores with ties", hard=n > 3, paths=4000))
    obs.append(Ob("gini/n=3", lambda h: auc(h, 3, True), "3 rows"))
    # ---------------------------------------------------------------- tpr/fpr at every threshold
    def tprfpr(h, n):
        y, s, f = data(h, n)
        P, N = sum(y), n - sum(y)
        if not P or not N:
            return
        r = h.run(f, lambda pds, pl: [
            pds.query_tpr_fpr("y", "s").struct.field("threshold"), pds.query_tpr_fpr("y", "s").struct.field("tpr"), pds.query_tpr_fpr("y", "s").struct.field("fpr")])
        ths = sort_(s)
        u = [x for i, x in enumerate(ths) if i == 0 or not eq(ths[i - 1], x)]
        h.eq(r["threshold"], u, "threshold")
        h.eq(r["tpr"], [K(Fraction(sum(1 for x, t in zip(s, y) if t and le(th, x)), P)) for th in u], "tpr")
        h.eq(r["fpr"], [K(Fraction(sum(1 for x, t in zip(s, y) if not t and le(th, x)), N)) for th in u], "fpr")
    for n in ((2, 3, 4) if thorough else (2, 3)):
        obs.append(Ob(f"tpr_fpr/n={n}", lambda h, n=n: tprfpr(h, n), f"{n} rows", paths=4000))
    # ---------------------------------------------------------------- binary metrics
    def combo(h, n):
        y, s, f = data(h, n)
        if not 0 < sum(y) < n:
            return
        th = h.param("th", None, None, api=0.4142)
        names = ["precision", "recall", "f", "average_precision", "roc_auc"]
        r = h.run(f, lambda pds, pl: [pds.query_binary_metrics("y", "s", threshold=th.api).struct.field(x) for x in names])
        tp = sum(1 for x, t in zip(s, y) if t and le(th.v, x))
        pp = sum(1 for x in s if le(th.v, x))
        prec = fdiv(K(tp), K(pp))
        rec = K(Fraction(tp, sum(y)))
        h.eq(r["recall"], [rec], "recall")
        h.eq(r["precision"], [prec], "precision")
        h.eq(r["f"], [fdiv(fmul(K(2), fmul(prec, rec)), fadd(prec, rec)) if isinstance(prec, Poly) else NAN], "f")
        h.eq(r["roc_auc"], [auc_def(y, s)], "roc_auc")
        # average precision: sum over thresholds, descending, of (R_k - R_{k-1}) P_k
        ths = sort_(s)
        u = [x for i, x in enumerate(ths) if i == 0 or not eq(ths[i - 1], x)][::-1]
        ap, prev = Fraction(0), Fraction(0)
        for t in u:
            tpk = sum(1 for x, q in zip(s, y) if q and le(t, x))
            ppk = sum(1 for x in s if le(t, x))
            rk = Fraction(tpk, sum(y))
            ap += (rk - prev) * Fraction(tpk, ppk)
            prev = rk
        h.eq(r["average_precision"], [K(ap)], "average_precision")
    for n in ((2, 3, 4) if thorough else (2, 3)):
        obs.append(Ob(f"binary_metrics/n={n}", lambda h, n=n: combo(h, n), f"{n} rows, any threshold", paths=6000, hard=True))
    # ---------------------------------------------------------------- confusion matrix
    FULL = ["tn", "fp", "fn", "tp", "tpr", "tnr", "fpr", "fnr", "prevalence", "prevalence_threshold", "informedness", "precision", "false_omission_rate", "plr", "nlr", "acc",
            "balanced_accuracy", "f1", "folkes_mallows_index", "mcc", "threat_score", "markedness", "fdr", "npv", "dor"]
    def conf_def(tn, fp, fn, tp):
        d = dict(tn=tn, fp=fp, fn=fn, tp=tp)
        D = lambda a, b: fdiv(a, b)
        tn, fp, fn, tp = map(K, (tn, fp, fn, tp))
        one = T.ONE
        d["tpr"] = D(tp, fadd(tp, fn)); d["fnr"] = fsub(one, d["tpr"])
        d["fpr"] = D(fp, fadd(fp, tn)); d["tnr"] = fsub(one, d["fpr"])
        d["precision"] = D(tp, fadd(tp, fp)); d["fdr"] = fsub(one, d["precision"])
        d["false_omission_rate"] = D(fn, fadd(fn, tn)); d["npv"] = fsub(one, d["false_omission_rate"])
        tot = fadd(fadd(tn, fp), fadd(fn, tp))
        d["prevalence"] = D(fadd(tp, fn), tot)
        d["acc"] = D(fadd(tp, tn), tot)
        d["threat_score"] = D(tp, fadd(fadd(tp, fn), fp))
        d["informedness"] = fsub(fadd(d["tpr"], d["tnr"]), one)
        d["markedness"] = fsub(fadd(d["precision"], d["npv"]), one)
        d["balanced_accuracy"] = fdiv(fadd(d["tpr"], d["tnr"]), K(2))
        d["f1"] = D(fmul(K(2), tp), fadd(fmul(K(2), tp), fadd(fp, fn)))
        return d
    def conf(h, n, names, extra=False):
        y = labels(h, n)
        s = h.reals("s", n)
        f = h.frame(y=("i64", y), s=("f64", s))
        th = h.param("th", None, None, api=0.4142)
        pr = [1 if lt(th.v, x) else 0 for x in s]
        c = [sum(1 for a, b in zip(y, pr) if (a, b) == k) for k in ((0, 0), (0, 1), (1, 0), (1, 1))]
        d = conf_def(*c)
        if not extra:
            r = h.run(f, lambda pds, pl: [pds.query_confusion_matrix("y", "s", threshold=th.api).struct.field(x) for x in FULL[:4]])
            for k in FULL[:4]:
                h.eq(r[k], [d[k]], k)
            return
        r = h.run(f, lambda pds, pl: [pds.query_confusion_matrix("y", "s", threshold=th.api, all_metrics=True).struct.field(x) for x in FULL])
        for k in names:
            w = d[k]
            if k == "f1" and (c[3] == 0):
                continue  # 0/0 conventions differ (2PR/(P+R) is undefined when tp = 0)
            h.eq(r[k], [w], k)
        # identities that tie the remaining fields to the checked ones
        v = {k: r[k][0] for k in FULL}
        allf = all(isinstance(d[k], Poly) for k in ("tpr", "tnr", "precision", "npv"))
        if allf and all(c):
            R = lambda k: K(v[k]) if h.mode == "sym" else fl(float(to_py(v[k])))
            tn_, fp_, fn_, tp_ = map(K, c)
            h.eq(R("plr"), fdiv(d["tpr"], d["fpr"]), "plr")
            h.eq(R("nlr"), fdiv(d["fnr"], d["tnr"]), "nlr")
            h.eq(R("dor"), fdiv(fmul(tp_, tn_), fmul(fp_, fn_)), "dor")
            h.eq(fmul(R("folkes_mallows_index"), R("folkes_mallows_index")), fmul(d["precision"], d["tpr"]), "folkes_mallows_index^2")
            num = fsub(fmul(tp_, tn_), fmul(fp_, fn_))
            den2 = fmul(fmul(fadd(tp_, fp_), fadd(tp_, fn_)), fmul(fadd(tn_, fp_), fadd(tn_, fn_)))
            h.eq(R("mcc"), fdiv(num, fsqrt(den2)), "mcc")
            if not eq(d["tpr"], d["fpr"]):
                h.eq(R("prevalence_threshold"), fdiv(fsub(fsqrt(fmul(d["tpr"], d["fpr"])), d["fpr"]), fsub(d["tpr"], d["fpr"])), "prevalence_threshold")
    for n in ((1, 2, 3, 4, 5) if thorough else (1, 2, 3, 4)):
        obs.append(Ob(f"confusion_matrix/n={n}", lambda h, n=n: conf(h, n, FULL[:4]), f"{n} rows, any threshold"))
    base = ["tn", "fp", "fn", "tp", "tpr", "tnr", "fpr", "fnr", "prevalence", "informedness", "precision", "false_omission_rate", "acc", "balanced_accuracy", "f1", "threat_score", "markedness", "fdr", "npv"]
    for n in ((1, 2, 3, 4, 5) if thorough else (1, 2, 3)):
        obs.append(Ob(f"confusion_matrix[all]/n={n}", lambda h, n=n: conf(h, n, base, True), f"{n} rows, any threshold"))
    # the same statistics as functions of arbitrary counts (every row count up to 2^20)
    def conf_counts(h, nonzero):
        hi = 1 << 20
        c = [h.int(k, 1 if nonzero else 0, hi) for k in ("tn", "fp", "fn", "tp")]
        if h.mode == "sym":
            from symx.interp import VecV
            h.opts["pins"] = {"binary_confusion_matrix": lambda it, args, call: VecV(list(c), True)}
            f = h.frame(y=("i64", [0, 1]), s=("f64", [K(0), K(1)]))
            w = None
        else:
            ys, ss = [], []
            for (a, b), k in zip(((0, 0), (0, 1), (1, 0), (1, 1)), c):
                ys += [a] * k
                ss += [K(b)] * k
            f = h.frame(y=("i64", ys), s=("f64", ss))
        return c, f
    def conf_sym(h):
        c, f = conf_counts(h, True)
        d = conf_def(*c)
        r = h.run(f, lambda pds, pl: [pds.query_confusion_matrix("y", "s", threshold=0.5, all_metrics=True).struct.field(x) for x in FULL])
        for k in base[4:]:
            h.eq(r[k], [d[k]], k)
    obs.append(Ob("confusion_matrix[all]/arbitrary counts", conf_sym, "every tn, fp, fn, tp in 1..2^20 (the counting itself is covered by n<=4)"))
    def mcc_sym(h):
        c, f = conf_counts(h, True)
        tn, fp, fn, tp = map(K, c)
        den = fmul(fmul(fadd(tp, fp), fadd(tp, fn)), fmul(fadd(tn, fp), fadd(tn, fn)))
        h.eq(h.run(f, lambda pds, pl: pds.query_mcc("y", "s")), [fdiv(fsub(fmul(tp, tn), fmul(fp, fn)), fsqrt(den))])
    obs.append(Ob("mcc/arbitrary counts", mcc_sym, "every tn, fp, fn, tp in 1..2^20"))
    def mcc(h, n):
        y, p = labels(h, n), labels(h, n, "p")
        f = h.frame(y=("i64", y), p=("i64", p))
        c = [K(sum(1 for a, b in zip(y, p) if (a, b) == k)) for k in ((0, 0), (0, 1), (1, 0), (1, 1))]
        tn, fp, fn, tp = c
        den = fmul(fmul(fadd(tp, fp), fadd(tp, fn)), fmul(fadd(tn, fp), fadd(tn, fn)))
        if eq(den, T.ZERO):
            return
        h.eq(h.run(f, lambda pds, pl: pds.query_mcc("y", "p")), [fdiv(fsub(fmul(tp, tn), fmul(fp, fn)), fsqrt(den))])
    for n in (2, 3, 4):
        obs.append(Ob(f"mcc/n={n}", lambda h, n=n: mcc(h, n), f"{n} rows"))
    # ---------------------------------------------------------------- multi class auc
    def multi(h, n, strat, all_):
        y = [h.choose(3, f"y{i}") for i in range(n)]
        c = h.choose(3, "class")
        if all_ and c:
            return
        s = [[h.real(f"s{i}_{k}") if all_ or k == c else K((3 * i + 2 * k) % 5) for k in range(3)] for i in range(n)]
        f = h.frame(y=("i64", y), s=(("list", "f64"), [Lst(r, "f64") for r in s]))
        if set(y) != {0, 1, 2}:
            return
        tot = T.ZERO
        for k in range(3):
            yk = [1 if v == k else 0 for v in y]
            a = auc_def(yk, [r[k] for r in s])
            tot = fadd(tot, fmul(a, K(Fraction(1, 3) if strat == "macro" else Fraction(sum(yk), n))))
        h.eq(h.run(f, lambda pds, pl: pds.query_multi_roc_auc("y", "s", 3, strategy=strat)), [tot])
    for strat in ("macro", "weighted"):
        for n in (3, 4) if thorough else (3,):
            obs.append(Ob(f"multi_roc_auc[{strat}]/n={n}", lambda h, strat=strat, n=n: multi(h, n, strat, False), f"{n} rows, 3 classes, any scores of one class, fixed scores of the others", paths=4000))
        if thorough:
            obs.append(Ob(f"multi_roc_auc[{strat}]/n=3, any scores", lambda h, strat=strat: multi(h, 3, strat, True), "3 rows, 3 classes", paths=20000))
    # ---------------------------------------------------------------- cross entropy
    def cce(h, n, norm, dense):
        kk = 3
        y = [h.choose(kk, f"y{i}") for i in range(n)]
        s = [[h.real(f"p{i}_{k}") for k in range(kk)] for i in range(n)]
        for r in s:
            pos(h, *r)
        if dense:
            yc = ("i64", y)
        else:
            yc = (("list", "i64"), [Lst([1 if k == v else 0 for k in range(kk)], "i64") for v in y])
        f = h.frame(y=yc, s=(("list", "f64"), [Lst(r, "f64") for r in s]))
        tot = T.ZERO
        for v, r in zip(y, s):
            tot = fsub(tot, fln(r[v]))
        h.eq(h.run(f, lambda pds, pl: pds.query_cat_cross_entropy("y", "s", normalize=norm, dense=dense)), [fdiv(tot, K(n)) if norm else tot])
    for norm in (True, False):
        for dense in (True, False):
            obs.append(Ob(f"cat_cross_entropy[normalize={norm},dense={dense}]/n=2", lambda h, norm=norm, dense=dense: cce(h, 2, norm, dense), "2 rows, 3 classes"))
    # ---------------------------------------------------------------- fairness
    def fair(h, n, ppct):
        g = labels(h, n, "g")
        if ppct:
            p = labels(h, n, "p")
            f = h.frame(g=("i64", g), p=("i64", p))
            p = [K(x) for x in p]
        else:
            p = h.reals("p", n)
            f = h.frame(g=("i64", g), p=("f64", p))
        if not 0 < sum(g) < n:
            return
        m1 = mean_([x for x, k in zip(p, g) if k])
        m0 = mean_([x for x, k in zip(p, g) if not k])
        if not ppct:
            h.eq(h.run(f, lambda pds, pl: pds.query_fairness("p", pl.col("g") == 1)), [fabs(fsub(m1, m0))])
        else:
            if eq(m0, T.ZERO) or eq(m1, T.ZERO):
                return
            a, b = fdiv(m1, m0), fdiv(m0, m1)
            h.eq(h.run(f, lambda pds, pl: pds.query_p_pct_score("p", pl.col("g") == 1)), [a if lt(a, b) else b])
    for n in (2, 3, 4):
        obs.append(Ob(f"fairness/n={n}", lambda h, n=n: fair(h, n, False), f"{n} rows"))
        obs.append(Ob(f"p_pct_score/n={n}", lambda h, n=n: fair(h, n, True), f"{n} rows of 0/1 predictions"))
    # ---------------------------------------------------------------- ndcg
    def ndcg(h, n, k, ties, g):
        rel = h.reals("r", n)
        for x in rel:
            h.assume(bnot(flt(x, T.ZERO)))
        sc = h.reals("s", n)
        if not ties:
            distinct(h, sc)
        nm = h.pick(("q", "example_id"), "name of the group column")
        fr = h.frame(**{nm: ("i64", g), "rel": ("f64", rel), "sc": ("f64", sc)})
        def f():
            from polars_ds.exprs import metrics
            return metrics.calculate_ndcg(h.df(fr), "rel", "sc", nm, k=k, ignore_ties=ties)
        got = h.back(h.call(f)).cols["ndcg"].vals
        disc = [K(1 / math.log2(i + 2)) if h.mode != "sym" else fdiv(T.ONE, K(math.log2(i + 2))) for i in range(n)]
        if k:
            disc = [d if i < k else K(0) for i, d in enumerate(disc)]
        out = []
        for q in sorted(set(g)):
            ix = [i for i in range(n) if g[i] == q]
            if len(ix) == 1:
                continue
            ideal = dot_(sort_([rel[i] for i in ix])[::-1], disc)
            dcg = K(0)
            for i in ix:
                above = sum(1 for j in ix if lt(sc[i], sc[j]))
                same = sum(1 for j in ix if j == i or eq(sc[i], sc[j]))
                dcg = fadd(dcg, fmul(rel[i], mean_(disc[above:above + same])))
            out.append(K(0) if eq(ideal, 0) else fdiv(dcg, ideal))
        h.eq(got, [mean_(out) if out else None], "mean over the groups of more than one row")
    for g in ([1, 1], [1, 1, 1], [2, 1, 2], [1, 1, 2, 2]) if not thorough else ([1, 1], [1, 1, 1], [2, 1, 2], [1, 1, 2, 2], [5, 1, 5, 5], [1, 1, 1, 1], [1, 2, 3]):
        for k in (None, 1, 2):
            for ties in (False, True):
                if k == 1 and len(g) == 4 and not thorough:
                    continue
                obs.append(Ob(f"ndcg/groups {g}, k={k}{', ties averaged' if ties else ''}", lambda h, g=g, k=k, t=ties: ndcg(h, len(g), k, t, g),
                              f"{len(g)} rows, any relevance that is not negative, any order of the scores" + (" with ties" if ties else ""), paths=8000))
    return obs
