"""Data inspection reports (DIA) against direct counts over the columns"""
from .common import *
from .i01 import S, quant_
from fractions import Fraction
import sys, types, itertools

ASSUMPTIONS = ["frames of float, integer, string, boolean and list columns with nulls (NaN and infinities where the obligation adds them); plots and formatted tables are outside",
               "plotting libraries are replaced by stand-ins in the symbolic run"]

def dia(h, frame, lazy=False):
    """DIA(frame) of the package; the symbolic run needs neither altair nor graphviz"""
    if h.mode == "sym":
        for m in ("altair", "graphviz", "great_tables"):
            if m not in sys.modules or not getattr(sys.modules[m], "_vt", False):
                from unittest.mock import MagicMock
                x = types.ModuleType(m)
                x._vt = True
                x.__getattr__ = lambda k: MagicMock() if not k.startswith("__") else (_ for _ in ()).throw(AttributeError(k))
                sys.modules[m] = x
        import polars_ds.eda.diagnosis as D
        from symx import sframe
        D.pl = sframe.PL()
    else:
        import polars_ds.eda.diagnosis as D
    return D.DIA(h.df(frame, lazy))

def tle_(a, b):
    return bnot(flt(b, a))

def nonconst(h, xs):
    h.assume(not all(eq(x, xs[0]) for x in xs[1:]))

def cols(h, r):
    return {k: c.vals for k, c in h.back(r).cols.items()}

def names(xs):
    return [x.concrete() if hasattr(x, "concrete") else x for x in xs]

def cnt(xs):
    return sum(1 for x in xs if x)

def distinct_count(h, xs):
    """number of distinct values, null counted as a value"""
    reps = []
    for x in xs:
        if not any(same(h, x, r) for r in reps):
            reps.append(x)
    return len(reps)

def same(h, x, y):
    if x is None or y is None:
        return x is None and y is None
    if hasattr(x, "c"):
        return len(x.c) == len(y.c) and br(band(True, *[ieq(a, b) for a, b in zip(x.c, y.c)]))
    if isinstance(x, (int, SI, bool)) or isinstance(x, SBool):
        return br(ieq(x, y)) if not isinstance(x, SBool) and not isinstance(x, bool) else br(x) == br(y)
    return eq(x, y)

def pearson_(h, a, b):
    """correlation of the pairs without nulls"""
    p = [(x, y) for x, y in zip(a, b) if x is not None and y is not None]
    x, y = [u for u, _ in p], [v for _, v in p]
    return fdiv(cov_(x, y, 0), fsqrt(fmul(var_(x, 0), var_(y, 0))))

def obligations(tier):
    th = tier == "thorough"
    obs = []
    # ---------------------------------------------------------------- numbers
    def special(h, n):
        a = [h.opt(h.special(f"a{i}", h.real(f"a{i}"), ("nan", "inf", "-inf")), f"a{i}") for i in range(n)]
        b = h.opts_(h.ints("b", n, -5, 5), "b")
        fr = h.frame(a=("f64", a), s=("str", [S("x")] * n), b=("i64", b))
        r = cols(h, h.call(lambda: dia(h, fr, h.flag("lazy")).special_values_report()))
        h.true(names(r["column"]) == ["a", "b"], "one row per numeric column")
        for k, (c, xs) in enumerate((("a", a), ("b", b))):
            nul = cnt(x is None for x in xs)
            nan = cnt(x is NAN for x in xs)
            inf = cnt(x is PINF or x is NINF for x in xs)
            for f, g, v in (("null_count", "null%", nul), ("NaN_count", "NaN%", nan), ("inf_count", "Inf%", inf)):
                h.eq(r[f][k], v, f"{f} of {c}")
                h.eq(r[g][k], K(Fraction(v, n)), f"{g} of {c}")
    for n in (1, 2, 3) if th else (1, 2):
        obs.append(Ob(f"special_values_report/n={n}", lambda h, n=n: special(h, n), f"{n} rows of a float and an integer column: any real, NaN, infinity or null", paths=20000))
    def prof(h, n, hist):
        a = h.opts_(h.reals("a", n), "a")
        m = h.pick((1.5, 0.25), "iqr")
        nn = [x for x in a if x is not None]
        h.assume(len(nn) > 1 and len(nn) % 4 != 3)       # no quartile half way between two values
        bins = 4
        if hist:
            lo, hi = min_(nn), max_(nn)
            h.assume(lt(lo, hi))
            for x in nn:          # off the edges the code moves by 1e-5
                for i in range(1, bins):
                    h.assume(bnot(band(tle_(fadd(lo, fmul(K(Fraction(i, bins)), fsub(hi, lo))), fadd(x, fmul(K(Fraction(1, 10**4)), fsub(hi, lo)))),
                                       tle_(x, fadd(lo, fmul(K(Fraction(i, bins) + Fraction(1, 10**4)), fsub(hi, lo)))))))
        fr = h.frame(a=("f64", a), s=("str", [S("x")] * n), i=("i64", [3, 1, 2, 9, 4][:n]))
        r = cols(h, h.call(lambda: dia(h, fr).numeric_profile(n_bins=bins, iqr_multiplier=m, histogram=hist, gt=False)))
        h.true(names(r["column"]) == ["a", "i"], "one row per numeric column")
        q1, q3 = quant_(nn, 0.25, "nearest"), quant_(nn, 0.75, "nearest")
        iqr = fsub(q3, q1)
        h.eq(r["non_null_cnt"][0], len(nn), "count")
        h.eq(r["null%"][0], K(Fraction(n - len(nn), n)), "share of nulls")
        h.eq(r["mean"][0], mean_(nn), "mean")
        h.eq(r["std"][0], fsqrt(var_(nn)), "std")
        h.eq(r["min"][0], min_(nn), "min")
        if h.mode == "sym":
            md = median_(nn)
            h.eq(r["median"][0], r["median"][0] if md.is_const() else ffn("round2", md), "median to two decimals")
        else:
            h.eq(r["median"][0], median_(nn), "median to two decimals", tol=0.0051)
        h.eq(r["max"][0], max_(nn), "max")
        h.eq(r["q1"][0], q1, "q1")
        h.eq(r["q3"][0], q3, "q3")
        h.eq(r["IQR"][0], iqr, "IQR")
        out = cnt(lt(x, fsub(q1, fmul(K(m), iqr))) or lt(fadd(q3, fmul(K(m), iqr)), x) for x in nn)
        h.eq(r["outlier_cnt"][0], out, "outliers")
        h.eq([r["non_null_cnt"][1], r["min"][1], r["max"][1]], [n, K(min([3, 1, 2, 9, 4][:n])), K(max([3, 1, 2, 9, 4][:n]))], "the integer column")
        if hist:
            c = [0] * bins
            for x in nn:
                k = cnt(le(fadd(lo, fmul(K(Fraction(i, bins)), fsub(hi, lo))), x) for i in range(1, bins))
                c[k] += 1
            got = r["histogram"][0]
            got = list(got.values())[0] if isinstance(got, dict) else got[0]
            h.eq(got, [v for v in c if v], "histogram (bins that occur)")
    for n in (2, 4, 5) if th else (2, 4):
        obs.append(Ob(f"numeric_profile/n={n}", lambda h, n=n: prof(h, n, False), f"{n} rows of reals and nulls", paths=20000))
    for n in (2, 3) if th else (2,):
        obs.append(Ob(f"numeric_profile with histogram/n={n}", lambda h, n=n: prof(h, n, True), f"{n} rows of reals and nulls off the moved edges, 4 bins", paths=20000))
    # ---------------------------------------------------------------- rules
    def colv(h, n):
        a, b = h.reals("a", n), h.opts_(h.reals("b", n), "b")
        fr = h.frame(a=("f64", a), b=("f64", b))
        def f():
            import polars as pl
            return dia(h, fr).col_validation((pl.col("a").min() >= 0, "a negative"), (pl.col("b").null_count() == 0, "b has nulls"))
        r = cols(h, h.call(f))
        want = [w for w, bad in ((("a", "a negative"), any(lt(x, 0) for x in a)), (("b", "b has nulls"), any(x is None for x in b))) if bad]
        h.true(list(zip(names(r["column"]), names(r["__reason__"]))) == want, "columns that break their rule, with the reason")
    for n in (1, 2, 3):
        obs.append(Ob(f"col_validation/n={n}", lambda h, n=n: colv(h, n), f"{n} rows of reals and nulls"))
    def rowv(h, n, all_, idc, keep):
        v = {c: [(h.opt(h.flag(f"{c}{i}"), f"{c}{i}")) for i in range(n)] for c in ("p", "q", "r")}
        ids = [7, 3, 11, 5][:n]
        fr = h.frame(id=("i64", ids), x=("f64", [K(i) for i in range(n)]), **{c: ("bool", xs) for c, xs in v.items()})
        R = [("p", "zz"), ("q", "mm"), ("r", "aa")]
        def f():
            import polars as pl
            return dia(h, fr).row_validation(*[(pl.col(c), m) for c, m in R], id_col="id" if idc else None, columns_to_keep=["x"] if keep else None, all_reasons=all_)
        r = cols(h, h.call(f))
        bad = [i for i in range(n) if any(v[c][i] is False for c in v)]
        k = "id" if idc else "__index__"
        h.true(list(r) == [k] + (["x"] if keep else []) + ["__reason__"], "columns")
        h.eq(r[k], [ids[i] if idc else i for i in bad], "rows with a rule that is false")
        if keep:
            h.eq(r["x"], [K(i) for i in bad], "kept column")
        if all_:
            h.true([names(x.v if hasattr(x, "v") else x) for x in r["__reason__"]] == [sorted(m for c, m in R if v[c][i] is False) for i in bad], "all reasons in order")
        else:
            h.true(names(r["__reason__"]) == [next(m for c, m in R if v[c][i] is False) for i in bad], "the first reason")
    for n in (1, 2) if th else (1,):
        for all_ in (False, True):
            for idc in (False, True):
                obs.append(Ob(f"row_validation/n={n}{'/all reasons' if all_ else ''}{'/id' if idc else ''}", lambda h, n=n, a=all_, i=idc: rowv(h, n, a, i, i == a), f"{n} rows, three rules of any value or null", paths=20000))
    def dup(h):
        fr = h.frame(p=("bool", [True]))
        def f():
            import polars as pl
            return dia(h, fr).row_validation((pl.col("p"), "m"), (pl.col("p"), "m"))
        h.true(h.call(f, may_error=True) is ERR, "two rules of one name are refused")
    obs.append(Ob("row_validation refuses two rules of one name", dup, "one row"))
    # ---------------------------------------------------------------- nulls and correlations
    def nullc(h, n, filt):
        v = {c: [h.opt(K(i + 1), f"{c}{i}") for i in range(n)] for c in ("a", "b")}
        v["c"] = [h.opt(S("x"), f"c{i}") for i in range(n)] if n < 3 else [None, S("x"), S("x"), S("y")][:n]
        keepr = [i for i in range(n) if not filt or i != 1]
        fr = h.frame(a=("f64", v["a"]), b=("f64", v["b"]), c=("str", v["c"]), k=("i64", list(range(n))))
        def f():
            import polars as pl
            return dia(h, fr).null_corr(pl.col("a", "b", "c", "k"), filter_by=pl.col("k") != 1 if filt else None)
        r = cols(h, h.call(f))
        m = {c: [K(int(v[c][i] is None)) for i in keepr] for c in v}
        ok = [c for c in v if 0 < cnt(v[c][i] is None for i in keepr) < len(keepr)]
        want = {(x, y): pearson_(h, m[x], m[y]) for x, y in itertools.combinations(ok, 2)}
        got = dict(zip(zip(names(r["column_1"]), names(r["column_2"])), r["null_corr"]))
        h.true(set(got) == set(want) and len(r["column_1"]) == len(want), "every pair of columns with some nulls, once")
        for p in want:
            h.eq(got[p], want[p], f"null correlation of {p}")
        for x, y in zip(r["null_corr"], r["null_corr"][1:]):
            h.le(fabs(y), fabs(x), "strongest first")
    for n in (2, 3, 4) if th else (2, 3):
        for filt in (False, True):
            obs.append(Ob(f"null_corr/n={n}{'/filtered' if filt else ''}", lambda h, n=n, f=filt: nullc(h, n, f), f"{n} rows, any null pattern", paths=20000))
    def corr(h, n, infer):
        a, b = ([K(3), h.real("a1"), K(-1), K(2)][:n] if infer and n > 2 else h.reals("a", n)), [K(x) for x in (1, -2, 4, 0.5)[:n]]
        c = [2, 5, 3, 8][:n]
        nonconst(h, a)
        fr = h.frame(a=("f64", a), s=("str", [S("x")] * n), b=("f64", b), c=("i64", c))
        d = dia(h, fr)
        v = dict(a=a, b=b, c=[K(x) for x in c])
        if infer:
            r = cols(h, h.call(lambda: d.infer_corr()))
            got = dict(zip(zip(names(r["x"]), names(r["y"])), r["corr"]))
            h.true(set(got) == set(itertools.combinations("abc", 2)) and len(r["x"]) == 3, "every pair of numeric columns, once")
            for x, y in got:
                h.eq(got[x, y], pearson_(h, v[x], v[y]), f"correlation of {x}, {y}")
            for x, y in zip(r["corr"], r["corr"][1:]):
                h.le(fabs(y), fabs(x), "strongest first")
        else:
            r = cols(h, h.call(lambda: d.corr(["b", "a"])))
            h.true(names(r["column"]) == ["b", "a"], "a row per column asked for")
            for i, x in enumerate("ba"):
                for y in "abc":
                    h.eq(r[y][i], K(1) if x == y else pearson_(h, v[x], v[y]), f"correlation of {x}, {y}")
    for n in (2, 3, 4) if th else (2, 3):
        obs.append(Ob(f"corr/n={n}", lambda h, n=n: corr(h, n, False), f"{n} rows, a column of reals against two fixed ones", paths=20000))
        obs.append(Ob(f"infer_corr/n={n}", lambda h, n=n: corr(h, n, True), f"{n} rows, a column with a real in it and two fixed ones", paths=20000))
    # ---------------------------------------------------------------- strings
    def strs(h, n, lo, hi):
        xs = [h.opt(h.str(f"s{i}", 2, 0 if i else 1, lo, hi), f"s{i}") for i in range(n)]
        nn = [x for x in xs if x is not None]
        h.assume(bool(nn))
        fr = h.frame(a=("f64", [K(1)] * n), s=("str", xs))
        r = cols(h, h.call(lambda: dia(h, fr).str_stats()))
        ch = [len(x.c) for x in nn]
        w = 1 if hi < 128 else 2
        by = [w * c for c in ch]
        want = dict(null_count=n - len(nn), n_unique=distinct_count(h, xs), min_byte_len=min(by), min_char_len=min(ch), avg_byte_len=K(Fraction(sum(by), len(by))), avg_char_len=K(Fraction(sum(ch), len(ch))),
                    max_byte_len=max(by), max_char_len=max(ch))
        h.true(names(r["column"]) == ["s"], "one row per string column")
        for k, x in want.items():
            h.eq(r[k][0], x, k)
        h.eq(r["5p_byte_len"][0], quant_([K(x) for x in by], 0.05, "nearest"), "5% quantile")
        h.eq(r["95p_byte_len"][0], quant_([K(x) for x in by], 0.95, "nearest"), "95% quantile")
        f = [cnt(same(h, x, y) for y in xs) for x in xs]
        h.eq(r["most_freq_cnt"][0], max(f), "largest frequency")
        h.true(any(same(h, r["most_freq"][0], x) and k == max(f) for x, k in zip(xs, f)), "a most frequent value")
    for n in (1, 2, 3) if th else (1, 2):
        obs.append(Ob(f"str_stats/n={n}", lambda h, n=n: strs(h, n, 97, 122), f"{n} strings of up to 2 letters, nulls", paths=20000))
        obs.append(Ob(f"str_stats of two-byte characters/n={n}", lambda h, n=n: strs(h, n, 0xE0, 0x17F), f"{n} strings of up to 2 characters of two bytes, nulls", paths=20000))
    # ---------------------------------------------------------------- inferences
    def distinct(h, n, kind):
        a = h.opts_(h.reals("a", n) if n < 4 else h.reals("a", n), "a")
        s = [h.opt(h.str(f"s{i}", 1, 1, 97, 98), f"s{i}") for i in range(n)] if n < 3 else [S("x"), S("x"), None, S("y")][:n]
        t = [True, None, True, False][:n]
        v = dict(a=a, s=s, t=t)
        fr = h.frame(a=("f64", a), s=("str", s), t=("bool", t))
        d = dia(h, fr)
        u = {c: distinct_count(h, xs) if c != "t" else len({str(x) for x in xs}) for c, xs in v.items()}
        nul = {c: any(x is None for x in xs) for c, xs in v.items()}
        def inf(fn, want, lab):
            got = h.call(fn)
            h.true(sorted(got) == sorted(c for c in v if want(c)), lab)
        if kind == "distinct":
            for k, f in ((1, d.infer_const), (2, d.infer_binary)):
                inf(lambda: f(), lambda c: u[c] == k, f"columns of {k} values")
                inf(lambda: f(True), lambda c: u[c] == k or (nul[c] and u[c] == k + 1), f"columns of {k} values and null")
            for k in (1, 2, 3):
                inf(lambda: d.infer_k_distinct(k), lambda c: u[c] == k, f"{k} distinct values")
                inf(lambda: d.infer_k_distinct(k, include_null=True), lambda c: u[c] == k or (nul[c] and u[c] == k + 1), f"{k} distinct values and null")
            h.true(h.call(lambda: d.infer_k_distinct(0), may_error=True) is ERR, "k = 0 is refused")
        elif kind == "high_null":
            for th_ in (0.2, 0.45, 0.8):
                inf(lambda: d.infer_high_null(th_), lambda c: cnt(x is None for x in v[c]) > n * th_, f"share of nulls above {th_}")
        else:
            for share, mx in ((0.1, 3), (0.9, 1), (0.1, 2)):
                inf(lambda: d.infer_discrete(share, mx), lambda c: c == "t" or u[c] < mx or u[c] < share * n, f"few values ({share}, {mx})")
    for n in (1, 2, 3, 4) if th else (1, 2, 3):
        for kind in ("distinct", "high_null", "discrete"):
            obs.append(Ob(f"infer {kind}/n={n}", lambda h, n=n, k=kind: distinct(h, n, k), f"{n} rows, any equalities and nulls", paths=20000))
    def prob(h, n, m):
        a = h.opts_(h.reals("a", n), "a")
        p = [h.reals(f"p{i}", m) for i in range(n)]
        for r in p:          # not at the rounding edge of the sum
            s = fsub(fsum_(r), K(1))
            h.assume(eq(s, 0) or lt(K(Fraction(1, 10**4)), fabs(s)))
        q = [[K(0.5)], [K(0.5), K(0.5)], [K(1)]][:n]
        fr = h.frame(a=("f64", a), p=(("list", "f64"), [Lst(r, "f64") for r in p]), q=(("list", "f64"), [Lst(r, "f64") for r in q]), i=("i64", [0] * n))
        got = h.call(lambda: dia(h, fr).infer_prob())
        want = []
        if all(x is None or (le(0, x) and le(x, 1)) for x in a):
            want.append("a")
        if all(all(le(0, x) for x in r) and eq(fsum_(r), 1) for r in p):
            want.append("p")
        h.true(sorted(got) == want, "columns that can be probabilities")
    for n, m in ((1, 2), (2, 2), (1, 3)) + (((2, 3), (3, 2)) if th else ()):
        obs.append(Ob(f"infer_prob/n={n}, {m} classes", lambda h, n=n, m=m: prob(h, n, m), f"{n} rows of reals and nulls and of lists of {m} reals", paths=20000))
    def dep(h, n):
        a = h.ints("a", n, 0, 2)
        b = [1, 2, 2, 3][:n]
        s = [S(x) for x in "xxyz"[:n]]
        fr = h.frame(a=("i64", a), f=("f64", [K(1)] * n), b=("i64", b), s=("str", s))
        r = cols(h, h.call(lambda: dia(h, fr).infer_dependency()))
        v = dict(a=a, b=b, s=s)
        u = {c: distinct_count(h, xs) for c, xs in v.items()}
        ok = [c for c in v if u[c] > 1]
        pairs = list(zip(names(r["column"]), names(r["by"])))
        want = {frozenset(p) for p in itertools.combinations(ok, 2)} if len(ok) > 1 else set()
        h.true({frozenset(p) for p in pairs} == want and len(pairs) == len(want), "every pair of columns with more than one value, once")
        for (x, y), c in zip(pairs, r["cond_entropy"]):
            h.true(u[x] <= u[y], "the column with fewer values is inferred from the other")
            g = {}
            tot = K(0)
            for i in range(n):
                ny = cnt(same(h, v[y][i], v[y][j]) for j in range(n))
                nxy = cnt(same(h, v[y][i], v[y][j]) and same(h, v[x][i], v[x][j]) for j in range(n))
                tot = fsub(tot, fmul(K(Fraction(1, n)), fln(K(Fraction(nxy, ny)))) if nxy != ny else K(0))
            h.eq(c, fabs(tot), f"H({x} | {y})")
    for n in (2, 3, 4) if th else (2, 3):
        obs.append(Ob(f"infer_dependency/n={n}", lambda h, n=n: dep(h, n), f"{n} rows, any grouping of one column", paths=20000))
    return obs
