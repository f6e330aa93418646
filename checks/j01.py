from .common import *
import itertools, math

ASSUMPTIONS = ["a shuffle is any permutation of its rows, the same one for equal seeds and lengths (what polars' shuffle is); a draw of python's random is any value of its range, the same for equal seeds",
               "in a replay against the build, 40 seeds stand for the permutation"]

def seeds(h):
    """every permutation: symbolic in the solver, a row of seeds in the build"""
    return [11] if h.mode == "sym" else range(40)

def obligations(tier):
    th = tier == "thorough"
    obs = []
    def frame(h, n, **more):
        """rows with an id and a symbolic payload"""
        vals = h.reals("x", n)
        if n:
            vals[0] = h.opt(vals[0], "x")
        d = dict(id=("i64", list(range(n))), x=("f64", vals))
        d.update(more)
        return h.frame(**d), d
    def ids(h, r, d, lab, order=False):
        """the rows of a result: whole rows of the frame, no row twice"""
        r = h.back(r).cols
        h.true(list(r) == list(d), f"columns of {lab}")
        ix = [int(i) for i in r["id"].vals]
        h.true(len(set(ix)) == len(ix), f"{lab}: no row twice")
        for k in d:
            h.eq(r[k].vals, [d[k][1][i] for i in ix], f"{k} of {lab}")
        if order:
            h.true(ix == sorted(ix), f"{lab}: in the order of the frame")
        return ix
    def mod(h):
        import polars_ds.sample_and_split as sa
        return sa
    RATES = [0.01, 0.2, 0.25, 0.34, 0.5, 0.6, 0.75, 0.99]
    # ---------------------------------------------------------------- sample
    def samp(h, n, lazy):
        fr, d = frame(h, n)
        v = h.pick(RATES + [1, 2, 3, 4, 5, 9], "value")
        want = int(n * v) if isinstance(v, float) else min(n, v)
        for s in seeds(h):
            r = h.call(lambda: mod(h).sample(h.df(fr, lazy), v, seed=s))
            ix = ids(h, r, d, "sample", True)
            h.true(len(ix) == want, "requested number of rows")
            r2 = h.call(lambda: mod(h).sample(h.df(fr, lazy), v, seed=s))
            h.true(ids(h, r2, d, "second sample", True) == ix, "same seed, same rows")
        r = h.call(lambda: mod(h).sample(h.df(fr, lazy), v))
        h.true(len(ids(h, r, d, "unseeded sample", True)) == want, "requested number of rows, unseeded")
    for n in range(0, 5 if th else 4):
        for lazy in (False, True):
            obs.append(Ob(f"sample/{n} rows{'/lazy' if lazy else ''}", lambda h, n=n, z=lazy: samp(h, n, z), f"{n} rows, every permutation", paths=20000))
    def bad(h):
        fr, d = frame(h, 2)
        sa = mod(h)
        for v in (0, -1, 0.0, 1.0, -0.5, 1.5):
            h.true(h.call(lambda: sa.sample(h.df(fr), v), may_error=True) is ERR, f"sample({v}) is refused")
        for v in (0.0, 1.0, -0.5, 1.5, [0.5, 0.4], [0.7, 0.4], [1.0, 0.5]):
            h.true(h.call(lambda: sa.split_by_ratio(h.df(fr), v), may_error=True) is ERR, f"split_by_ratio({v}) is refused")
        h.true(h.call(lambda: sa.random_cols(["a", "b"], 3), may_error=True) is ERR, "too many columns")
        h.true(h.call(lambda: sa.random_cols(["a", "b", "c"], 3, keep=["c"]), may_error=True) is ERR, "too many columns outside keep")
    obs.append(Ob("impossible requests are refused", bad, "concrete"))
    # ---------------------------------------------------------------- split_by_ratio
    LISTS = [[0.5, 0.5], [0.6, 0.4], [0.01, 0.99], [0.6, 0.3, 0.1], [0.7, 0.2, 0.1], [0.25, 0.25, 0.5], [0.2] * 5, [0.1] * 10, [1 / 3] * 3, (0.8, 0.2), (0.3, 0.3, 0.4), [0.4], [0.95]]
    def split(h, n, many, lazy):
        fr, d = frame(h, n)
        v = h.pick(LISTS if many else RATES, "ratio")
        if many and len(v) > 1:
            want = [int(n * x) for x in v[:-1]]
        else:
            want = [int(n * (v[0] if many else v))]
        want.append(n - sum(want))
        def one(**kw):
            r = h.call(lambda: mod(h).split_by_ratio(h.df(fr, lazy), v, **kw))
            h.true(len(r) == len(want), "number of parts")
            return [ids(h, p, d, f"part {i}") for i, p in enumerate(r)]
        for s in seeds(h):
            p = one(seed=s)
            h.true([len(x) for x in p] == want, "sizes")
            h.true(sorted(i for x in p for i in x) == list(range(n)), "disjoint parts that cover the frame")
            h.true(one(seed=s) == p, "same seed, same parts")
        p = one()
        h.true([len(x) for x in p] == want, "sizes, unseeded")
        h.true(sorted(i for x in p for i in x) == list(range(n)), "disjoint parts that cover the frame, unseeded")
    for n in range(0, 5 if th else 4):
        for many in (False, True):
            for lazy in (False, True):
                obs.append(Ob(f"split_by_ratio/{'list' if many else 'one ratio'}/{n} rows{'/lazy' if lazy else ''}", lambda h, n=n, m=many, z=lazy: split(h, n, m, z), f"{n} rows, every permutation", paths=20000))
    def split12(h):
        """more rows, one permutation"""
        n = h.pick([7, 10, 13], "n")
        d = dict(id=("i64", list(range(n))), x=("f64", h.reals("x", n)))
        fr = h.frame(**d)
        v = h.pick(LISTS, "ratio")
        want = [int(n * x) for x in v[:-1]] if len(v) > 1 else [int(n * v[0])]
        want.append(n - sum(want))
        with_identity(h, n)
        r = h.call(lambda: mod(h).split_by_ratio(h.df(fr), v, seed=3))
        p = [ids(h, q, d, "part") for q in r]
        h.true([len(x) for x in p] == want and sorted(i for x in p for i in x) == list(range(n)), "sizes and cover")
    obs.append(Ob("split_by_ratio/list/7 to 13 rows, one permutation", split12, "7, 10 or 13 rows, a fixed permutation", paths=2000))
    def with_identity(h, n):
        if h.mode == "sym":
            C.CTX.__dict__.setdefault("perms", {})[(3, n)] = [(i * 3 + 1) % n for i in range(n)] if n % 3 else list(reversed(range(n)))
    # ---------------------------------------------------------------- volume_neutral
    def cats(h, nm, n, opts, canon=True):
        out = []
        for i in range(n):
            out.append(h.pick(opts, f"{nm}{i}") if i or not canon else opts[0])
        return out
    def vol(h, n, ctrl, target, lazy):
        pl = h.pl
        by = cats(h, "by", n, [1, 2, None] if not ctrl else [1, 2])
        kw = dict(by=("i64", by))
        if ctrl:
            kw["k"] = ("i64", cats(h, "k", n, [1, 2]))
        if ctrl == 2:
            kw["m"] = ("i64", cats(h, "m", n, [1, 2]))
        fr, d = frame(h, n, **kw)
        strata = {}
        for i in range(n):
            s = (kw["k"][1][i] if ctrl else 0, kw["m"][1][i] if ctrl == 2 else 0)
            strata.setdefault(s, {}).setdefault(by[i], []).append(i)
        c = [None, pl.col("k"), [pl.col("k"), pl.col("m")]][ctrl]
        def one(**k):
            return ids(h, h.call(lambda: mod(h).volume_neutral(h.df(fr, lazy), pl.col("by"), control=c, target_volume=target, **k)), d, "selection", True)
        for s in seeds(h):
            ix = one(seed=s)
            for st, seg in strata.items():
                m = min(len(g) for g in seg.values())
                if target is not None:
                    m = min(m, target)
                for b, g in seg.items():
                    h.true(sum(i in g for i in ix) == m, "equally many rows from every segment")
            h.true(one(seed=s) == ix, "same seed, same rows")
    for ctrl in (0, 1, 2):
        for target in (None, 1, 2):
            for lazy in (False, True):
                if lazy and target == 1:
                    continue
                n = 4 if ctrl < 2 else 3
                obs.append(Ob(f"volume_neutral/{ctrl} control columns/target {target}{'/lazy' if lazy else ''}", lambda h, n=n, c=ctrl, t=target, z=lazy: vol(h, n, c, t, z), f"{n} rows, every assignment and permutation", paths=20000))
    # ---------------------------------------------------------------- downsample
    def down(h, n, two, lazy):
        pl = h.pl
        y = cats(h, "y", n, [0, 1, 2, None], False)
        fr, d = frame(h, n, y=("i64", y))
        r1 = h.pick([0.5, 1, 0.34], "r1")
        conds = [(pl.col("y") == 1, r1)]
        hit = [[i for i in range(n) if y[i] == 1]]
        rates = [r1]
        if two:
            conds.append((pl.col("y") > 1, 1))
            hit.append([i for i in range(n) if y[i] is not None and y[i] > 1])
            rates.append(1)
        def one(**k):
            return ids(h, h.call(lambda: mod(h).downsample(h.df(fr, lazy), *conds, **k)), d, "downsampled", True)
        for s in seeds(h):
            ix = one(seed=s)
            h.true(all(i in ix for i in range(n) if not any(i in g for g in hit)), "rows where no condition is true are kept")
            for g, r in zip(hit, rates):
                h.true(sum(i in ix for i in g) == (int(len(g) * r) if isinstance(r, float) else min(len(g), r)), "requested number of rows where the condition is true")
            h.true(one(seed=s) == ix, "same seed, same rows")
    for two in (False, True):
        for lazy in (False, True):
            n = 4 if th else 3
            obs.append(Ob(f"downsample/{'two conditions' if two else 'one condition'}{'/lazy' if lazy else ''}", lambda h, n=n, t=two, z=lazy: down(h, n, t, z), f"{n} rows, every assignment and permutation", paths=30000))
    # ---------------------------------------------------------------- random_cols
    def cols(h, keep, k):
        import importlib, random
        m = importlib.import_module("polars_ds.sample_and_split.sample_and_split")
        if h.mode == "sym":
            from symx import pyrand
            pyrand.install(m)
        al = ["a", "b", "c", "d", "e"]
        pool = [c for c in al if c not in (keep or [])]
        for s in seeds(h):
            kept = None if keep is None else list(keep)
            r = h.call(lambda: m.random_cols(al, k, keep=kept, seed=s))
            h.true(al == ["a", "b", "c", "d", "e"] and kept == keep, "arguments are left alone")
            o = r[:len(keep or [])]
            h.true(o == (keep or []), "the kept columns come first")
            t = r[len(keep or []):]
            h.true(len(t) == k and len(set(t)) == k and all(c in pool for c in t), "k distinct columns outside keep")
            h.true(h.call(lambda: m.random_cols(al, k, keep=kept, seed=s)) == r, "same seed, same columns")
        t = h.call(lambda: m.random_cols(al, k, keep=keep))[len(keep or []):]
        h.true(len(t) == k and len(set(t)) == k and all(c in pool for c in t), "k distinct columns outside keep, unseeded")
        got = {tuple(m.random_cols(al, k, keep=keep, seed=s)[len(keep or []):]) for s in range(400)} if h.mode == "real" else None
        if got is not None:
            h.true(len(got) == math.comb(len(pool), k), "every choice can be drawn")
    for keep in (None, [], ["a"], ["b", "d"], ["a", "z"], ["y", "z"]):
        for k in (0, 1, 2, 3):
            obs.append(Ob(f"random_cols/keep {keep}/{k}", lambda h, kp=keep, k=k: cols(h, kp, k), "5 columns, every draw", paths=2000))
    # ---------------------------------------------------------------- PartitionHelper
    def part(h, by, lazy, sep):
        from polars_ds.partition.partition import PartitionHelper
        n = 3
        g = h.pick([["p", "p", "q"], ["p", "q", "p"], ["p", None, "q"], ["q", "q", "q"], ["p|q", "p", "p"]], "g")
        b = h.bools("f", n) if hasattr(h, "bools") else [h.bool(f"f{i}") for i in range(n)]
        b = [bool(br(x)) for x in b]
        u = h.pick([["x", "x", "y"], ["q|x", "x", "x"], ["x", "q|x", "x"]], "u")
        fr, d = frame(h, n, g=("str", [None if x is None else StrV([ord(c) for c in x]) for x in g]), f=("bool", b), u=("str", [StrV([ord(c) for c in x]) for x in u]))
        if by is None:
            p = h.call(lambda: PartitionHelper(h.df(fr, lazy), None, whole_df_name="all"))
            h.true(p.names() == ["all"], "one part")
            h.true(ids(h, p.get("all"), d, "the part", True) == list(range(n)), "all rows")
            return
        keys = [by] if isinstance(by, str) else by
        col = dict(g=g, f=b, u=u)
        want = {}
        for i in range(n):
            want.setdefault(tuple(col[k][i] for k in keys), []).append(i)
        nm = {k: sep.join(str(x) for x in k) for k in want}
        p = h.call(lambda: PartitionHelper(h.df(fr, lazy), by, separator=sep), may_error=True)
        if len(set(nm.values())) < len(nm):
            h.true(p is ERR, "parts of one name are refused")
            return
        h.true(p is not ERR, "accepted")
        h.true(sorted(p.names()) == sorted(nm.values()), "names")
        h.true(p.get("no such part") is None, "unknown part")
        for k, ix in want.items():
            h.true(ids(h, p.get(nm[k]), d, "part " + nm[k], True) == ix, "rows of " + nm[k])
            h.true(ids(h, p.head(1)[nm[k]], d, "head of " + nm[k]) == ix[:1], "head of " + nm[k])
        first = nm[next(iter(want))]
        def f(name, df):
            if name == first:
                raise ValueError("no")
            return name, len(ids(h, df, d, "part given to the function"))
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = p.apply(f)
        h.true(out == {nm[k]: (nm[k], len(ix)) for k, ix in want.items() if nm[k] != first}, "apply")
    for by in (None, "g", "f", ["g"], ["g", "f"], ["f", "g"], ["g", "u"]):
        for lazy in (False, True):
            for sep in ("|", "-"):
                obs.append(Ob(f"PartitionHelper/by {by}/separator {sep}{'/lazy' if lazy else ''}", lambda h, b=by, z=lazy, s=sep: part(h, b, z, s), "3 rows", paths=2000))
    def partbad(h):
        from polars_ds.partition.partition import PartitionHelper
        fr, d = frame(h, 2, g=("str", [StrV([112]), StrV([113])]))
        for by in ("x", "id", ["g", "x"]):
            h.true(h.call(lambda: PartitionHelper(h.df(fr), by), may_error=True) is ERR, f"partition by {by} is refused")
    obs.append(Ob("PartitionHelper/numeric columns are refused", partbad, "concrete"))
    return obs
