from .common import *

ASSUMPTIONS = ["targets are 0/1 or arbitrary reals without NaN; categories come from a three-letter alphabet"]

def TE(*a, **k):
    """not exported at the top level"""
    return __import__("polars_ds.exprs.num", fromlist=["x"]).target_encode(*a, **k)

def records(r):
    """list of struct rows -> dict by first field"""
    out = {}
    for row in r:
        v = list(row.values()) if isinstance(row, dict) else list(row)
        k = v[0]
        k = k.concrete() if isinstance(k, StrV) else k
        out.setdefault(k, []).append(v[1:])
    return out

def obligations(tier):
    th = tier == "thorough"
    obs = []
    def cats(h, n, nulls):
        out = []
        for i in range(n):
            c = h.pick(["a", "b", "c"][:min(3, i + 1)] + ([None] if nulls else []), f"c{i}")
            out.append(c)
        return out
    def te(h, n, nulls, tgt, params, lit):
        cs = cats(h, n, nulls)
        if tgt == "real":
            ts = h.reals("t", n)
        else:
            ts = h.ints("t", n, 0, 1)
        if nulls:
            ts = h.opts_(ts, "t")
        vt = [t for t in ts if t is not None]
        if not vt:
            return
        f = h.frame(c=("str", [None if c is None else StrV(c) for c in cs]), t=("f64" if tgt == "real" else "i64", ts))
        msl, sm = params
        r = h.run(f, lambda pds, pl: TE("c", "t", min_samples_leaf=msl, smoothing=sm))
        m = mean_(vt)
        want = {}
        for c in set(cs) - {None}:
            v = [t for k, t in zip(cs, ts) if k == c and t is not None]
            if v:
                # sigmoid weight of the category's own mean against the overall mean
                z = Fraction(len(v) - msl) / Fraction(sm)
                a = fdiv(T.ONE, fadd(T.ONE, fexp(fneg(K(z)))))
                want[c] = [[fadd(fmul(a, mean_(v)), fmul(fsub(T.ONE, a), m))]]
        got = records(r)
        h.true(set(got) == set(want), "one encoding per category that has a target")
        for c in want:
            h.eq(got.get(c), want[c], f"encoding of {c}")
    P = [(1, 1.0), (2, 0.5), (20, 10.0)]
    for p in P:
        for n in (1, 2, 3) + ((4,) if th else ()):
            obs.append(Ob(f"target_encode[min_samples_leaf={p[0]},smoothing={p[1]},real target]/n={n}", lambda h, n=n, p=p: te(h, n, False, "real", p, False), f"{n} rows, every assignment of categories, arbitrary real targets", paths=2000))
    for n in (2, 3, 4) if th else (2, 3):
        obs.append(Ob(f"target_encode[nulls]/n={n}", lambda h, n=n: te(h, n, True, "real", P[0], False), f"{n} rows, every assignment of categories and nulls", paths=4000, hard=n > 2))
        obs.append(Ob(f"target_encode[0/1 target]/n={n}", lambda h, n=n: te(h, n, False, "int", P[1], False), f"{n} rows, every assignment of categories", paths=2000))
    def same(h, n):
        """the encoding of a category does not depend on the order of the rows"""
        cs = cats(h, n, False)
        ts = h.reals("t", n)
        f = h.frame(c=("str", [StrV(c) for c in cs]), t=("f64", ts))
        g = h.frame(c=("str", [StrV(c) for c in cs[::-1]]), t=("f64", ts[::-1]))
        a, b = (records(h.run(x, lambda pds, pl: TE("c", "t", min_samples_leaf=1, smoothing=2.0))) for x in (f, g))
        h.true(set(a) == set(b), "same categories")
        for c in a:
            h.eq(a[c], b[c], f"encoding of {c}")
    for n in (2, 3):
        obs.append(Ob(f"order of rows is irrelevant/n={n}", lambda h, n=n: same(h, n), f"{n} rows"))
    return obs
