from .common import *
from symx.ctx import ffn
import itertools

ASSUMPTIONS = ["series are finite numbers without nulls, long enough for the embedding; digamma and gamma are exact to 1e-9 at small integers and half-integers"]

EULER = 0.5772156649015328606

def near(h, got, want, label):
    """equal up to the rounding of the special functions"""
    if h.mode != "sym":
        return h.eq(got, want, label)
    if isinstance(got, FSpec) or isinstance(want, FSpec):
        return h.eq(got, want, label)
    got, want = fl(got), fl(want)
    (cg, rg), (cw, rw) = constpart(got), constpart(want)
    h.true(abs(cg - cw) < 1e-9, label + " (constant part)")
    h.eq(rg, rw, label)

class NoEnv:
    def get(self, k, d=None):
        raise KeyError(k)

def constpart(p):
    """p = a number + the rest that depends on the inputs"""
    c, rest = 0.0, {}
    for m, k in p.t.items():
        try:
            c += peval(Poly({m: k}), NoEnv())
        except KeyError:
            rest[m] = k
    return c, Poly(rest)

def vecs(x, m):
    return [x[i:i + m] for i in range(len(x) - m + 1)]

def within(a, b, r):
    return all(not flt_(r, fabs(fsub(p, q))) for p, q in zip(a, b))

def flt_(a, b):
    return lt(a, b)

def counts(v, r):
    """for every vector the number of vectors (itself included) within r of it in every coordinate"""
    n = len(v)
    c = [1] * n
    for i in range(n):
        for j in range(i):
            if within(v[i], v[j], r):
                c[i] += 1
                c[j] += 1
    return c

def lnq(a, b):
    return fln(fdiv(K(a), K(b)))

def apen(x, m, r):
    def phi(k):
        c = counts(vecs(x, k), r)
        n = len(c)
        return fdiv(fsum_([lnq(a, n) for a in c]), K(n))
    return fabs(fsub(phi(m + 1), phi(m)))

def sampen(x, m, r):
    b = sum(c - 1 for c in counts(vecs(x, m), r))
    a = sum(c - 1 for c in counts(vecs(x, m + 1), r))
    if a == 0:
        return NAN if b == 0 else PINF
    return lnq(b, a)

def obligations(tier):
    th = tier == "thorough"
    obs = []
    # ---------------------------------------------------------------- approximate entropy
    def ap(h, n, m, par, scale, ints):
        x = [0] + [h.pick([0, 1, 3], f"x{i}") for i in range(1, n)] if ints else h.reals("x", n, -100, 100)
        r = h.param("r", 0.01, 20)
        f = h.frame(x=("i64" if ints else "f64", x))
        x = [K(v) for v in x]
        w = apen(x, m, fmul(r.v, fsqrt(var_(x, 1))) if scale else r.v) if not scale or not all(eq(v, x[0]) for v in x) else NAN
        h.eq(h.run(f, lambda pds, pl: pds.query_approx_entropy("x", m=m, filtering_level=r.api, scale_by_std=scale, parallel=par)), [w])
    for n, m, ints in [(4, 2, False), (5, 2, True)] + ([(5, 2, False), (6, 3, True)] if th else []):
        for par in (False, True):
            obs.append(Ob(f"query_approx_entropy/n={n}, m={m}, {'0, 1 or 3' if ints else 'reals'}{'/parallel' if par else ''}", lambda h, n=n, m=m, p=par, i=ints: ap(h, n, m, p, False, i), f"{n} {'values of 0, 1 and 3' if ints else 'reals'}, arbitrary level", paths=20000))
    obs.append(Ob("query_approx_entropy/scaled/n=4, m=2", lambda h: ap(h, 4, 2, False, True, True), "4 values of 0, 1 and 3, arbitrary level", paths=4000))
    def samp(h, n, m, par):
        x = [0] + [h.pick([0, 1, 3], f"x{i}") for i in range(1, n)]
        r = h.param("r", 0.01, 5)
        f = h.frame(x=("f64", [K(v) for v in x]))
        x = [K(v) for v in x]
        w = NAN if all(eq(v, x[0]) for v in x) else sampen(x, m, fmul(r.v, fsqrt(var_(x, 0))))
        h.eq(h.run(f, lambda pds, pl: pds.query_sample_entropy("x", ratio=r.api, m=m, parallel=par)), [w])
    for n, m in [(4, 2), (5, 2)] + ([(6, 2), (6, 3)] if th else []):
        for par in (False, True):
            obs.append(Ob(f"query_sample_entropy/n={n}, m={m}{'/parallel' if par else ''}", lambda h, n=n, m=m, p=par: samp(h, n, m, p), f"{n} values of 0, 1 and 3, arbitrary ratio", paths=4000))
    # fixed series, arbitrary tolerance: longer series and embeddings
    FIX = [[0, 1, 0, 0, 1, 0, 1, 0], [1, 2, 4, 1, 2, 5, 1], [3, 1, 4, 1, 5, 9, 2, 6], [2, 2, 2, 3, 2, 2, 2]]
    def fixed(h, x, m, par, what):
        r = h.param("r", 0.05, 3)
        f = h.frame(x=("f64", [K(v) for v in x]))
        x = [K(v) for v in x]
        if what == "ap":
            h.eq(h.run(f, lambda pds, pl: pds.query_approx_entropy("x", m=m, filtering_level=r.api, scale_by_std=False, parallel=par)), [apen(x, m, r.v)])
        elif what == "aps":
            h.eq(h.run(f, lambda pds, pl: pds.query_approx_entropy("x", m=m, filtering_level=r.api, scale_by_std=True, parallel=par)), [apen(x, m, fmul(r.v, fsqrt(var_(x, 1))))])
        else:
            h.eq(h.run(f, lambda pds, pl: pds.query_sample_entropy("x", ratio=r.api, m=m, parallel=par)), [sampen(x, m, fmul(r.v, fsqrt(var_(x, 0))))])
    for i, x in enumerate(FIX):
        for m in (2, 3):
            for what, nm in (("ap", "query_approx_entropy"), ("aps", "query_approx_entropy (scaled)"), ("sa", "query_sample_entropy")):
                for par in (False, True):
                    obs.append(Ob(f"{nm}/series {i}, m={m}{'/parallel' if par else ''}", lambda h, x=x, m=m, p=par, w=what: fixed(h, x, m, p, w), "a fixed series, arbitrary level", paths=600))
    def short(h):
        for n in (0, 1, 2, 3):
            f = h.frame(x=("f64", h.reals(f"x{n}", n)))
            h.eq(h.run(f, lambda pds, pl: pds.query_approx_entropy("x", m=2, filtering_level=0.5, scale_by_std=False)), [NAN], "approximate entropy")
            if n > 1:
                h.eq(h.run(f, lambda pds, pl: pds.query_sample_entropy("x")), [NAN], "sample entropy")
        f = h.frame(x=("f64", [fl(2)] * 5))
        h.eq(h.run(f, lambda pds, pl: pds.query_sample_entropy("x")), [NAN], "no spread")
        h.eq(h.run(f, lambda pds, pl: pds.query_approx_entropy("x", m=2, filtering_level=0.5)), [NAN], "no spread")
    obs.append(Ob("too short or constant series give NaN", short, "up to 3 rows"))
    # ---------------------------------------------------------------- permutation entropy
    def perm(h, n, d, tau, base):
        x = h.reals("x", n)
        f = h.frame(x=("f64", x))
        k = n - (d - 1) * tau
        pats = {}
        for i in range(k):
            v = [x[i + j * tau] for j in range(d)]
            o = tuple(sorted(range(d), key=lambda a: sum(1 for b in range(d) if lt(v[b], v[a]) or (b < a and eq(v[b], v[a])))))
            pats[o] = pats.get(o, 0) + 1
        w = fneg(fsum_([fmul(K(Fraction(c, k)), lnq(c, k)) for c in pats.values()]))
        if base != math.e:
            w = fdiv(w, fl(math.log(base)))
        kw = {} if base == math.e else dict(base=base)
        h.eq(h.run(f, lambda pds, pl: pds.query_permute_entropy("x", tau=tau, n_dims=d, **kw)), [w])
    for n, d, tau in [(3, 2, 1), (4, 2, 1), (4, 3, 1), (5, 3, 1), (3, 2, 2), (4, 2, 2), (5, 3, 2), (5, 2, 3), (6, 3, 2)] + ([(6, 3, 1), (6, 4, 1), (7, 3, 2), (7, 3, 3), (6, 2, 2)] if th else []):
        for base in ((math.e, 2.0) if n < 5 else (math.e,)):
            obs.append(Ob(f"query_permute_entropy/n={n}, n_dims={d}, tau={tau}, base={base:.3g}", lambda h, n=n, d=d, t=tau, b=base: perm(h, n, d, t, b), f"{n} reals", paths=6000))
    # ---------------------------------------------------------------- entropy of a category column
    def ent(cnt, n):
        return fneg(fsum_([fmul(K(Fraction(c, n)), lnq(c, n)) for c in cnt]))
    def groups_(keys):
        g = {}
        for i, k in enumerate(keys):
            g.setdefault(k, []).append(i)
        return g
    def entropy(h, n, base, norm, dt):
        ks = [h.pick(["p", "q", "r", None], f"k{i}") for i in range(n)]
        num = {"p": 1, "q": 5, "r": -2, None: None}
        f = h.frame(x=("str", [None if k is None else StrV([ord(k)]) for k in ks]) if dt == "str" else ("i64", [num[k] for k in ks]))
        c = [len(v) for v in groups_(ks).values()]
        h.assume(norm or len(c) > 1)               # polars' entropy of a single number is 0
        if norm:
            w = ent(c, n)
        else:
            w = fneg(fsum_([fmul(K(a), fln(K(a))) for a in c]))
        if base != math.e:
            w = fdiv(w, fl(math.log(base)))
        kw = {} if base == math.e else dict(base=base)
        if not norm:
            kw["normalize"] = False
        h.eq(h.run(f, lambda pds, pl: pds.query_entropy("x", **kw)), [w])
    for n in (1, 2, 3, 4):
        for base in (math.e, 2.0):
            for norm in ((True, False) if n > 1 else (True,)):
                obs.append(Ob(f"query_entropy/n={n}, base={base:.3g}{'' if norm else '/not normalised'}", lambda h, n=n, b=base, z=norm: entropy(h, n, b, z, "str" if n % 2 else "i64"), f"{n} rows, any grouping, nulls", paths=2000))
    # ---------------------------------------------------------------- conditional entropy
    def cond(h, n):
        x = [h.pick([1, 2, None], f"x{i}") for i in range(n)]
        y = [h.pick(["a", "b", None], f"y{i}") for i in range(n)]
        f = h.frame(x=("i64", x), y=("str", [None if k is None else StrV([ord(k)]) for k in y]))
        gy = {k: len(v) for k, v in groups_(y).items()}
        w = fneg(fsum_([fmul(K(Fraction(len(v), n)), lnq(len(v), gy[k[1]])) for k, v in groups_(list(zip(x, y))).items()]))
        h.eq(h.run(f, lambda pds, pl: pds.query_cond_entropy("x", "y")), [w])
    for n in (1, 2, 3) + ((4,) if th else ()):
        obs.append(Ob(f"query_cond_entropy/n={n}", lambda h, n=n: cond(h, n), f"{n} rows, any grouping, nulls", paths=8000))
    # ---------------------------------------------------------------- nearest-neighbour entropy
    def digamma(n):
        return -EULER + sum(1.0 / i for i in range(1, n))
    def knn(h, n, d, k, dist, par, concrete=None):
        if concrete:
            X = [[K(v) for v in r] for r in concrete]
        else:
            X = [h.reals(f"x{i}", d if th or d < 2 else d - 1, -100, 100) for i in range(n)]
            for i, r in enumerate(X):
                if len(r) < d:
                    r.append(K([0, 1, 5][i]))
            for i in range(n):
                for j in range(i):
                    h.assume(any(not eq(a, b) for a, b in zip(X[i], X[j])))
        f = h.frame(**{f"f{j}": ("f64", [X[i][j] for i in range(n)]) for j in range(d)})
        cs = [f"f{j}" for j in range(d)]
        got = h.run(f, lambda pds, pl: pds.query_knn_entropy(*cs, k=k, dist=dist, parallel=par))
        if n <= k:
            return h.eq(got, [NAN])
        near(h, got[0], knnent(X, k, dist), "value")
        h.true(len(got) == 1, "one value")
    def knnent(X, k, dist):
        n, d = len(X), len(X[0])
        logs = []
        for i in range(n):
            ds = sort_([(fsum_([sq(fsub(a, b)) for a, b in zip(X[i], X[j])]) if dist == "l2" else max_([fabs(fsub(a, b)) for a, b in zip(X[i], X[j])])) for j in range(n) if j != i])
            e = fsqrt(ds[k - 1]) if dist == "l2" else ds[k - 1]
            logs.append(fln(fmul(K(2), e)))
        cd = math.pi ** (d / 2) / 2 ** d / math.gamma(1 + d / 2) if dist == "l2" else 1.0
        return fadd(fl(digamma(n) - digamma(k) + math.log(cd)), fmul(K(Fraction(d, n)), fsum_(logs)))
    for n, d, k in [(2, 1, 1), (3, 1, 1), (3, 1, 2), (2, 2, 1), (3, 2, 1), (2, 1, 2), (2, 1, 3)] + ([(4, 1, 1), (4, 1, 2), (4, 1, 3), (3, 2, 2), (3, 3, 1)] if th else []):
        for dist in ("l2", "inf"):
            for par in (False, True):
                if par and n < 3:
                    continue
                obs.append(Ob(f"query_knn_entropy/n={n}, {d} columns, k={k}, {dist}{'/parallel' if par else ''}", lambda h, n=n, d=d, k=k, s=dist, p=par: knn(h, n, d, k, s, p), f"{n} distinct rows of reals", paths=4000))
    PTS = [[[0, 0], [1, 0], [0, 3], [5, 5], [6, 1]], [[1, 2, 0], [4, 4, 1], [0, 0, 9], [3, 1, 2]], [[0], [1], [3], [7], [15], [31]]]
    for i, P in enumerate(PTS):
        for k in (1, 2, 3):
            for dist in ("l2", "inf"):
                for par in (False, True):
                    obs.append(Ob(f"query_knn_entropy/points {i}, k={k}, {dist}{'/parallel' if par else ''}", lambda h, P=P, k=k, s=dist, p=par: knn(h, len(P), len(P[0]), k, s, p, P), "fixed points"))
    # ---------------------------------------------------------------- copula and transfer entropy
    def rank(c):
        n = len(c)
        return [K(Fraction(2 * sum(1 for b in c if lt(b, a)) + sum(1 for b in c if eq(a, b)) + 1, 2 * n)) for a in c]
    def cop(cols, k):
        R = [rank(c) for c in cols]
        return fneg(knnent([[r[i] for r in R] for i in range(len(cols[0]))], k, "l2"))
    def distinct(h, *cols):
        for c in cols:
            for i in range(len(c)):
                for j in range(i):
                    h.assume(not eq(c[i], c[j]))
    def copula(h, n, d, k, par):
        X = [h.reals(f"x{j}", n) for j in range(d)]
        distinct(h, *X)
        f = h.frame(**{f"f{j}": ("f64", X[j]) for j in range(d)})
        cs = [f"f{j}" for j in range(d)]
        near(h, h.run(f, lambda pds, pl: pds.query_copula_entropy(*cs, k=k, parallel=par))[0], cop(X, k), "value")
    for n, d, k in [(3, 1, 1), (3, 2, 1), (3, 2, 2)] + ([(4, 2, 1), (4, 2, 3), (3, 3, 2)] if th else []):
        for par in (False, True):
            obs.append(Ob(f"query_copula_entropy/n={n}, {d} columns, k={k}{'/parallel' if par else ''}", lambda h, n=n, d=d, k=k, p=par: copula(h, n, d, k, p), f"{n} rows of distinct reals", paths=4000))
    def ci(h, n, k):
        X = [h.reals(nm, n) for nm in "xyz"]
        distinct(h, *X)
        if not th:
            h.assume(lt(X[0][0], X[0][1]) and lt(X[0][1], X[0][2]))
        f = h.frame(x=("f64", X[0]), y=("f64", X[1]), z=("f64", X[2]))
        x, y, z = X
        w = fsub(fsub(cop([x, y, z], k), cop([y, z], k)), cop([x, z], k))
        near(h, h.run(f, lambda pds, pl: pds.query_cond_indep("x", "y", "z", k=k))[0], w, "value")
    obs.append(Ob("query_cond_indep/n=3, k=1", lambda h: ci(h, 3, 1), "3 rows of distinct reals" + ("" if th else ", x ascending"), paths=4000))
    def te(h, n, lag, k):
        x, s = h.reals("x", n), h.reals("s", n)
        distinct(h, x, s)
        if not th:
            h.assume(all(lt(x[i], x[i + 1]) for i in range(n - 2)))
        f = h.frame(x=("f64", x), s=("f64", s))
        a, b, c = x[lag:], s[:n - lag], x[:n - lag]
        w = fsub(fsub(cop([a, b, c], k), cop([b, c], k)), cop([a, c], k))
        near(h, h.run(f, lambda pds, pl: pds.query_transfer_entropy("x", "s", lag=lag, k=k))[0], w, "value")
    for n, lag in ((3, 1), (4, 1), (4, 2)) if not th else ((4, 1), (4, 2), (5, 2)):
        obs.append(Ob(f"query_transfer_entropy/n={n}, lag={lag}, k=1", lambda h, n=n, l=lag: te(h, n, l, 1), f"{n} rows of distinct reals" + ("" if th else ", all but the last of x ascending"), paths=4000))
    def bad(h):
        for nm, fn in (("m", lambda pds, pl: pds.query_sample_entropy("x", m=1)), ("level", lambda pds, pl: pds.query_approx_entropy("x", m=2, filtering_level=0.0)), ("m", lambda pds, pl: pds.query_approx_entropy("x", m=1, filtering_level=0.5)),
                       ("n_dims", lambda pds, pl: pds.query_permute_entropy("x", n_dims=1)), ("tau", lambda pds, pl: pds.query_permute_entropy("x", tau=0)), ("k", lambda pds, pl: pds.query_knn_entropy("x", k=0)), ("dist", lambda pds, pl: pds.query_knn_entropy("x", dist="l1")), ("lag", lambda pds, pl: pds.query_transfer_entropy("x", "x", lag=0))):
            h.true(h.run(h.frame(x=("f64", h.reals("x" + nm, 4))), fn, may_error=True) is ERR, f"refused: {nm}")
    obs.append(Ob("impossible parameters are refused", bad, "4 rows"))
    return obs
