from .common import *
from .g06 import records

ASSUMPTIONS = ["values are finite 64-bit floats unless the obligation adds nulls, NaN or infinities; targets are 0/1"]

def clip(k, n):
    p = Fraction(k, n)
    return K(p if p > Fraction(0.0001) else Fraction(0.0001))

def psi_rows(cr, cn):
    """per bin: baseline share, new share, index contribution"""
    tr, tn = sum(cr), sum(cn)
    out = []
    for a, b in zip(cr, cn):
        p, q = clip(a, tr), clip(b, tn)
        out.append((p, q, fmul(fsub(p, q), fln(fdiv(p, q)))))
    return out

def obligations(tier):
    th = tier == "thorough"
    obs = []
    def rows(r):
        return [list(x.values()) if isinstance(x, dict) else list(x) for x in r]
    def finite(xs):
        return [x for x in xs if x is not None and not isinstance(x, FSpec)]
    def bin_of(x, bps):
        for i, b in enumerate(bps):
            if le(x, b):
                return i
        return len(bps)
    # ---------------------------------------------------------------- custom breakpoints
    def wbp(h, n, bps, sp):
        xs = h.reals("x", n)
        ys = h.reals("y", n)
        if sp:
            xs = [h.opt(h.special(f"x{i}", x), f"x{i}") for i, x in enumerate(xs)]
        f = h.frame(x=("f64", xs), y=("f64", ys))
        b, a = finite(xs), finite(ys)
        if not a or not b:
            return
        B = [K(Fraction(v)) for v in bps]
        cb, ca = [0] * (len(B) + 1), [0] * (len(B) + 1)
        for v in b:
            cb[bin_of(v, B)] += 1
        for v in a:
            ca[bin_of(v, B)] += 1
        r = h.run(f, lambda pds, pl: pds.psi_w_breakpoints(new="y", baseline="x", breakpoints=list(bps)))
        want = [[u] + list(w) for u, w in zip(B + [PINF], psi_rows(cb, ca))]
        h.eq(rows(r), want)
    for bps in ([0.0], [-1.0, 2.0], [0.5, 1.0, 4.0]):
        for n in ((1, 2) if len(bps) > 1 else (1, 2, 3)) + ((3,) if th and len(bps) > 1 else ()):
            obs.append(Ob(f"psi_w_breakpoints[{bps}]/n={n}", lambda h, n=n, bps=bps: wbp(h, n, bps, False), f"{n} rows of arbitrary reals", paths=3000))
    obs.append(Ob("psi_w_breakpoints[nulls, NaN, infinities]/n=2", lambda h: wbp(h, 2, [0.0], True), "2 rows", paths=3000))
    def wbpi(h, n):
        xs, ys = h.ints("x", n, -4, 4), h.ints("y", n, -4, 4)
        f = h.frame(x=("i64", xs), y=("i64", ys))
        B = [K(0), K(2)]
        cb, ca = [0] * 3, [0] * 3
        for v in xs:
            cb[bin_of(v, B)] += 1
        for v in ys:
            ca[bin_of(v, B)] += 1
        h.eq(rows(h.run(f, lambda pds, pl: pds.psi_w_breakpoints(new="y", baseline="x", breakpoints=[0, 2]))), [[u] + list(w) for u, w in zip(B + [PINF], psi_rows(cb, ca))])
    obs.append(Ob("psi_w_breakpoints[integers]/n=2", lambda h: wbpi(h, 2), "2 rows of integers, integer breakpoints", paths=2000))
    # ---------------------------------------------------------------- quantile bins
    def qbreaks(v, k):
        """the distinct inner quantiles (linear interpolation) i/k of v"""
        s = sort_(v)
        n = len(s)
        out = []
        for i in range(1, k):
            p = Fraction(i, k) * (n - 1)
            lo = int(p)
            q = s[lo] if p == lo else fadd(s[lo], fmul(K(p - lo), fsub(s[lo + 1], s[lo])))
            if not out or not eq(out[-1], q):
                out.append(q)
        return out
    def psi(h, n, m, k, report, sp):
        ref, new = h.reals("r", n), h.reals("x", n)
        if sp:
            new = [h.opt(h.special(f"x{i}", x, ("nan", "inf")), f"x{i}") for i, x in enumerate(new)]
            ref = [h.opt(x, f"r{i}") for i, x in enumerate(ref)]
        f = h.frame(r=("f64", ref), x=("f64", new))
        vr, vx = finite(ref), finite(new)
        if len(vr) < 1 or not vx:
            return
        B = qbreaks(vr, k)
        cb = [0] * (len(B) + 1)
        for v in vr:
            cb[bin_of(v, B)] += 1
        kept = [i for i in range(len(cb)) if cb[i]]     # bins without a baseline value join the next one
        edges = [B[i] if i < len(B) else PINF for i in kept]
        edges[-1] = PINF
        ca = [0] * len(kept)
        for v in vx:
            for i, e in enumerate(edges):
                if e is PINF or le(v, e):
                    ca[i] += 1
                    break
        w = psi_rows([cb[i] for i in kept], ca)
        if report:
            r = h.run(f, lambda pds, pl: pds.psi("x", "r", n_bins=k, return_report=True))
            h.eq(rows(r), [[e] + list(x) for e, x in zip(edges, w)])
        else:
            h.eq(h.run(f, lambda pds, pl: pds.psi("x", "r", n_bins=k)), [fsum_(x[2] for x in w)])
    for k in (2, 4):
        for n in (1, 2, 3) if th else (1, 2):
            obs.append(Ob(f"psi[n_bins={k},report]/n={n}", lambda h, n=n, k=k: psi(h, n, n, k, True, False), f"{n} rows of arbitrary reals", paths=3000, hard=n > 2))
    obs.append(Ob("psi[n_bins=2,report]/n=3", lambda h: psi(h, 3, 3, 2, True, False), "3 rows of arbitrary reals", paths=3000, hard=True))
    obs.append(Ob("psi[n_bins=2]/n=2", lambda h: psi(h, 2, 2, 2, False, False), "2 rows of arbitrary reals", paths=3000))
    obs.append(Ob("psi[n_bins=2,nulls and specials]/n=2", lambda h: psi(h, 2, 2, 2, True, True), "2 rows", paths=3000))
    # ---------------------------------------------------------------- discrete PSI
    def disc(h, n, nulls, report, abc=("a", "b", "c")):
        c = lambda s: [h.pick(list(abc) + ([None] if nulls else []), f"{s}{i}") for i in range(n)]
        new, ref = c("x"), c("r")
        S = lambda xs: [None if x is None else StrV(x) for x in xs]
        f = h.frame(x=("str", S(new)), r=("str", S(ref)))
        cats = sorted(set(new) | set(ref), key=str)
        w = psi_rows([ref.count(k) for k in cats], [new.count(k) for k in cats])
        if not report:
            h.eq(h.run(f, lambda pds, pl: pds.psi_discrete("x", "r")), [fsum_(x[2] for x in w)])
            return
        r = rows(h.run(f, lambda pds, pl: pds.psi_discrete("x", "r", return_report=True)))
        h.true(len(r) == len(cats), "one entry per category")
        for k, x in zip(cats, w):
            t = lambda v: v.concrete() if isinstance(v, StrV) else v
            hit = [q for q in r if (t(q[0]) == k or k not in ref and q[0] is None) and (t(q[1]) == k or k not in new and q[1] is None)]
            if None not in cats:
                h.true(len(hit) == 1, f"one entry for {k}")
            h.true(len(hit) >= 1, f"an entry for {k}")
            if len(hit) == 1:
                h.eq(hit[0][2:], list(x), f"entry of {k}")
    for n in (3,):
        obs.append(Ob(f"psi_discrete[report, two categories]/n={n}", lambda h, n=n: disc(h, n, False, True, "ab"), f"{n} rows, every assignment of two categories", paths=3000))
        obs.append(Ob(f"psi_discrete[two categories]/n={n}", lambda h, n=n: disc(h, n, False, False, "ab"), f"{n} rows, every assignment of two categories", paths=3000))
    for n in (1, 2, 3) if th else (1, 2):
        obs.append(Ob(f"psi_discrete[report]/n={n}", lambda h, n=n: disc(h, n, False, True), f"{n} rows, every assignment of three categories", paths=3000))
        obs.append(Ob(f"psi_discrete/n={n}", lambda h, n=n: disc(h, n, True, False), f"{n} rows, every assignment of three categories and null", paths=6000))
    # ---------------------------------------------------------------- WOE / IV
    def woe_rows(cats, ts):
        out = {}
        G, N = sum(ts), len(ts)
        for c in dict.fromkeys(cats):
            g = sum(t for k, t in zip(cats, ts) if k == c)
            n = cats.count(c)
            gp, bp = Fraction(g + 1, G + 2), Fraction(n - g + 1, N - G + 2)
            out[c] = (fln(K(gp / bp)), fmul(K(gp - bp), fln(K(gp / bp))))
        return out
    def discw(h, n, which, nulls):
        cs = [h.pick(["a", "b", "c"][:i + 1] + ([None] if nulls else []), f"c{i}") for i in range(n)]
        ts = [h.pick([0, 1] + ([None] if nulls else []), f"t{i}") for i in range(n)]
        f = h.frame(c=("str", [None if c is None else StrV(c) for c in cs]), t=("i64", ts))
        ok = [i for i in range(n) if cs[i] is not None and ts[i] is not None]
        if not ok:
            return
        w = woe_rows([cs[i] for i in ok], [ts[i] for i in ok])
        if which == "iv sum":
            h.eq(h.run(f, lambda pds, pl: pds.info_value_discrete("c", "t")), [fsum_(v[1] for v in w.values())])
            return
        fn = (lambda pds, pl: pds.woe_discrete("c", "t")) if which == "woe" else (lambda pds, pl: pds.info_value_discrete("c", "t", return_sum=False))
        got = records(h.run(f, fn))
        h.true(set(got) == set(w), "one entry per category")
        for c in w:
            h.eq(got.get(c), [[w[c][0 if which == "woe" else 1]]], f"entry of {c}")
    for which in ("woe", "iv", "iv sum"):
        for n in (1, 2, 3) + ((4,) if th else ()):
            obs.append(Ob(f"{which} discrete/n={n}", lambda h, n=n, which=which: discw(h, n, which, False), f"{n} rows, every assignment", paths=3000))
        obs.append(Ob(f"{which} discrete[nulls]/n=2", lambda h, which=which: discw(h, 2, which, True), "2 rows, every assignment with nulls", paths=3000))
    def cont(h, n, k, which, sp):
        xs = h.reals("x", n)
        if sp:
            xs = [h.opt(h.special(f"x{i}", x, ("nan", "inf")), f"x{i}") for i, x in enumerate(xs)]
        ts = [h.pick([0, 1], f"t{i}") for i in range(n)]
        f = h.frame(x=("f64", xs), t=("i64", ts))
        ok = [i for i in range(n) if xs[i] is not None and not isinstance(xs[i], FSpec)]
        if not ok:
            return
        B = qbreaks([xs[i] for i in ok], k)
        w = woe_rows([bin_of(xs[i], B) for i in ok], [ts[i] for i in ok])
        if which == "iv sum":
            h.eq(h.run(f, lambda pds, pl: pds.info_value("x", "t", n_bins=k)), [fsum_(v[1] for v in w.values())])
            return
        fn = (lambda pds, pl: pds.woe("x", "t", n_bins=k)) if which == "woe" else (lambda pds, pl: pds.info_value("x", "t", n_bins=k, return_sum=False))
        r = rows(h.run(f, fn))
        # labels carry rounded break points, so the entries are compared in any order
        want = [v[0 if which == "woe" else 1] for v in w.values()]
        h.true(len(r) == len(want), "one entry per bin")
        vals = [x[1] for x in r]
        if h.mode == "real":
            h.eq(sorted(float(to_py(v)) for v in vals), [K(Fraction(v)) for v in sorted(float(to_py(x, h.cenv)) for x in want)])
        else:
            h.eq(fsum_(vals), fsum_(want), "sum of the entries")
            h.eq(fsum_(sq(v) for v in vals), fsum_(sq(v) for v in want), "sum of the squared entries")
    for which in ("woe", "iv", "iv sum"):
        for n in (1, 2, 3) if th else (1, 2):
            for k in (2, 4):
                obs.append(Ob(f"{which}[n_bins={k}]/n={n}", lambda h, n=n, k=k, which=which: cont(h, n, k, which, False), f"{n} rows of arbitrary reals", paths=3000, hard=n > 2))
        obs.append(Ob(f"{which}[n_bins=2,nulls and specials]/n=2", lambda h, which=which: cont(h, 2, 2, which, True), "2 rows", paths=3000))
    return obs
