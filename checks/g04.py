from .common import *

ASSUMPTIONS = ["responses are finite 64-bit floats, weights positive; the optimum is characterised by the max-min formula for isotonic regression"]

def obligations(tier):
    th = tier == "thorough"
    obs = []
    def wavg(y, w, j, k):
        return fdiv(dot_(y[j:k + 1], w[j:k + 1]), fsum_(w[j:k + 1]))
    def iso(y, w, inc):
        """fit_i = max over j <= i of min over k >= i of the weighted mean of y[j..k]"""
        n = len(y)
        if not inc:
            y, w = y[::-1], w[::-1]
        out = [max_([min_([wavg(y, w, j, k) for k in range(i, n)]) for j in range(i + 1)]) for i in range(n)]
        return out if inc else out[::-1]
    def run(h, n, wt, inc):
        y = h.reals("y", n)
        w = [T.ONE] * n
        cols = dict(y=("f64", y))
        if wt == "symbolic":
            w = h.reals("w", n)
            pos(h, *w)
        elif wt == "fixed":
            w = [K(v) for v in h.pick([[1, 2, 3, 1, 2], [3, 1, 1, 2, 1], [1, 4, 2, 1, 3]], "w")[:n]]
        if wt != "unit":
            cols["w"] = ("f64", w)
        f = h.frame(**cols)
        r = h.run(f, lambda pds, pl: pds.isotonic_regression("y", "w" if wt != "unit" else None, increasing=inc))
        h.eq(r, iso(y, w, inc))
    def kkt(h, n, wt, inc):
        """the properties that characterise the optimum: monotone, block means, and block prefix sums on the right side"""
        y = h.reals("y", n)
        w = [T.ONE] * n
        cols = dict(y=("f64", y))
        if wt == "symbolic":
            w = h.reals("w", n)
            pos(h, *w)
            cols["w"] = ("f64", w)
        f = h.frame(**cols)
        r = h.run(f, lambda pds, pl: pds.isotonic_regression("y", "w" if wt != "unit" else None, increasing=inc))
        if not inc:
            r, y, w = r[::-1], y[::-1], w[::-1]
        for a, b in zip(r, r[1:]):
            h.le(a, b, "the fit is monotone")
        # cumulative residuals: >= 0 everywhere, = 0 wherever the fit steps up and at the end
        s = T.ZERO
        for i in range(n):
            s = fadd(s, fmul(w[i], fsub(y[i], r[i])))
            if i == n - 1:
                h.zero(s, "residuals add up to 0", scale=1.0)
            else:
                h.le(T.ZERO, s, "prefix sums of the residuals are not negative")
                if lt(r[i], r[i + 1]) if h.mode == "sym" else float(to_py(r[i + 1])) - float(to_py(r[i])) > 1e-6:
                    h.zero(s, "residuals of a block add up to 0", scale=1.0)
    for inc in (True, False):
        t = "increasing" if inc else "decreasing"
        for n in (1, 2, 3, 4, 5) if not th else (1, 2, 3, 4, 5, 6):
            obs.append(Ob(f"{t}/n={n}", lambda h, n=n, inc=inc: run(h, n, "unit", inc), f"{n} arbitrary reals, unit weights", paths=3000, hard=n > 3))
        for n in (2, 3, 4, 5) if th else (2, 3, 4):
            obs.append(Ob(f"{t}[fixed weights]/n={n}", lambda h, n=n, inc=inc: run(h, n, "fixed", inc), f"{n} arbitrary reals, three weight vectors", paths=3000, hard=n > 3))
        for n in (2, 3, 4) if th else (2, 3):
            obs.append(Ob(f"{t}[arbitrary weights]/n={n}", lambda h, n=n, inc=inc: run(h, n, "symbolic", inc), f"{n} arbitrary reals, arbitrary positive weights", paths=2000, hard=n > 2))
        for n in (3, 4, 5, 6) if not th else (3, 4, 5, 6, 7):
            obs.append(Ob(f"{t} optimality/n={n}", lambda h, n=n, inc=inc: kkt(h, n, "unit", inc), f"{n} arbitrary reals, unit weights", paths=3000, hard=n > 4))
        obs.append(Ob(f"{t} optimality[arbitrary weights]/n=3", lambda h, inc=inc: kkt(h, 3, "symbolic", inc), "3 arbitrary reals, arbitrary positive weights", paths=2000, hard=True))
    def guards(h, what):
        y = h.reals("y", 2)
        if what == "null response":
            f = h.frame(y=("f64", [y[0], None]))
            r = h.run(f, lambda pds, pl: pds.isotonic_regression("y"), may_error=True)
        elif what == "weight not positive":
            w = h.reals("w", 2)
            h.assume(fle(w[1], T.ZERO))
            f = h.frame(y=("f64", y), w=("f64", w))
            r = h.run(f, lambda pds, pl: pds.isotonic_regression("y", "w"), may_error=True)
        else:
            f = h.frame(y=("f64", y), w=("f64", [h.real("w0"), None]))
            r = h.run(f, lambda pds, pl: pds.isotonic_regression("y", "w"), may_error=True)
        h.true(r is ERR, "rejected")
    for w in ("null response", "weight not positive", "null weight"):
        obs.append(Ob(f"rejects a {w}", lambda h, w=w: guards(h, w), "2 rows"))
    return obs
