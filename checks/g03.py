from .common import *

ASSUMPTIONS = ["values are finite 64-bit floats unless the obligation adds nulls", "the realfft crate computes the discrete Fourier transform; the input buffer of a transform holds no defined value afterwards", "FFT obligations are bounded to lengths whose roots of unity are expressible by square roots"]

def conv_full(x, k):
    n, m = len(x), len(k)
    return [fsum_(fmul(x[i], k[t - i]) for i in range(n) if 0 <= t - i < m) for t in range(n + m - 1)]

def conv(x, k, mode):
    f = conv_full(x, k)
    n, m = len(x), len(k)
    if mode == "full":
        return f
    if mode == "same":
        return f[(m - 1) // 2:(m - 1) // 2 + n]
    if mode == "left":
        return f[:n]
    if mode == "right":
        return f[m - 1:]
    return f[m - 1:n]

def obligations(tier):
    th = tier == "thorough"
    obs = []
    # ---------------------------------------------------------------- trapz
    def trap(h, n, nulls):
        y, x = h.reals("y", n), h.reals("x", n)
        if nulls:
            y = h.opts_(y, "y")
            x = h.opts_(x, "x")
        f = h.frame(y=("f64", y), x=("f64", x))
        r = h.run(f, lambda pds, pl: pds.integrate_trapz("y", "x"))
        if None in y or None in x:
            h.eq(r, [NAN])
        else:
            h.eq(r, [fsum_(fmul(K(Fraction(1, 2)), fmul(fadd(y[i], y[i + 1]), fsub(x[i + 1], x[i]))) for i in range(n - 1))])
    for n in range(1, 9 if th else 6):
        obs.append(Ob(f"integrate_trapz[x column]/n={n}", lambda h, n=n: trap(h, n, False), f"{n} arbitrary points"))
    obs.append(Ob("integrate_trapz[nulls]/n=2", lambda h: trap(h, 2, True), "2 points, nulls"))
    def trapd(h, n, dx):
        y = h.reals("y", n)
        f = h.frame(y=("f64", y))
        h.eq(h.run(f, lambda pds, pl: pds.integrate_trapz("y", dx)), [fsum_(fmul(K(Fraction(abs(dx)) / 2), fadd(y[i], y[i + 1])) for i in range(n - 1))])
    for dx in (1.0, 0.25, -2.0):
        for n in range(1, 7 if th else 5):
            obs.append(Ob(f"integrate_trapz[dx={dx}]/n={n}", lambda h, n=n, dx=dx: trapd(h, n, dx), f"{n} arbitrary values, constant step"))
    # ---------------------------------------------------------------- convolution
    MODES = ("full", "same", "left", "right", "valid")
    def cv(h, n, m, mode, method, par, how="list", nulls=False):
        x = h.reals("x", n)
        k = h.reals("k", n)
        xs = h.opts_(x, "x") if nulls else x
        f = h.frame(x=("f64", xs), k=("f64", k))
        fill = 2.5 if nulls else 0.0
        x = [K(Fraction(fill)) if v is None else v for v in xs]
        if how == "expr":
            r = h.run(f, lambda pds, pl: pds.convolve("x", pl.col("k").head(m), fill_value=fill, method=method, mode=mode, parallel=par))
            k = k[:m]
        else:
            kc = [Fraction(v) for v in (1, -2, 0, 0.5, 3)[:m]]
            k = [K(v) for v in kc]
            r = h.run(f, lambda pds, pl: pds.convolve("x", [float(v) for v in kc], fill_value=fill, method=method, mode=mode, parallel=par))
        h.eq(r, conv(x, k, mode))
    def pad(h, n, m, mode, method):
        """kernel expression of another length than the column: taken from a second, longer run of rows"""
        x = h.reals("x", n)
        k = h.reals("k", n)
        f = h.frame(x=("f64", x), k=("f64", k))
        r = h.run(f, lambda pds, pl: pds.convolve("x", pl.col("k").head(m), method=method, mode=mode))
        h.eq(r, conv(x, k[:m], mode))
    for mode in MODES:
        for n, m in ((2, 2), (3, 2), (3, 3), (4, 3), (5, 3)) + (((6, 4), (7, 5), (8, 2)) if th else ()):
            obs.append(Ob(f"convolve[direct,{mode},kernel column]/n={n},k={m}", lambda h, n=n, m=m, mode=mode: pad(h, n, m, mode, "direct"), f"{n} values, kernel of {m}, all arbitrary"))
        for n, m in ((3, 2), (4, 3)) + (((6, 5),) if th else ()):
            obs.append(Ob(f"convolve[direct,{mode},parallel]/n={n},k={m}", lambda h, n=n, m=m, mode=mode: cv(h, n, m, mode, "direct", True), f"{n} values, fixed kernel of {m}, thread pool"))
        # lengths with expressible roots: full pads to n + 2 (k - 1)
        for n, m in ((2, 2), (4, 2), (3, 2), (4, 3), (6, 2)):
            if mode == "valid" and n not in (2, 3, 4, 6) or mode != "valid" and n + 2 * (m - 1) not in (4, 5, 6, 8):
                continue
            obs.append(Ob(f"convolve[fft,{mode},kernel column]/n={n},k={m}", lambda h, n=n, m=m, mode=mode: pad(h, n, m, mode, "fft"), f"{n} values, kernel of {m}, all arbitrary", paths=50))
        obs.append(Ob(f"convolve[fft,{mode},nulls]/n=2,k=2", lambda h, mode=mode: cv(h, 2, 2, mode, "fft", False, nulls=True), "2 values, nulls filled", paths=50))
        obs.append(Ob(f"convolve[direct,{mode},nulls]/n=3,k=2", lambda h, mode=mode: cv(h, 3, 2, mode, "direct", False, nulls=True), "3 values, nulls filled", paths=50))
    def bad(h, n, m, method):
        x, k = h.reals("x", 4), h.reals("k", 4)
        f = h.frame(x=("f64", x), k=("f64", k))
        h.true(h.run(f, lambda pds, pl: pds.convolve(pl.col("x").head(n), pl.col("k").head(m), method=method), may_error=True) is ERR, "a kernel shorter than 2 or longer than the column is an error")
    for n, m in ((2, 3), (3, 1), (1, 1)):
        for method in ("direct", "fft"):
            obs.append(Ob(f"convolve[{method},bad kernel]/n={n},k={m}", lambda h, n=n, m=m, method=method: bad(h, n, m, method), ""))
    # ---------------------------------------------------------------- detrend
    def det(h, n, method, kind):
        if kind == "int":
            x = h.ints("x", n, -100, 100)
            f = h.frame(x=("i64", x))
            x = [fl(v) for v in x]
        else:
            x = h.reals("x", n)
            if kind == "null":
                x = h.opts_(x, "x")
            f = h.frame(x=("f64", x))
        r = h.run(f, lambda pds, pl: pds.detrend("x", method))
        if method == "mean":
            v = [a for a in x if a is not None]
            if not v:
                h.eq(r, x)
            else:
                m = mean_(v)
                h.eq(r, [None if a is None else fsub(a, m) for a in x])
            return
        t = [K(i) for i in range(n)]
        mx, mt = mean_(x), mean_(t)
        b = fdiv(fsum_(fmul(fsub(p, mx), fsub(q, mt)) for p, q in zip(x, t)), fsum_(sq(fsub(q, mt)) for q in t))
        h.eq(r, [fsub(p, fadd(mx, fmul(b, fsub(q, mt)))) for p, q in zip(x, t)])
    for kind in ("real", "int"):
        for n in range(2, 9 if th else 6):
            obs.append(Ob(f"detrend[linear,{kind}]/n={n}", lambda h, n=n, kind=kind: det(h, n, "linear", kind), f"{n} values"))
        for n in range(1, 6):
            obs.append(Ob(f"detrend[mean,{kind}]/n={n}", lambda h, n=n, kind=kind: det(h, n, "mean", kind), f"{n} values"))
    obs.append(Ob("detrend[mean,nulls]/n=3", lambda h: det(h, 3, "mean", "null"), "3 values and nulls"))
    # ---------------------------------------------------------------- rfft
    from symx import models_misc as MM
    def four(h, n, N, full):
        x = h.reals("x", n)
        f = h.frame(x=("f64", x))
        r = h.run(f, lambda pds, pl: pds.rfft("x", n=N, return_full=full))
        L = N or n
        y = (list(x) + [T.ZERO] * L)[:L]
        out = []
        for k in range(L if full else L // 2 + 1):
            cs = [MM.cossin(j * k, L) for j in range(L)]
            out.append(Lst([fsum_(fmul(a, c) for a, (c, _) in zip(y, cs)), fneg(fsum_(fmul(a, s) for a, (_, s) in zip(y, cs)))], "f64"))
        h.eq(r, out)
    for full in (False, True):
        for n in (1, 2, 3, 4, 5, 6, 8) + ((10, 12) if th else ()):
            obs.append(Ob(f"rfft[{'full' if full else 'half'}]/n={n}", lambda h, n=n, full=full: four(h, n, None, full), f"{n} arbitrary values"))
        for n, N in ((3, 4), (2, 5), (4, 3), (6, 2), (4, 4)):
            obs.append(Ob(f"rfft[{'full' if full else 'half'},length {N}]/n={n}", lambda h, n=n, full=full, N=N: four(h, n, N, full), f"{n} arbitrary values cut or padded to {N}"))
    def fnull(h):
        x = [None, h.real("x")]
        h.true(h.run(h.frame(x=("f64", x)), lambda pds, pl: pds.rfft("x"), may_error=True) is ERR, "nulls are rejected")
    obs.append(Ob("rfft[nulls]/n=2", fnull, "2 values"))
    def chunks(h, n, ch, what):
        x, y = h.reals("x", n), h.reals("y", n)
        f = h.frame(x=("f64", x, ch), y=("f64", y, ch[::-1]))
        if what == "trapz":
            h.eq(h.run(f, lambda pds, pl: pds.integrate_trapz("y", "x")), [fsum_(fmul(K(Fraction(1, 2)), fmul(fadd(y[i], y[i + 1]), fsub(x[i + 1], x[i]))) for i in range(n - 1))])
        elif what == "rfft":
            h.eq([v.v[0] if isinstance(v, Lst) else v[0] for v in h.run(f, lambda pds, pl: pds.rfft("x"))][0], fsum_(x))
        else:
            h.eq(h.run(f, lambda pds, pl: pds.convolve("x", pl.col("y").head(n - 1), method=what)), conv(x, y[:n - 1], "full"))
    for what in ("convolve direct", "convolve fft", "rfft", "trapz"):
        obs.append(Ob(f"{what}[column in several chunks]/n=3", lambda h, what=what: chunks(h, 4 if what == "rfft" else 3, [1, 3] if what == "rfft" else [1, 2], what.split()[-1]), "3 or 4 values in two chunks"))
    return obs
