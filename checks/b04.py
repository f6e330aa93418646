from .strs import *

def bcanon(*ss):
    """canon over the bytes of the strings"""
    return canon(*[s if all(not isinstance(c, int) or c < 128 for c in s.c) else StrV(list(s.concrete().encode())) for s in ss])

def grams(s, n):
    return {s[i:i + n] for i in range(len(s) - n + 1)} if len(s) >= n else {s} if s else set()

def coef(kind, n, al=None, be=None):
    def f(a, b):
        A, B = grams(a, n), grams(b, n)
        i = len(A & B)
        d = {"jaccard": lambda: K(len(A | B)), "dice": lambda: K(len(A) + len(B)), "overlap": lambda: K(min(len(A), len(B))),
             "tversky": lambda: fadd(K(i), fadd(fmul(al or T.ZERO, K(len(A - B))), fmul(be or T.ZERO, K(len(B - A)))))}[kind]()
        if d.is_const() and d.cval() == 0 or isinstance(d, Poly) and not d.is_const() and eq(d, T.ZERO):
            return ANY
        return fdiv(K(2 * i if kind == "dice" else i), d)
    return f

CALL = {"jaccard": "str_jaccard", "dice": "str_sorensen_dice", "overlap": "str_overlap_coeff"}

def get(p, name):
    if hasattr(p, name):
        return getattr(p, name)
    import polars_ds.exprs.string as m
    return getattr(m, name)

def obligations(tier):
    th = tier == "thorough"
    obs = []
    asc = dict(sym="ASCII characters", canon=bcanon, ascii=True)
    for n in (1, 2, 3):
        for k in CALL:
            ms = {f"{CALL[k]}[n={n}]": (lambda p, x, y, par, k=k, n=n: get(p, CALL[k])(x, y, substr_size=n, parallel=par), coef(k, n))}
            family(obs, ms, tier, 4, total=7 if th else 5, par=n == 2, nulls=n == 2, **asc)
        ms = {f"str_tversky_sim[n={n}]": (lambda p, x, y, par, n=n: p.str_tversky_sim(x, y, 0.3, 0.7, substr_size=n, parallel=par), coef("tversky", n, fl(0.3), fl(0.7)))}
        family(obs, ms, tier, 3 if th else -1, par=n == 2, nulls=n == 2, **asc)
        def tv(h, how, a, b, n):
            al, be = h.param("alpha", 0, 2), h.param("beta", 0, 2)
            rowwise(h, lambda p, x, y: p.str_tversky_sim(x, y, al.api, be.api, substr_size=n), coef("tversky", n, al.v, be.v), how, a, b, canon=bcanon, ascii=True)
        for how in ("col", "lit"):
            for a in range(5):
                for b in range(5):
                    if a + b <= (7 if th else 5):
                        obs.append(Ob(f"str_tversky_sim[n={n}, any weights]/{how}/{a}x{b}", lambda h, how=how, a=a, b=b, n=n: tv(h, how, a, b, n), f"every pair of ASCII strings of {a} and {b} characters, weights in [0, 2]", paths=9000))
    return obs
