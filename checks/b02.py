from .strs import *

def obligations(tier):
    obs = []
    ms = {
        "str_leven": (lambda p, x, y, par: p.str_leven(x, y, parallel=par, return_sim=True), nsim(lev)),
        "str_d_leven": (lambda p, x, y, par: p.str_d_leven(x, y, parallel=par, return_sim=True), nsim(dlev)),
        "str_osa": (lambda p, x, y, par: p.str_osa(x, y, parallel=par, return_sim=True), nsim(osa)),
        "str_lcs_seq": (lambda p, x, y, par: p.str_lcs_seq(x, y, parallel=par), nsim(lcs_dist)),
        "str_jaro": (lambda p, x, y, par: p.str_jaro(x, y, parallel=par), lambda a, b: K(jaro(a, b))),
        "str_fuzz": (lambda p, x, y, par: p.str_fuzz(x, y, parallel=par), fuzz),
    }
    family(obs, ms, tier, 4, total=8 if tier == "thorough" else 6)
    def jwk(h, how, n, m, w):
        w = h.param("w", 0, 0.25) if w is None else w
        api, v = (w.api, w.v) if hasattr(w, "api") else (w, fl(w))
        rowwise(h, lambda p, x, y: p.str_jw(x, y, weight=api), lambda a, b: jw(a, b, v), how, n, m)
    for how in ("col", "lit"):
        for n in range(5):
            for m in range(5 if tier == "thorough" else min(4, 6 - n) + 1):
                obs.append(Ob(f"str_jw/{how}/{n}x{m}", lambda h, how=how, n=n, m=m: jwk(h, how, n, m, None), f"every pair of strings of {n} and {m} characters, every weight in [0, 0.25]", paths=6000))
    family(obs, {"str_jw": (lambda p, x, y, par: p.str_jw(x, y, parallel=par), lambda a, b: jw(a, b, fl(0.1)))}, tier, -1)
    return obs
