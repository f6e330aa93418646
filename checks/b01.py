from .strs import *

def obligations(tier):
    obs = []
    ms = {
        "str_leven": (lambda p, x, y, par: p.str_leven(x, y, parallel=par), lev),
        "str_d_leven": (lambda p, x, y, par: p.str_d_leven(x, y, parallel=par), dlev),
        "str_osa": (lambda p, x, y, par: p.str_osa(x, y, parallel=par), osa),
        "str_lcs_seq": (lambda p, x, y, par: p.str_lcs_seq(x, y, parallel=par, return_sim=False), lcs_dist),
        "str_hamming": (lambda p, x, y, par: p.str_hamming(x, y, parallel=par), hamming),
        "str_hamming[pad]": (lambda p, x, y, par: p.str_hamming(x, y, pad=True, parallel=par), lambda a, b: hamming(a, b, True)),
    }
    family(obs, ms, tier, 4, total=8 if tier == "thorough" else 6)
    return obs
