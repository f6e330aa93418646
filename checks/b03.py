from .strs import *

def obligations(tier):
    obs = []
    th = tier == "thorough"
    D = {"levenshtein": lev, "hamming": hamming, "hamming[pad]": lambda a, b: hamming(a, b, True)}
    def call(name, bound, par=False):
        if name == "levenshtein":
            return lambda p, x, y: p.filter_by_levenshtein(x, y, bound, parallel=par)
        return lambda p, x, y: p.filter_by_hamming(x, y, bound, pad="pad" in name, parallel=par)
    def ok(name, bound):
        def f(a, b):
            d = D[name](a, b)
            return d is not None and d <= bound
        return f
    L = 4 if th else 3
    for name in D:
        for bound in range(L + 2):
            ms = {f"filter_by_{name}[bound={bound}]": (lambda p, x, y, par, name=name, bound=bound: call(name, bound, par)(p, x, y), ok(name, bound))}
            family(obs, ms, tier, L if bound in (1, 2) or th else 2, par=bound == 1, nulls=bound == 1, total=8 if th else 6)
    def rows(h, name, par):
        """as a filter: the rows kept"""
        bound = h.pick((0, 1, 2), "bound")
        h.threads = 2 if par else 1
        a = h.str("a", 2, 0)
        rs = [(S("ab"), S("ab")), (a, S("ab")), (None, S("a")), (S("abc"), S("xyz")), (S("b"), None)]
        f = h.frame(i=("i64", list(range(5))), a=("str", [x for x, _ in rs]), b=("str", [y for _, y in rs]))
        got = h.run(f, lambda pds, pl: call(name, bound, par)(pds, "a", "b"), how="filter")
        w = [i for i, (x, y) in enumerate(rs) if x is not None and y is not None and ok(name, bound)(*canon(x, y))]
        h.eq(got["i"], w)
    for name in D:
        for par in (False, True):
            obs.append(Ob(f"filter rows/{name}/parallel={par}", lambda h, name=name, par=par: rows(h, name, par), "one string of up to 2 arbitrary characters among fixed rows, bounds 0 to 2", paths=6000))
    return obs
