from .common import *
from .k01 import CX, table, column, config, PINS

ASSUMPTIONS = ["one group's values are symbolic, the other group's fixed; groups are not empty",
               "polars calls a native function marked element-wise once on the rows of all groups, any other once per group, without the columns' names unless they are asked for"]

ROWS = {"x": [3, 1, 4, 2], "y": [1, 5, 2, 6], "z": [5, 3, 5, 8], "w": [2, 7, 1, 8]}
# length-changing expressions cannot be used over(); those with results in no particular order
LONG = ("psi report", "psi_discrete", "psi_discrete of integers", "lin_reg_report", "convolve", "rfft", "f_test of two", "chi2 full", "tpr_fpr", "confusion matrix", "woe", "info_value", "target_encode")
NOORDER = ("psi_discrete", "psi_discrete of integers", "woe", "info_value", "neighbours", "radius", "f_test", "chi2", "target_encode")
SKIP = ("random numbers", "random strings", "perturb, jitter", "xi_corr", "similar_count")

def second(k, c, n):
    """fixed values of the kind"""
    r = ROWS.get(c, [1, 2, 3, 4])[:n]
    if k in ("f64", "f32"):
        return [K(Fraction(x) + Fraction(1, 4)) for x in r]
    if k in ("i64", "i32", "u32", "u64"):
        return list(r)
    return {"bool": [True, False, True, True], "bit": [0, 1, 1, 0], "cpos": [K(2), K(4), K(5), K(9)], "cx": [K(Fraction(x, 4)) for x in CX[::-1]], "index": [0, 1, 2, 3],
            "str": [StrV(s) for s in ("b", "ab", "b", "a")], "cstr": [StrV(s) for s in ("b", "ab cd", "b", "ab")], "group": [StrV(s) for s in "uvvu"],
            "lf": [Lst([K(1), K(2)], "f64")] * 4, "li": [Lst([1, 2], "i64")] * 4, "ls": [Lst([StrV("a"), StrV("c")], "str")] * 4}[k][:n]

def obligations(tier):
    obs = []
    def ob(h, dt, fn, cols, n, nulls, f32, keep, order):
        h.opts["pins"] = PINS
        f = {}
        for c, k in cols.items():
            k = dt if k == "x" else k
            d, v = column(h, c, k, n, nulls)
            f[c] = (d, v + second(k, c, n))
        try:
            config(f32)
            h.grouped(h.frame(**f), n, fn, keep=keep, order=order)
        finally:
            config(False)
    for name, fn, cols, dts, o in table(tier):
        if name in SKIP or name.startswith("lin_reg_report") and "hc" in name:
            continue
        n, nulls, f32 = max(2, o.get("n", 3)) if "index" in cols.values() else o.get("n", 3), o.get("nulls", True), o.get("f32")
        if name in ("gcd", "lcm"):
            n = 1
        keep = not any(name.startswith(x) for x in LONG)
        order = not any(name.startswith(x) for x in NOORDER)
        for dt in dts[:3]:
            obs.append(Ob(f"{name}{'[f32]' if f32 else ''}/{dt}", lambda h, a=(dt, fn, cols, n, nulls, f32, keep, order): ob(h, *a), f"two groups of {n} rows of {dt}" + (", nulls" if nulls else ""), paths=o.get("paths", 60), secs=60))
    return obs
