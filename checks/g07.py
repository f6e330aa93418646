from .common import *
import itertools

ASSUMPTIONS = ["integers in a small symmetric range (ties and negatives included), strings of up to two arbitrary characters"]

def same(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, StrV):
        return br(a.eq_sym(b))
    return eq(a, b)

def uniq(xs):
    out = []
    for x in xs:
        if not any(same(x, y) for y in out):
            out.append(x)
    return out

def jac(a, b):
    ua, ub = uniq(a), uniq(b)
    i = sum(1 for x in ua if any(same(x, y) for y in ub))
    u = len(ua) + len(ub) - i
    return fdiv(K(i), K(u)) if u else NAN

def obligations(tier):
    th = tier == "thorough"
    obs = []
    def vals(h, name, n, dt, nulls=True):
        if dt == "str":
            xs = [h.str(f"{name}{i}", 2 if n < 2 else 1, 0 if n < 2 else 1) for i in range(n)]
        elif dt in ("f64", "f32"):
            xs = h.reals(name, n)
        else:
            xs = h.ints(name, n, 0 if dt[0] == "u" else -2, 3)
        return h.opts_(xs, name) if nulls else xs
    # ---------------------------------------------------------------- jaccard
    def jrow(h, dt, la, lb):
        A = h.opt(Lst(vals(h, "a", la, dt), dt), "A")
        B = h.opt(Lst(vals(h, "b", lb, dt), dt), "B")
        C1, D1 = Lst(vals(h, "c", 1, dt, False), dt), Lst(vals(h, "d", 1, dt, False), dt)
        f = h.frame(x=(("list", dt), [A, C1]), y=(("list", dt), [B, D1]))
        want = [None if A is None or B is None else jac(A.v, B.v), jac(C1.v, D1.v)]
        h.eq(h.run(f, lambda pds, pl: pds.jaccard_row("x", "y")), want)
    for dt in ("i64", "u8", "str") + (("i32", "i16", "i8", "u16", "u32", "u64") if th else ()):
        for la, lb in ((1, 1), (2, 1), (2, 2), (0, 2)) + (((3, 2), (3, 3)) if th else ()):
            obs.append(Ob(f"jaccard_row[{dt}]/lengths={la},{lb}", lambda h, dt=dt, la=la, lb=lb: jrow(h, dt, la, lb), f"two rows; lists of {la} and {lb} values, any null pattern", paths=4000))
    def jcol(h, n, dt, dt2, cn):
        xs, ys = vals(h, "x", n, dt), vals(h, "y", n, dt2)
        f = h.frame(x=(dt, xs), y=(dt2, ys))
        a = xs if cn else [x for x in xs if x is not None]
        b = ys if cn else [y for y in ys if y is not None]
        if not a and not b:
            return
        h.eq(h.run(f, lambda pds, pl: pds.jaccard_col("x", "y", count_null=cn)), [jac(a, b)])
    for cn in (False, True):
        for dt, dt2 in (("i64", "i64"), ("str", "str"), ("f64", "f64"), ("i32", "i64")) + ((("u8", "u8"), ("i8", "i8"), ("i16", "i16"), ("u16", "u16"), ("u32", "u32"), ("u64", "u64"), ("f32", "f32"), ("u8", "i32")) if th else (("u32", "u32"),)):
            for n in (1, 2) + ((3,) if dt in ("i64", "f64") else ()):
                obs.append(Ob(f"jaccard_col[{dt},{dt2},count_null={cn}]/n={n}", lambda h, n=n, dt=dt, dt2=dt2, cn=cn: jcol(h, n, dt, dt2, cn), f"{n} rows, any null pattern", paths=6000, hard=n > 2))
    # ---------------------------------------------------------------- combinations / product
    def lists(r):
        return [list(x.v if isinstance(x, Lst) else x) for x in r]
    def comb(h, n, k, dt, un):
        xs = vals(h, "x", n, dt)
        v = [x for x in xs if x is not None]
        if un:
            v = uniq(v)
            if dt == "str":
                import functools
                from symx.plops import br_lt_str
                v = sorted(v, key=functools.cmp_to_key(lambda a, b: -1 if br(tlt(a, b)) else 1))
            else:
                v = sort_(v)
        f = h.frame(x=(dt, xs))
        r = h.run(f, lambda pds, pl: pds.combinations("x", k, unique=un), may_error=len(v) < k)
        if len(v) < k:
            h.true(r is ERR, "fewer than k values are rejected")
            return
        h.eq(lists(r), [list(c) for c in itertools.combinations(v, k)])
    for dt in ("i64", "f64", "str", "u8") + (("i32", "i16", "i8", "u16", "u32", "u64", "f32") if th else ()):
        for n, k in ((2, 1), (3, 2), (3, 3), (4, 2)) + (((4, 3), (5, 3)) if th else ()):
            if dt == "str" and n > 3:
                continue
            obs.append(Ob(f"combinations[{dt},k={k}]/n={n}", lambda h, n=n, k=k, dt=dt: comb(h, n, k, dt, False), f"{n} values, any null pattern", paths=2000))
            if n < 4:
                obs.append(Ob(f"combinations[{dt},k={k},unique]/n={n}", lambda h, n=n, k=k, dt=dt: comb(h, n, k, dt, True), f"{n} values, any null pattern", paths=4000, hard=n > 2))
    def prod(h, n, dt):
        xs, ys = vals(h, "x", n, dt), vals(h, "y", n, dt)
        f = h.frame(x=(dt, xs), y=(dt, ys))
        r = h.run(f, lambda pds, pl: pds.product("x", "y"))
        h.eq(lists(r), [[a, b] for a in xs if a is not None for b in ys if b is not None])
    for dt in ("i64", "f64", "str", "u8") + (("i32", "i16", "i8", "u16", "u32", "u64", "f32") if th else ()):
        for n in (1, 2, 3):
            obs.append(Ob(f"product[{dt}]/n={n}", lambda h, n=n, dt=dt: prod(h, n, dt), f"{n} rows, any null pattern", paths=2000))
    return obs
