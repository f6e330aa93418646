"""String obligations: inputs, and definitions of the metrics over concrete patterns of equal characters"""
from functools import lru_cache
from itertools import combinations
from .common import *
from symx.interp import StrV

def canon(*ss):
    """the strings as tuples of small integers with the same pattern of equal characters (decided on the path)"""
    reps, out = [], []
    for s in ss:
        r = []
        for x in s.c:
            for i, y in enumerate(reps):
                if x is y or br(ieq(x, y)):
                    r.append(i)
                    break
            else:
                r.append(len(reps))
                reps.append(x)
        out.append(tuple(r))
    return out

@lru_cache(None)
def lev(a, b):
    if not a or not b:
        return len(a) + len(b)
    return min(lev(a[:-1], b) + 1, lev(a, b[:-1]) + 1, lev(a[:-1], b[:-1]) + (a[-1] != b[-1]))

@lru_cache(None)
def osa(a, b):
    if not a or not b:
        return len(a) + len(b)
    r = min(osa(a[:-1], b) + 1, osa(a, b[:-1]) + 1, osa(a[:-1], b[:-1]) + (a[-1] != b[-1]))
    if len(a) > 1 and len(b) > 1 and a[-1] == b[-2] and a[-2] == b[-1]:
        r = min(r, osa(a[:-2], b[:-2]) + 1)
    return r

def edits(s, alpha):
    for i in range(len(s)):
        yield s[:i] + s[i + 1:]
        if i + 1 < len(s):
            yield s[:i] + (s[i + 1], s[i]) + s[i + 2:]
        for c in alpha:
            yield s[:i] + (c,) + s[i + 1:]
    for i in range(len(s) + 1):
        for c in alpha:
            yield s[:i] + (c,) + s[i:]

@lru_cache(None)
def dlev(a, b):
    """least number of insertions, deletions, substitutions and adjacent transpositions"""
    alpha = tuple(set(a) | set(b))
    fs, d = [{a}, {b}], 0
    seen = [{a}, {b}]
    while not (seen[0] & seen[1]):
        k = d % 2
        fs[k] = {t for s in fs[k] for t in edits(s, alpha)} - seen[k]
        seen[k] |= fs[k]
        d += 1
    return d

@lru_cache(None)
def lcs(a, b):
    for k in range(min(len(a), len(b)), 0, -1):
        if set(combinations(a, k)) & set(combinations(b, k)):
            return k
    return 0

def hamming(a, b, pad=False):
    if len(a) != len(b) and not pad:
        return None
    return sum(x != y for x, y in zip(a, b)) + abs(len(a) - len(b))

def jaro(a, b):
    if not a and not b:
        return Fraction(1)
    w = max(max(len(a), len(b)) // 2 - 1, 0)
    used, ma = set(), []
    for i, x in enumerate(a):
        j = next((j for j, y in enumerate(b) if j not in used and x == y and abs(i - j) <= w), None)
        if j is not None:
            used.add(j)
            ma.append(x)
    m = len(ma)
    if not m:
        return Fraction(0)
    t = Fraction(sum(x != y for x, y in zip(ma, [b[j] for j in sorted(used)])) // 2)
    return (Fraction(m, len(a)) + Fraction(m, len(b)) + (m - t) / m) / 3

def jw(a, b, w):
    s = jaro(a, b)
    if s <= Fraction(7, 10):
        return K(s)
    p = 0
    while p < min(4, len(a), len(b)) and a[p] == b[p]:
        p += 1
    return fadd(K(s), fmul(fmul(K(p), w), K(1 - s)))

def nsim(d):
    return lambda a, b: K(1 - Fraction(d(a, b), max(len(a), len(b)))) if a or b else T.ONE

def lcs_dist(a, b):
    return max(len(a), len(b)) - lcs(a, b)

def fuzz(a, b):
    return K(1 - Fraction(len(a) + len(b) - 2 * lcs(a, b), len(a) + len(b))) if a or b else T.ONE

def S(s):
    return StrV([ord(c) for c in s])

# fixed rows beside the symbolic one
ROWS = [("kitten", "sitting"), ("", ""), ("ca", "abc"), ("añb", "ab"), ("ab", "ba"), ("abcd", "abdc"), ("xyz", "zyx")]

ANY = object()

def compare(h, got, l, want, canon=canon):
    """row by row; rows where the definition says nothing (ANY) are not compared"""
    h.eq(len(got), len(l), "number of rows")
    for g, (x, y) in zip(got, l):
        w = None if x is None or y is None else want(*canon(x, y))
        if w is not ANY:
            h.eq([g], [w])

def rowwise(h, call, want, how, n, m, extra=2, canon=canon, **kw):
    """one symbolic pair (lengths n and m) among fixed rows and nulls; how: col | lit | null"""
    a = h.str("a", n, n, **kw)
    b = h.str("b", m, m, **kw)
    rows = [(S(x), S(y)) for x, y in ROWS[:extra]]
    if how == "col":
        l = [(a, b), (None, b), rows[0] if extra else (a, b), (a, None)] + rows[1:]
        f = h.frame(a=("str", [x for x, _ in l]), b=("str", [y for _, y in l]))
        got = h.run(f, lambda pds, pl: call(pds, "a", "b"))
    elif how == "lit":
        l = [(a, b), (None, b)] + ([(S("é"), b)] if n + m < 5 and extra else [])
        f = h.frame(a=("str", [x for x, _ in l]))
        lit = h.strparam(b)
        got = h.run(f, lambda pds, pl: call(pds, "a", pl.lit(lit)))
    else:
        l = [(a, None), (None, None)] + [(x, None) for x, _ in rows]
        f = h.frame(a=("str", [x for x, _ in l]))
        got = h.run(f, lambda pds, pl: call(pds, "a", pl.lit(None, dtype=pl.String)))
    compare(h, got, l, want, canon)

def chunks(h, call, want, how, n, k, par, ctxpar=False, canon=canon):
    """fixed rows split into k chunks, evaluated with the given number of threads"""
    h.threads, h.ctx_parallel = par or 1, ctxpar
    rows = [(S(x), S(y)) for x, y in ROWS]
    a = h.str("a", n, n, 97, 99)
    b = h.str("b", n, n, 97, 99)
    at = h.choose(2, "at")
    rows.insert((1, 5)[at], (a, b))
    rows.insert(3, (None, S("a")))
    rows.insert(4, (S("a"), None))
    ch = {1: None, 2: [4, len(rows) - 4], 3: [1, 5, len(rows) - 6]}[k]
    if how == "col":
        f = h.frame(a=("str", [x for x, _ in rows], ch), b=("str", [y for _, y in rows], ch))
        got = h.run(f, lambda pds, pl: call(pds, "a", "b", bool(par)))
        l = rows
    else:
        f = h.frame(a=("str", [x for x, _ in rows], ch))
        l = [(x, S("bac")) for x, _ in rows]
        got = h.run(f, lambda pds, pl: call(pds, "a", pl.lit("bac"), bool(par)))
    compare(h, got, l, want, canon)

def family(obs, metrics, tier, L, sym="any characters", par=True, nulls=True, total=None, canon=canon, **kw):
    """metrics: name -> (call(p, a, b, parallel), want(a, b))"""
    th = tier == "thorough"
    ck = dict(canon=canon)
    for name, (call, want) in metrics.items():
        seq = lambda p, x, y, c=call: c(p, x, y, False)
        for how in ("col", "lit"):
            for n in range(L + 1):
                for m in range(L + 1):
                    if total is None or n + m <= total:
                        obs.append(Ob(f"{name}/{how}/{n}x{m}", lambda h, c=seq, w=want, how=how, n=n, m=m: rowwise(h, c, w, how, n, m, **ck, **kw),
                                      f"every pair of strings of {n} and {m} characters ({sym}), nulls, fixed rows beside them", paths=9000))
        if nulls:
            obs.append(Ob(f"{name}/null literal", lambda h, c=seq, w=want: rowwise(h, c, w, "null", 2, 2, **ck, **kw), "every string of 2 characters", paths=6000))
        if par:
            for how in ("col", "lit"):
                for t, k, cp in [(t, k, False) for t in (2, 3, 4) for k in (1, 2, 3)] + [(4, 3, True), (0, 3, False)] if th else [(3, 1, False), (2, 3, False), (0, 3, False)]:
                    what = f"threads={t},chunks={k}" + (",nested" if cp else "") if t else f"sequential,chunks={k}"
                    obs.append(Ob(f"{name}/{how}/{what}", lambda h, c=call, w=want, how=how, t=t, k=k, cp=cp: chunks(h, c, w, how, 2, k, t, cp, **ck),
                                  f"10 rows of fixed strings and one pair of arbitrary strings over 3 letters, {k} chunks, {t or 'no'} threads", paths=6000))
