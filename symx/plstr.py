"""polars' string functions and the part of its regular expressions the package uses, over symbolic characters"""
import re
from functools import lru_cache
from . import ctx as C, term as T
from .term import *
from .ctx import *
from .interp import StrV
from .plops import Col, Lst, PolarsError, br

try:
    import re._parser as sre
except ImportError:                     # pragma: no cover
    import sre_parse as sre

D = [(48, 57)]
W = [(48, 57), (65, 90), (95, 95), (97, 122)]
SP = [(9, 13), (32, 32)]

@lru_cache(None)
def parse(pat):
    p = pat.replace(r"\p{Ascii}", r"\x00-\x7f").replace("(?u)", "")
    if re.search(r"\\[pP]\b|\(\?[^:]", p):
        raise Unsupported("regex " + pat)
    return list(sre.parse(p))

def isin(x, rs, pyf=None):
    if isinstance(x, int):
        if x >= 128 and pyf is not None:
            return pyf(chr(x))
        return any(a <= x <= b for a, b in rs)
    if x.hi >= 128 and pyf is not None:
        raise Unsupported("character class of a symbolic non-ASCII character")
    return C.CTX.branch_whole(bor(*[band(ile(a, x), ile(x, b)) for a, b in rs]))

CAT = {"CATEGORY_DIGIT": (D, lambda s: s.isdecimal()), "CATEGORY_WORD": (W, lambda s: s.isalnum() or s == "_"), "CATEGORY_SPACE": (SP, lambda s: s.isspace())}

def member(av, x):
    neg, hit = False, False
    for op, v in av:
        n = str(op)
        if n == "NEGATE":
            neg = True
        elif n == "LITERAL":
            hit = bor(hit, ieq(x, v))
        elif n == "RANGE":
            hit = bor(hit, isin(x, [v]))
        elif n == "CATEGORY":
            hit = bor(hit, cat(v, x))
        else:
            raise Unsupported("regex class " + n)
    return bnot(hit) if neg else hit

def cat(v, x):
    n = str(v)
    if n.startswith("CATEGORY_NOT_"):
        return bnot(isin(x, *CAT["CATEGORY_" + n[13:]]))
    return isin(x, *CAT[n])

def m(nodes, s, i, k):
    """leftmost-first matching with backtracking; k(i) continues and returns the end or None"""
    if not nodes:
        return k(i)
    (op, av), rest = nodes[0], nodes[1:]
    n = str(op)
    go = lambda j: m(rest, s, j, k)
    if n == "LITERAL":
        return go(i + 1) if i < len(s) and br(ieq(s[i], av)) else None
    if n == "NOT_LITERAL":
        return go(i + 1) if i < len(s) and br(bnot(ieq(s[i], av))) else None
    if n == "ANY":
        return go(i + 1) if i < len(s) and br(bnot(ieq(s[i], 10))) else None
    if n == "IN":
        return go(i + 1) if i < len(s) and br(member(av, s[i])) else None
    if n == "CATEGORY":
        return go(i + 1) if i < len(s) and br(cat(av, s[i])) else None
    if n == "SUBPATTERN":
        return m(list(av[-1]), s, i, go)
    if n == "AT":
        if str(av) == "AT_BOUNDARY":
            a = br(isin(s[i - 1], *CAT["CATEGORY_WORD"])) if i > 0 else False
            b = br(isin(s[i], *CAT["CATEGORY_WORD"])) if i < len(s) else False
            return go(i) if a != b else None
        if str(av) == "AT_BEGINNING":
            return go(i) if i == 0 else None
        if str(av) == "AT_END":
            return go(i) if i == len(s) else None
        raise Unsupported("regex " + str(av))
    if n in ("MAX_REPEAT", "MIN_REPEAT"):
        lo, hi, sub = av
        sub = list(sub)
        hi = 10**9 if hi is sre.MAXREPEAT else hi
        lazy = n == "MIN_REPEAT"
        def rep(c, j):
            if lazy and c >= lo:
                r = go(j)
                if r is not None:
                    return r
            if c < hi:
                r = m(sub, s, j, lambda e: rep(c + 1, e) if e > j else None)
                if r is not None:
                    return r
            return go(j) if not lazy and c >= lo else None
        return rep(0, i)
    if n == "BRANCH":
        for alt in av[1]:
            r = m(list(alt) + list(rest), s, i, k)
            if r is not None:
                return r
        return None
    raise Unsupported("regex " + n)

def find_iter(pat, s):
    """(start, end) of the successive matches"""
    nodes = parse(pat)
    out, i, last = [], 0, None
    while i <= len(s):
        e = m(nodes, s, i, lambda j: j)
        if e is None or (e == i and last == i):
            i += 1
            continue
        out.append((i, e))
        last = e
        i = e if e > i else i + 1
    return out

def lit_iter(p, s):
    out, i = [], 0
    while i + len(p) <= len(s):
        if p and br(band(True, *[ieq(x, y) for x, y in zip(s[i:], p)])):
            out.append((i, i + len(p)))
            i += len(p)
        else:
            i += 1
    return out

def const_str(c):
    if len(c) != 1 or c.vals[0] is None:
        raise Unsupported("string function with a column argument")
    return c.vals[0]

def string_fn(ev, ins, w):
    (k, v), = w.items() if isinstance(w, dict) else ((w, None),)
    c = ins[0]
    if k == "Replace":
        pat, val = const_str(ins[1]), const_str(ins[2])
        lit = v["literal"] or (pat.concrete() is not None and not re.search(r"[\\.+*?()|\[\]{}^$]", pat.concrete()))
        if not lit and "$" in (val.concrete() or ""):
            raise Unsupported("replacement groups")
        out = []
        for s in c.vals:
            if s is None:
                out.append(None)
                continue
            ms = lit_iter(pat.c, s.c) if lit else find_iter(pat.concrete(), s.c)
            if v["n"] >= 0:
                ms = ms[:v["n"]]
            r, p = [], 0
            for a, b in ms:
                r += s.c[p:a] + list(val.c)
                p = b
            out.append(StrV(r + s.c[p:]))
        return Col(c.name, "str", out, c.scalar)
    if k == "ExtractAll":
        pat = const_str(ins[1]).concrete()
        return Col(c.name, ("list", "str"), [None if s is None else Lst([StrV(s.c[a:b]) for a, b in find_iter(pat, s.c)], "str") for s in c.vals], c.scalar)
    if k == "Lowercase" or k == "Uppercase":
        from .models_std import _lower
        return Col(c.name, "str", [None if s is None else StrV([y for x in s.c for y in _lower(x, k == "Uppercase")]) for s in c.vals], c.scalar)
    if k in ("LenChars", "LenBytes"):
        def nb(x):
            if not isinstance(x, SI):
                return len(chr(x).encode())
            for w, top in ((1, 0x80), (2, 0x800), (3, 0x10000)):
                if x.hi < top or br(ilt(x, top)):
                    return w
            return 4
        f = (lambda s: len(s.c)) if k == "LenChars" else (lambda s: sum(nb(x) for x in s.c))
        return Col(c.name, "u32", [None if s is None else f(s) for s in c.vals], c.scalar)
    raise Unsupported("str." + k)
