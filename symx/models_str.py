"""Models of rapidfuzz's documented metrics (over sequences of characters) and of the text crates."""
import re
from . import ctx as C, term as T
from .term import *
from .ctx import *
from .interp import *
from . import models_std as S
from .models_std import ListIt, items, into_it

def same(a, b):
    return CTX_branch(ieq(a, b))


def lev(a, b, swap=None):
    """edit distance; swap: None, "osa" (restricted transpositions) or "d" (unrestricted)"""
    n, m = len(a), len(b)
    if swap == "d":
        # Lowrance-Wagner
        d = {}
        inf = n + m
        d[-1, -1] = inf
        for i in range(n + 1):
            d[i, -1] = inf
            d[i, 0] = i
        for j in range(m + 1):
            d[-1, j] = inf
            d[0, j] = j
        for i in range(1, n + 1):
            db = 0
            for j in range(1, m + 1):
                k, l = 0, db
                for q in range(i - 1, 0, -1):
                    if same(a[q - 1], b[j - 1]):
                        k = q
                        break
                eq = same(a[i - 1], b[j - 1])
                if eq:
                    db = j
                d[i, j] = min(d[i - 1, j - 1] + (0 if eq else 1), d[i, j - 1] + 1, d[i - 1, j] + 1, d[k - 1, l - 1] + (i - k - 1) + 1 + (j - l - 1) if k and l else inf)
        return d[n, m]
    p2, p = None, list(range(m + 1))
    for i in range(1, n + 1):
        r = [i]
        for j in range(1, m + 1):
            eq = same(a[i - 1], b[j - 1])
            v = min(p[j - 1] + (0 if eq else 1), p[j] + 1, r[j - 1] + 1)
            if swap == "osa" and i > 1 and j > 1 and same(a[i - 1], b[j - 2]) and same(a[i - 2], b[j - 1]):
                v = min(v, p2[j - 2] + 1)
            r.append(v)
        p2, p = p, r
    return p[m]

def lcs(a, b):
    p = [0] * (len(b) + 1)
    for x in a:
        r = [0]
        for j, y in enumerate(b):
            r.append(p[j] + 1 if same(x, y) else max(p[j + 1], r[j]))
        p = r
    return p[-1]

def jaro(a, b):
    n, m = len(a), len(b)
    if not n and not m:
        return Fraction(1)
    if not n or not m:
        return Fraction(0)
    w = max(max(n, m) // 2 - 1, 0)
    fb = [False] * m
    fa = []
    for i, x in enumerate(a):
        for j in range(max(0, i - w), min(m, i + w + 1)):
            if not fb[j] and same(x, b[j]):
                fb[j] = True
                fa.append(x)
                break
    c = len(fa)
    if not c:
        return Fraction(0)
    t = sum(0 if same(x, y) else 1 for x, y in zip(fa, [b[j] for j in range(m) if fb[j]])) // 2
    return (Fraction(c, n) + Fraction(c, m) + Fraction(c - t, c)) / 3

class RfArgs:
    byref = True
    name = "Args"
    def __init__(self, kind, cut=None, pad=None, w=None):
        self.kind, self.cut, self.pad, self.w = kind, cut, pad, w
    def clone_sym(self):
        return RfArgs(self.kind, self.cut, self.pad, self.w)

class Batch:
    byref = True
    name = "BatchComparator"
    def __init__(self, kind, s):
        self.kind, self.s = kind, s

def chars_of(it, v):
    return [deref(x) for x in into_it(v).all()]

def metric(kind, op, a, b, args):
    """distance / similarity / normalized_... of a metric, with cutoff and padding"""
    n, m = len(a), len(b)
    err = False
    if kind in ("levenshtein", "damerau_levenshtein", "osa", "lcs_seq", "indel"):
        big = n + m if kind == "indel" else max(n, m)
        d = lev(a, b, {"osa": "osa", "damerau_levenshtein": "d"}.get(kind)) if kind in ("levenshtein", "damerau_levenshtein", "osa") else big - (2 if kind == "indel" else 1) * lcs(a, b)
    elif kind == "hamming":
        big = max(n, m)
        err = n != m and not (args is not None and args.pad)
        d = 0 if err else sum(0 if same(x, y) else 1 for x, y in zip(a, b)) + abs(n - m)
    elif kind in ("jaro", "jaro_winkler"):
        s = jaro(a, b)
        s = Poly.const(s)
        if kind == "jaro_winkler" and s.cval() > Fraction(0.7):
            p = 0
            while p < min(n, m, 4) and same(a[p], b[p]):
                p += 1
            w = args.w if args is not None and args.w is not None else fl(0.1)
            s = fadd(s, fmul(fmul(Poly.const(p), w), fsub(T.ONE, s)))
        v = s if "similarity" in op else fsub(T.ONE, s)
        if args is not None and args.cut is not None:
            raise Unsupported("score cutoff of " + kind)
        return v
    else:
        raise Unsupported("metric " + kind)
    cut = args.cut if args is not None else None
    if op == "distance":
        v = d
        ok = cut is None or CTX_branch(ile(v, cut))
    elif op == "similarity":
        v = big - d
        ok = cut is None or CTX_branch(ile(cut, v))
    else:
        r = Fraction(d, big) if big else Fraction(0)
        v = Poly.const(r if op == "normalized_distance" else 1 - r)
        if cut is not None:
            raise Unsupported("cutoff of a normalised metric")
        ok = True
    if cut is not None:
        v = Some(v) if ok else None_()
    if kind == "hamming" and (args is None or args.pad is None):
        return Err(Opaque("hamming::Error")) if err else Ok(v)
    return v

KIND = re.compile(r"rapidfuzz::(?:distance::)?(\w+)::")

def kind_of(c):
    m = KIND.search(c.path.text)
    if not m:
        raise Unsupported("metric of " + c.path.text)
    k = m.group(1)
    return "indel" if k == "fuzz" else k

for _k in ("levenshtein", "damerau_levenshtein", "osa", "lcs_seq", "indel", "hamming", "jaro", "jaro_winkler"):
    for _op in ("distance", "similarity", "normalized_distance", "normalized_similarity"):
        def _mk(k, op):
            def f(it, a, c):
                return metric(k, op, chars_of(it, a[0]), chars_of(it, a[1]), deref(a[2]) if len(a) > 2 else None)
            return f
        MODELS[f"{_k}::{_op}"] = MODELS[f"{_k}::{_op}_with_args"] = _mk(_k, _op)

@model("fuzz::ratio", "fuzz::ratio_with_args", "ratio", "ratio_with_args")
def _(it, a, c):
    return metric("indel", "normalized_similarity", chars_of(it, a[0]), chars_of(it, a[1]), None)

@model("BatchComparator::new", "RatioBatchComparator::new")
def _(it, a, c):
    return Batch("indel" if "Ratio" in c.key else kind_of(c), chars_of(it, a[0]))

for _op in ("distance", "similarity", "normalized_distance", "normalized_similarity"):
    def _mk(op):
        def f(it, a, c):
            b = deref(a[0])
            # rapidfuzz 0.5: RatioBatchComparator::similarity scores the LCS
            k, o = ("lcs_seq", "normalized_similarity") if "Ratio" in c.key else (b.kind, op)
            return metric(k, o, b.s, chars_of(it, a[1]), deref(a[2]) if len(a) > 2 else None)
        return f
    for _t in ("BatchComparator", "RatioBatchComparator"):
        MODELS[f"{_t}::{_op}"] = MODELS[f"{_t}::{_op}_with_args"] = _mk(_op)

_default = MODELS["Default::default"]
@model("Default::default")
def _(it, a, c):
    t = c.path.qself or ""
    if "rapidfuzz" in t and "Args" in t:
        return RfArgs(KIND.search(t).group(1))
    return _default(it, a, c)

@model("Args::score_cutoff")
def _(it, a, c):
    x = deref(a[0])
    return RfArgs(x.kind, a[1], x.pad, x.w)

@model("Args::score_hint")
def _(it, a, c):
    return deref(a[0])

@model("Args::pad")
def _(it, a, c):
    x = deref(a[0])
    return RfArgs(x.kind, x.cut, deref(a[1]), x.w)

@model("Args::prefix_weight")
def _(it, a, c):
    x = deref(a[0])
    return RfArgs(x.kind, x.cut, x.pad, a[1])

# ------------------------------------------------------------------ unicode-normalization
def _norm(form):
    def f(it, a, c):
        import unicodedata
        cs = chars_of(it, a[0]) if not isinstance(deref(a[0]), StrV) else list(deref(a[0]).c)
        if all(isinstance(x, int) or x.hi < 128 for x in cs):
            # ASCII characters are unaffected and never combine (a combining mark may follow one: concrete then)
            out, run = [], []
            for x in cs:
                if isinstance(x, int):
                    run.append(x)
                    continue
                if run and form in ("NFC", "NFKC") or any(isinstance(y, int) and unicodedata.combining(chr(y)) for y in cs):
                    raise Unsupported("normal form of mixed symbolic text")
                out += [ord(q) for q in unicodedata.normalize(form, "".join(map(chr, run)))] + [x]
                run = []
            return ListIt(out + [ord(q) for q in unicodedata.normalize(form, "".join(map(chr, run)))])
        raise Unsupported("normal form of a symbolic non-ASCII character")
    return f
for _f in ("nfc", "nfd", "nfkc", "nfkd"):
    MODELS["UnicodeNormalization::" + _f] = _norm(_f.upper())

# ------------------------------------------------------------------ inflections::case
def _sep(x):
    return CTX_branch(S._isin(x, (32, 32), (45, 45), (95, 95)))

def _is(it, name, x):
    return CTX_branch(MODELS["char::" + name](it, [x], None))

def _broken(it, s, sep, up):
    cs = [sep if _sep(x) else x for x in s]
    out = []
    for i, x in enumerate(cs):
        out += S._lower(x, up)
        if i + 1 < len(cs) and _is(it, "is_lowercase", x) and _is(it, "is_uppercase", cs[i + 1]):
            out.append(sep)
    return StrV(out)

def _camel(it, s, up):
    out, last = [], None
    for x in s:
        prev, last = last, x
        if up:
            up = False
            out += S._lower(x, True)
        elif _sep(x):
            up = True
        elif prev is None or not _is(it, "is_lowercase", prev):
            out += S._lower(x, False)
        else:
            out.append(x)
    return StrV(out)

@model("case::to_snake_case", "to_snake_case")
def _(it, a, c):
    return _broken(it, deref(a[0]).c, 95, False)

@model("case::to_constant_case", "to_constant_case")
def _(it, a, c):
    return _broken(it, deref(a[0]).c, 95, True)

@model("case::to_kebab_case", "to_kebab_case")
def _(it, a, c):
    return _broken(it, deref(a[0]).c, 45, False)

@model("case::to_camel_case", "to_camel_case")
def _(it, a, c):
    return _camel(it, deref(a[0]).c, False)

@model("case::to_pascal_case", "to_pascal_case")
def _(it, a, c):
    return _camel(it, deref(a[0]).c, True)

@model("case::to_lower_case", "case::to_upper_case")
def _(it, a, c):
    return StrV([y for x in deref(a[0]).c for y in S._lower(x, "upper" in c.key)])
