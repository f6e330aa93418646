import unicodedata
from .strs import *
from symx import ctx as C
from symx.term import SBool

STOP = frozenset("""
a about above after again against ain all am an and any are aren aren't as at be because been before being below between both but by can couldn
couldn't d did didn didn't do does doesn doesn't doing don don't down during each few for from further had hadn hadn't has hasn hasn't have haven
haven't having he her here hers herself him himself his how i if in into is isn isn't it it's its itself just ll m ma me mightn mightn't more most
mustn mustn't my myself needn needn't no nor not now o of off on once only or other our ours ourselves out over own re s same shan shan't she she's
should should've shouldn shouldn't so some such t than that that'll the their theirs them themselves then there these they this those through to too
under until up ve very was wasn wasn't we were weren weren't what when where which while who whom why will with won't wouldn wouldn't y you you'd
you'll you're you've your yours yourself yourselves
""".split())

WS = [(9, 13), (32, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029), (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)]
UNI = ["é", "e\u0301", "ﬁ", "ﾊﾟ", "한", "Å", "½", "ø", "ạ̈", "😀", "ß", "Ǆ", "µ", "ñandú", "①"]

def whole(b):
    return C.CTX.branch_whole(b) if isinstance(b, SBool) else bool(b)

def isin(x, rs):
    return whole(bor(*[band(ile(a, x), ile(x, b)) for a, b in rs]))

def split(s, ws):
    out, cur = [], []
    for x in s.c:
        if isin(x, ws):
            if cur:
                out.append(cur)
            cur = []
        else:
            cur.append(x)
    return out + [cur] if cur else out

def join(ws, sep):
    r = []
    for i, w in enumerate(ws):
        r += (list(sep) if i else []) + list(w)
    return StrV(r)

def up(x):
    return si(ipoly(x) + K(-32), 0, 127) if isin(x, [(97, 122)]) else x
def low(x):
    return si(ipoly(x) + K(32), 0, 127) if isin(x, [(65, 90)]) else x

def obligations(tier):
    th = tier == "thorough"
    obs = []
    def each(name, call, want, ns, desc, **kw):
        """a symbolic string of n characters beside a null and fixed text"""
        def run(h, n):
            s = h.str("s", n, n, **kw)
            rows = [s, None, S("a b"), S("")]
            ch = h.pick((None, [1, 3]), "chunks") if n == 2 else None
            f = h.frame(a=("str", rows, ch))
            h.eq(h.run(f, lambda pds, pl: call(pds)), [None if x is None else want(x) for x in rows])
        for n in ns:
            obs.append(Ob(f"{name}/{n}", lambda h, n=n: run(h, n), f"every string of {n} {desc}", paths=9000))
    N = range(5) if th else range(4)
    ws = split
    each("normalize_whitespace", lambda p: p.normalize_whitespace("a"), lambda s: join(split(s, WS), [32]), range(6) if th else range(5), "characters (all of Unicode)")
    def spaces(s):
        out, i = [], 0
        for x in s.c:
            if out and br(ieq(x, 32)) and br(ieq(out[-1], 32)):
                continue
            out.append(x)
        return StrV(out)
    each("normalize_whitespace[only_spaces]", lambda p: p.normalize_whitespace("a", only_spaces=True), spaces, range(6) if th else range(5), "characters (all of Unicode)")
    each("replace_non_ascii", lambda p: p.replace_non_ascii("a"), lambda s: StrV([x for x in s.c if br(ile(x, 127))]), range(6) if th else range(5), "characters (all of Unicode)")
    for v in ("?", "ab", "é"):
        each(f"replace_non_ascii[{v}]", lambda p, v=v: p.replace_non_ascii("a", v), lambda s, v=v: StrV([y for x in s.c for y in ([x] if br(ile(x, 127)) else [ord(q) for q in v])]), range(6) if th else range(4), "characters (all of Unicode)")
    MAP = {"a": "one", "ab": "", "b": "a", "é": "e"}
    def mapped(s):
        out = []
        for w in split(s, WS):
            for k, v in MAP.items():
                if len(k) == len(w) and all(br(ieq(x, ord(y))) for x, y in zip(w, k)):
                    w = [ord(q) for q in v]
                    break
            out.append(w)
        return join(out, [32])
    each("map_words", lambda p: p.map_words("a", MAP), mapped, N, "characters (all of Unicode)")
    def mapsym(h, n):
        k, v, s = h.str("k", 1, 1), h.str("v", 2, 0), h.str("s", n, n)
        h.assume(bnot(bor(*[band(ile(a, k.c[0]), ile(k.c[0], b)) for a, b in WS])))
        ks, vs = h.strparam(k), h.strparam(v)
        f = h.frame(a=("str", [s, None]))
        out = [list(v.c) if len(w) == 1 and br(ieq(w[0], k.c[0])) else w for w in split(s, WS)]
        h.eq(h.run(f, lambda pds, pl: pds.map_words("a", {ks: vs})), [join(out, [32]), None])
    for n in range(4):
        obs.append(Ob(f"map_words[arbitrary mapping]/{n}", lambda h, n=n: mapsym(h, n), f"every string of {n} characters, every one-character word and replacement of up to 2 characters", paths=9000))
    # ---------------------------------------------------------------- normal forms: fixed non-ASCII pieces, arbitrary ASCII text
    def norm(h, form):
        u = h.pick(UNI, "u")
        s = S(u)
        t = h.str("t", 3, 0, ascii=True)
        f = h.frame(a=("str", [s, None, t, S("x" + u + "y")]))
        if form == "dia":
            w = lambda q: S("".join(x for x in unicodedata.normalize("NFD", q) if x.isascii()))
            got = h.run(f, lambda pds, pl: pds.remove_diacritics("a"))
        else:
            w = lambda q: S(unicodedata.normalize(form, q))
            got = h.run(f, lambda pds, pl: pds.normalize_string("a", form))
        h.eq(got, [w(u), None, t, w("x" + u + "y")])
    for form in ("NFC", "NFD", "NFKC", "NFKD", "dia"):
        obs.append(Ob("remove_diacritics" if form == "dia" else f"normalize_string[{form}]", lambda h, form=form: norm(h, form), "15 fixed pieces of non-ASCII text, every ASCII string of up to 3 characters"))
    # ---------------------------------------------------------------- case: words separated by single separators
    SEP = [(32, 32), (45, 45), (95, 95)]
    UP, LO = [(65, 90)], [(97, 122)]
    def single(h, s):
        """no leading, trailing or doubled separator"""
        q = [bor(*[ieq(x, a) for a, _ in SEP]) for x in s.c]
        if q:
            h.assume(bnot(q[0]))
            h.assume(bnot(q[-1]))
        for a, b in zip(q, q[1:]):
            h.assume(bnot(band(a, b)))
    def snake(s, f):
        out = []
        for i, x in enumerate(s.c):
            if isin(x, SEP):
                out.append(95)
            else:
                if i and isin(x, UP) and isin(s.c[i - 1], LO):
                    out.append(95)
                out.append(f(x))
        return StrV(out)
    def camel(s, pascal):
        out, start = [], pascal
        for i, x in enumerate(s.c):
            if isin(x, SEP):
                start = True
            elif start:
                start = False
                out.append(up(x))
            else:
                out.append(x if i and isin(s.c[i - 1], LO) else low(x))
        return StrV(out)
    def case(h, fn, want, n):
        s = h.str("s", n, n, ascii=True)
        single(h, s)
        rows = [s, None, S("hello_world-foo barBaz"), S("HELLO_WORLD"), S("")]
        f = h.frame(a=("str", rows))
        h.eq(h.run(f, lambda pds, pl: getattr(pds, fn)("a")), [None if x is None else want(x) for x in rows])
    for fn, want in (("to_snake_case", lambda s: snake(s, low)), ("to_constant_case", lambda s: snake(s, up)), ("to_camel_case", lambda s: camel(s, False)), ("to_pascal_case", lambda s: camel(s, True))):
        for n in range(6 if th else 5):
            obs.append(Ob(f"{fn}/{n}", lambda h, fn=fn, want=want, n=n: case(h, fn, want, n), f"every ASCII string of {n} characters with single inner separators", paths=9000))
    # ---------------------------------------------------------------- stop words
    def stop(h, n):
        s = h.str("s", n, n)
        rows = [s, None, S("the"), S("The"), S("cat")]
        f = h.frame(a=("str", rows))
        def w(s):
            return any(len(k) == len(s.c) and all(br(ieq(x, ord(y))) for x, y in zip(s.c, k)) for k in sorted(STOP))
        h.eq(h.run(f, lambda pds, pl: pds.is_stopword("a")), [None if x is None else w(x) for x in rows])
    for n in range(5 if th else 4):
        obs.append(Ob(f"is_stopword/{n}", lambda h, n=n: stop(h, n), f"every string of {n} characters", paths=9000))
    def stops(h, k):
        ws = sorted(STOP)
        w = h.pick(ws[k::6], "w")
        i = h.choose(len(w), "i") if th else h.pick(sorted({0, len(w) - 1}), "i")
        x = h.int("x", 1, 0xD7FF)
        s = StrV([x if j == i else ord(c) for j, c in enumerate(w)])
        f = h.frame(a=("str", [S(w), s, None]))
        h.eq(h.run(f, lambda pds, pl: pds.is_stopword("a")), [True, any(len(v) == len(w) and v[:i] == w[:i] and v[i + 1:] == w[i + 1:] and br(ieq(x, ord(v[i]))) for v in ws), None])
    for k in range(6):
        obs.append(Ob(f"is_stopword/words {k}", lambda h, k=k: stops(h, k), "each of the stop words, and each with one character replaced by an arbitrary one", paths=9000))
    # ---------------------------------------------------------------- tokens and numbers
    WORD = [(48, 57), (65, 90), (95, 95), (97, 122)]
    def words(s):
        out, cur = [], []
        for x in list(s.c) + [32]:
            if isin(x, WORD):
                cur.append(x)
            else:
                if len(cur) > 1:
                    out.append(StrV(cur))
                cur = []
        return Lst(out, "str")
    each("str_tokenize", lambda p: p.str_tokenize("a"), words, range(6) if th else range(5), "ASCII characters", ascii=True)
    def numbers(s, comma=False):
        """maximal digits[.digits] pieces, read from the left"""
        cs = [x for x in s.c if not (comma and br(ieq(x, 44)))]
        dg = [isin(x, [(48, 57)]) for x in cs]
        dot = [br(ieq(x, 46)) for x in cs]
        out, i = [], 0
        while i < len(cs):
            j = i
            while j < len(cs) and dg[j]:
                j += 1
            if j < len(cs) and dot[j] and j + 1 < len(cs) and dg[j + 1]:
                j += 1
                while j < len(cs) and dg[j]:
                    j += 1
            if j > i:
                out.append(StrV(cs[i:j]))
                i = j
            else:
                i += 1
        return out
    each("extract_numbers", lambda p: p.extract_numbers("a"), lambda s: Lst(numbers(s), "str"), range(6) if th else range(5), "ASCII characters", ascii=True)
    each("extract_numbers[ignore_comma]", lambda p: p.extract_numbers("a", ignore_comma=True), lambda s: Lst(numbers(s, True), "str"), range(5) if th else range(4), "ASCII characters", ascii=True)
    each("extract_numbers[join_by]", lambda p: p.extract_numbers("a", join_by="-"), lambda s: join([x.c for x in numbers(s)], [45]), range(5) if th else range(4), "ASCII characters", ascii=True)
    return obs
