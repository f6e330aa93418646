from .common import *
from .b06 import STOP

ASSUMPTIONS = ["words of lower-case ASCII letters (and apostrophes); words that read as a number (also inf, nan, infinity) are outside, except that digits give the empty string",
               "the stemmer of the documentation is the English (Porter2) stemmer of Snowball 2.2"]

STEP2 = {"tional": "tion", "enci": "ence", "anci": "ance", "abli": "able", "entli": "ent", "izer": "ize", "ization": "ize", "ational": "ate", "ation": "ate", "ator": "ate",
         "alism": "al", "aliti": "al", "alli": "al", "fulness": "ful", "ousli": "ous", "ousness": "ous", "iveness": "ive", "iviti": "ive", "biliti": "ble", "bli": "ble",
         "ogi": "og", "fulli": "ful", "lessli": "less", "li": ""}
STEP3 = {"tional": "tion", "ational": "ate", "alize": "al", "icate": "ic", "iciti": "ic", "ical": "ic", "ful": "", "ness": "", "ative": ""}
STEP4 = ["al", "ance", "ence", "er", "ic", "able", "ible", "ant", "ement", "ment", "ent", "ism", "ate", "iti", "ous", "ive", "ize", "ion"]
WHOLE = {"skis": "ski", "skies": "sky", "dying": "die", "lying": "lie", "tying": "tie", "idly": "idl", "gently": "gentl", "ugly": "ugli", "early": "earli", "only": "onli", "singly": "singl"}
for _w in ("sky", "news", "howe", "atlas", "cosmos", "bias", "andes"):
    WHOLE[_w] = _w
AFTER1A = ("inning", "outing", "canning", "herring", "earring", "proceed", "exceed", "succeed")

def stem(w):
    """Porter2 on code points (symbolic or not); Y marks are kept beside the letters"""
    w = list(w)
    def is_(c, *ls):
        return br(bor(False, *[ieq(c, ord(l)) for l in ls]))
    def whole(s):
        return len(w) == len(s) and br(band(True, *[ieq(c, ord(x)) for c, x in zip(w, s)]))
    for k, v in WHOLE.items():
        if whole(k):
            return [ord(x) for x in v]
    if len(w) < 3:
        return w
    if is_(w[0], "'"):
        w = w[1:]
    Y = [False] * len(w)
    def vowel(i):
        if Y[i]:
            return False
        return is_(w[i], *"aeiouy")
    for i in range(len(w)):
        if is_(w[i], "y") and (i == 0 or vowel(i - 1)):
            Y[i] = True
    def region(start):
        i = start
        while i < len(w) and not vowel(i):
            i += 1
        while i < len(w) and vowel(i):
            i += 1
        return min(i + 1, len(w))
    p1 = None
    for s in ("gener", "commun", "arsen"):
        if len(w) >= len(s) and br(band(True, *[ieq(c, ord(x)) for c, x in zip(w, s)])):
            p1 = len(s)
    if p1 is None:
        p1 = region(0)
    p2 = region(p1)
    def ends(s):
        n = len(s)
        # a marked y is not the letter y
        return n <= len(w) and not any(Y[len(w) - n + i] for i in range(n)) and br(band(True, *[ieq(w[len(w) - n + i], ord(x)) for i, x in enumerate(s)]))
    def longest(ss):
        for s in sorted(ss, key=len, reverse=True):
            if ends(s):
                return s
        return None
    def cut(n, add=""):
        if n:
            del w[len(w) - n:], Y[len(Y) - n:]
        w.extend(ord(x) for x in add)
        Y.extend([False] * len(add))
    def r1(s):
        return len(w) - len(s) >= p1
    def r2(s):
        return len(w) - len(s) >= p2
    def short(n):
        """the first n letters end in a short syllable"""
        if n >= 3 and vowel(n - 2) and not vowel(n - 3) and not vowel(n - 1) and not Y[n - 1] and not is_(w[n - 1], "w", "x"):
            return True
        return n == 2 and vowel(0) and not vowel(1)
    # step 0, 1a
    s = longest(("'", "'s", "'s'"))
    if s:
        cut(len(s))
    s = longest(("sses", "ied", "ies", "s", "us", "ss"))
    if s == "sses":
        cut(2)
    elif s in ("ied", "ies"):
        cut(3, "i" if len(w) > 4 else "ie")
    elif s == "s" and any(vowel(i) for i in range(len(w) - 2)):
        cut(1)
    done = False
    for s in AFTER1A:
        if whole(s):
            done = True
    if not done:
        # 1b
        s = longest(("eed", "eedly", "ed", "edly", "ing", "ingly"))
        if s in ("eed", "eedly"):
            if r1(s):
                cut(len(s), "ee")
        elif s and any(vowel(i) for i in range(len(w) - len(s))):
            cut(len(s))
            if longest(("at", "bl", "iz")):
                cut(0, "e")
            elif longest(("bb", "dd", "ff", "gg", "mm", "nn", "pp", "rr", "tt")):
                cut(1)
            elif len(w) == p1 and short(len(w)):
                cut(0, "e")
        # 1c
        n = len(w)
        if n > 2 and is_(w[n - 1], "y") and not vowel(n - 2):
            cut(1, "i")
        s = longest(STEP2)
        if s and r1(s):
            b = len(w) - len(s)
            if s == "ogi":
                if b > 0 and is_(w[b - 1], "l"):
                    cut(1)
            elif s == "li":
                if b > 0 and is_(w[b - 1], *"cdeghkmnrt"):
                    cut(2)
            else:
                cut(len(s), STEP2[s])
        s = longest(STEP3)
        if s and r1(s) and (s != "ative" or r2(s)):
            cut(len(s), STEP3[s])
        s = longest(STEP4)
        if s and r2(s):
            if s != "ion" or len(w) > 3 and is_(w[len(w) - 4], "s", "t"):
                cut(len(s))
        n = len(w)
        if n and not Y[n - 1] and is_(w[n - 1], "e"):
            if n - 1 >= p2 or n - 1 >= p1 and not short(n - 1):
                cut(1)
        elif n > 1 and is_(w[n - 1], "l") and n - 1 >= p2 and is_(w[n - 2], "l"):
            cut(1)
    return w

def obligations(tier):
    th = tier == "thorough"
    obs = []
    def letters(h, n, nm="c"):
        return [h.int(f"{nm}{i}", 97, 122) for i in range(n)]
    def one(h, parts, stop=False):
        """parts: numbers of free letters and fixed pieces"""
        if h.mode == "sym":
            C.CTX.finmap = True
        w = []
        for j, p in enumerate(parts):
            w += letters(h, p, f"c{j}_") if isinstance(p, int) else [ord(x) for x in p]
        for x in ("inf", "nan", "infinity"):
            if len(w) == len(x) and br(band(True, *[ieq(c, ord(y)) for c, y in zip(w, x)])):
                return
        got = h.run(h.frame(a=("str", [StrV(list(w)), None])), lambda pds, pl: pds.exprs.string.str_snowball("a", no_stopwords=stop))
        h.eq(got, [StrV(stem(w)), None], "stem")
    def add(*parts, **k):
        name = "".join("_" * p if isinstance(p, int) else p for p in parts)
        obs.append(Ob(f"stem/{name}", lambda h: one(h, parts), f"{len(name)} letters, {name.count('_')} of them any of a-z", paths=k.get("paths", 4000), secs=k.get("secs", 60)))
    for n in (1, 2) + ((3,) if th else ()):
        add(n, paths=20000, secs=120)
    for p in ((1, "a", 1), (2, "b"), ("y", 2), ("a", 2), (1, "yy"), ("b", 1, "y", 1), ("ski", 1), ("s", 1, "y"), ("atla", 1), ("inn", 1, "ng"), ("succee", 1), ("arse", 1, "s"), ("gener", 1, "l"), ("commun", 1, "e"), (1, "enerate")):
        add(*p)
    for s in ("sses", "ied", "ies", "s", "us", "ss", "eed", "eedly", "ed", "edly", "ing", "ingly", "y"):
        add(2, s)
    for s in ("ed", "ing"):
        for m in ("at", "bl", "iz", "bb", "ll", "ss", "tt", "x", "w"):
            add(1, "o" if m not in ("at", "iz") else "r", m, s)
    for s in sorted(set(list(STEP2) + list(STEP3) + STEP4 + ["e", "l", "ll"])):
        add(1, s)
        add("ba", 1, s)
        add("mat", 1, "t" if s[0] in "aeiouy" else "a", s)
    if th:
        for s in sorted(set(list(STEP2) + list(STEP3) + STEP4 + ["e", "l", "ll"])):
            add(2, s)
            add("r", 1, "v", 1, s)
    for s in ("'", "'s", "'s'", "'s's"):
        add("d", 1, "n", s)
    add("'", 2)
    # ---------------------------------------------------------------- stop words and numbers
    def stops(h, parts):
        if h.mode == "sym":
            C.CTX.finmap = True
        w = []
        for j, p in enumerate(parts):
            w += letters(h, p, f"c{j}_") if isinstance(p, int) else [ord(x) for x in p]
        for x in ("inf", "nan"):
            if len(w) == 3 and br(band(True, *[ieq(c, ord(y)) for c, y in zip(w, x)])):
                return
        stop = any(len(k) == len(w) and br(band(True, *[ieq(c, ord(y)) for c, y in zip(w, k)])) for k in sorted(STOP))
        got = h.run(h.frame(a=("str", [StrV(list(w)), StrV("12"), StrV("-1.5")])), lambda pds, pl: pds.exprs.string.str_snowball("a"))
        h.eq(got, [StrV([] if stop else stem(w)), StrV(""), StrV("")], "stem")
    for p in ((1,), (2,), ("th", 1), (1, "ot"), ("o", 1, "r"), ("her", 1), ("wh", 1, "ch"), ("becaus", 1), ("y", 1, "ur"), ("wo", 1, "dn't")):
        name = "".join("_" * x if isinstance(x, int) else x for x in p)
        obs.append(Ob(f"stop words and numbers/{name}", lambda h, p=p: stops(h, p), f"{name}: _ any of a-z", paths=4000))
    def tokens(h, texts):
        if h.mode == "sym":
            C.CTX.finmap = True
        rows, want = [], []
        for i, (ps) in enumerate(texts):
            t, ws, cur = [], [], []
            for j, p in enumerate(ps):
                t += letters(h, p, f"r{i}_{j}_") if isinstance(p, int) else [ord(x) for x in p]
            for c in t + [32]:
                if isinstance(c, int) and chr(c) in " ,.":
                    if len(cur) > 1:
                        ws.append(cur)
                    cur = []
                else:
                    cur = cur + [c]
            out = []
            for w in ws:
                if any(len(k) == len(w) and br(band(True, *[ieq(c, ord(y)) for c, y in zip(w, k)])) for k in sorted(STOP)) or all(isinstance(c, int) and 48 <= c <= 57 for c in w):
                    continue
                s = stem(w)
                if not any(len(o) == len(s) and br(band(True, *[ieq(a, b) for a, b in zip(o, s)])) for o in out):
                    out.append(s)
            rows.append(StrV(t))
            want.append(Lst([StrV(x) for x in out], "str"))
        got = h.run(h.frame(a=("str", rows)), lambda pds, pl: pds.exprs.string.str_tokenize("a", stem=True))
        h.eq(got, want, "tokens")
    for nm, ts in (("equal stems", [("car", 1, " care, cars")]), ("stop words", [("the c", 1, "ts"), ("we are",)]), ("numbers", [("12 dogs ", 1, "og a 7",)]), ("empty", [("",), ("a",), (" running r", 1, "n")])):
        obs.append(Ob(f"str_tokenize with stems/{nm}", lambda h, t=ts: tokens(h, t), "fixed texts with one letter any of a-z", paths=4000))
    return obs
