from .strs import *

def obligations(tier):
    th = tier == "thorough"
    obs = []
    def near(h, metric, n, L, lw, thr, ch=None):
        ws = h.opts_([h.str(f"w{i}", L, max(L - 1, 0)) for i in range(n)], "w")
        q = h.str("q", lw, lw)
        f = h.frame(a=("str", ws, ch))
        lit = h.strparam(q)
        got = h.run(f, lambda pds, pl: pds.str_nearest("a", lit, threshold=thr, metric=metric))
        ds = []
        for w in ws:
            d = None
            if w is not None:
                d = {"lv": lev, "hamming": hamming}[metric](*canon(w, q))
            ds.append(d if d is not None and d <= thr else None)
        ok = [d for d in ds if d is not None]
        h.eq(len(got), 1, "one value")
        g = got[0]
        if not ok:
            h.eq([g], [None], "nothing within the threshold")
            return
        best = [w for w, d in zip(ws, ds) if d == min(ok)]
        if g is None:
            h.eq([g], [best[0]], "nearest")
        if len(best) == 1:
            h.eq([g], best, "nearest")
        else:
            # some entry at the least distance
            h.true(any(len(w.c) == len(g.c) and all(br(ieq(x, y)) for x, y in zip(w.c, g.c)) for w in best), "an entry of least distance")
    for metric in ("lv", "hamming"):
        for n, L, lw in ((1, 2, 2), (2, 2, 2), (2, 2, 1), (3, 1, 1), (2, 1, 2)) + (((3, 2, 1), (2, 3, 2), (3, 1, 2)) if th else ()):
            for thr in (1, 2, 100):
                obs.append(Ob(f"str_nearest[{metric}, threshold={thr}]/{n} entries of up to {L}, word of {lw}", lambda h, m=metric, n=n, L=L, lw=lw, thr=thr: near(h, m, n, L, lw, thr), f"every vocabulary of {n} strings of {L - 1} or {L} characters or null, every word of {lw} characters", paths=9000))
        for thr in (1, 100):
            obs.append(Ob(f"str_nearest[{metric}, threshold={thr}]/chunks", lambda h, m=metric, thr=thr: near(h, m, 3, 1, 1, thr, [1, 2]), "3 entries of up to 1 character in 2 chunks", paths=9000))
    SIM = {"lv": nsim(lev), "dlv": nsim(dlev), "osa": nsim(osa), "jw": lambda a, b: jw(a, b, fl(0.1))}
    def vocab(h, metric, strat, n, L):
        ws = [h.str("w", L, max(L - 1, 0)), S("ab")][:n]
        t = h.param("t", 0, 1)
        x = h.str("x", L, L)
        f = h.frame(a=("str", [x, S("ba")]))
        vs = [h.strparam(w) for w in ws]
        got = h.run(f, lambda pds, pl: pds.similar_to_vocab("a", vs, t.api, metric=metric, strategy=strat))
        w = []
        for y in (x, S("ba")):
            ss = [SIM[metric](*canon(y, v)) for v in ws]
            if strat == "avg":
                # the average of doubles: not decided at the threshold itself
                m = fdiv(fsum_(ss), K(len(ss)))
                w.append(le(t.v, m))
            else:
                w.append({"all": all, "any": any}[strat]([le(t.v, s) for s in ss]))
        h.eq(got, w)
    for metric in SIM:
        for strat in ("avg", "all", "any"):
            for n, L in ((1, 2), (2, 2)) + (((2, 3),) if th else ()):
                obs.append(Ob(f"similar_to_vocab[{metric}, {strat}]/{n} words of {L}", lambda h, m=metric, s=strat, n=n, L=L: vocab(h, m, s, n, L), f"every word and entry of up to {L} characters, every threshold", paths=9000))
    def nullrows(h, metric, strat):
        x = h.str("x", 2, 1)
        f = h.frame(a=("str", [None, x, None]))
        got = h.run(f, lambda pds, pl: pds.similar_to_vocab("a", ["ab", "cd"], 0.5, metric=metric, strategy=strat))
        h.eq([got[0], got[2]], [None, None], "null rows")
        h.eq([got[1]], [{"all": all, "any": any}[strat](le(fl(0.5), SIM[metric](*canon(x, S(v)))) for v in ("ab", "cd"))])
    for metric in SIM:
        for strat in ("all", "any"):
            obs.append(Ob(f"similar_to_vocab[{metric}, {strat}]/nulls", lambda h, m=metric, s=strat: nullrows(h, m, s), "a null row, an arbitrary string, a null row", paths=9000))
    return obs
