"""Explores obligations on all cores, replays candidates and witnesses on the compiled extension, writes evidence."""
import importlib, json, multiprocessing as mp, os, random, re, signal, subprocess, sys, threading, time, traceback, hashlib
from . import repo
HERE = repo.HERE
PROG = None
OBS = None
SLICE = 12.0

class Ob:
    """one obligation: fn(h) sets up inputs, runs the code, proves"""
    def __init__(self, name, fn, bounds="", paths=400, secs=None, hard=False, threads=None):
        self.name, self.fn, self.bounds, self.paths, self.secs, self.hard, self.threads = name, fn, bounds, paths, secs, hard, threads

def load_obs(prop, tier):
    m = importlib.import_module("checks." + prop.lower())
    obs = m.obligations(tier)
    names = [o.name for o in obs]
    dup = {n for n in names if names.count(n) > 1}
    assert not dup, dup
    return m, obs

# ------------------------------------------------------------------ symbolic worker
def load_program():
    global PROG
    from . import interp, models_std, models_polars
    for m in ("models_misc", "plstr", "models_np", "pyobj", "models_faer", "models_str", "models_rand", "models_schema"):
        if os.path.exists(os.path.join(HERE, "symx", m + ".py")):
            importlib.import_module("symx." + m)
    PROG = interp.Program(repo.mir_text(), repo.REPO)

def model_env(c, m):
    e = c.env(m)
    return {k: (v if isinstance(v, (int, bool)) else float(v)) for k, v in e.items()}

def witness(c, rnd=None):
    """a model of the current path, preferring distinct non-zero inputs"""
    import z3
    vs = [p.z3() for p in c.vars.values() if p.z3().sort() == z3.RealSort()]
    gen = []
    if rnd is not None and vs:
        for v in vs:
            a = rnd.randint(-8, 8)
            gen.append(z3.And(v >= a - 2, v <= a + 2, v != 0))
    ints = [p.z3() for p in c.vars.values() if p.z3().sort() == z3.IntSort()]
    for extra in ([gen] if gen else []) + [[]]:
        c.deadline = time.time() + 10
        try:
            r, m = c.nice_model(*extra)
        except Exception:
            r, m = None, None
        if m is not None:
            return model_env(c, m)
    return None

def work(task):
    """(obligation index, list of prefixes, seconds) -> result"""
    oi, prefixes, secs, seed, maxpaths, wleft = task
    from . import ctx as C, term as T
    from .harness import H, Skip
    ob = OBS[oi]
    st = C.STATS
    base = (st.queries, st.sat, st.unsat, st.unknown, st.time, st.proved)
    res = dict(oi=oi, paths=0, infeasible=0, checks=0, decisions=0, viol=[], undecided=[], wit=[], left=[], err=None, vac=0, fns=[], stubs=[], assumes=[], t=0.0)
    t0 = time.time()
    rnd = random.Random(seed * 1000003 + oi * 97 + len(prefixes))
    work = list(prefixes)
    signal.signal(signal.SIGALRM, _alarm)
    while work:
        if res["paths"] + res["infeasible"] >= maxpaths or (time.time() - t0 > min(secs, SLICE) and (res["paths"] or res["infeasible"])):
            break
        pre = work.pop()
        T.reset_atoms()
        c = C.Ctx(pre)
        c.deadline = time.time() + secs
        C.CTX = c
        h = None
        status = "ok"
        signal.alarm(int(secs) + 20)
        try:
            h = H("sym", PROG)
            ob.fn(h)
        except C.Violation as v:
            status = "violation"
            try:
                env = model_env(c, v.model)
            except Exception:
                env = None
            res["viol"].append(dict(label=v.label, env=env, got=_rep(v.got), want=_rep(v.want), prefix=[d[0] for d in c.decs]))
        except C.Infeasible:
            status = "infeasible"
        except Skip:
            status = "infeasible"
        except (C.Inconclusive, T.Unsupported, T.PathPanic, T.PathError) as e:
            status = "undecided"
            res["undecided"].append(f"{type(e).__name__}: {str(e)[:300]}")
        except TimeoutError:
            status = "undecided"
            res["undecided"].append("time limit of one path")
        except RecursionError:
            status = "undecided"
            res["undecided"].append("recursion limit")
        except Exception as e:
            status = "undecided"
            tb = traceback.extract_tb(e.__traceback__)[-1]
            res["undecided"].append(f"engine {type(e).__name__}: {str(e)[:200]} at {os.path.basename(tb.filename)}:{tb.lineno}")
            if os.environ.get("SYMX_DEBUG"):
                traceback.print_exc()
        finally:
            signal.alarm(0)
        for i in range(len(pre), len(c.decs)):
            if c.decs[i][1]:
                work.append([d[0] for d in c.decs[:i]] + [not c.decs[i][0]])
        res["decisions"] += len(c.decs) - len(pre)
        if status == "infeasible":
            if h is None or not h.checks:
                res["infeasible"] += 1
            else:
                res["paths"] += 1
                res["checks"] += h.checks
        else:
            res["paths"] += 1
            if h is not None:
                res["checks"] += h.checks
            if status == "ok" and h is not None and not h.checks:
                res["vac"] += 1
            want = wleft > 0 and (status == "undecided" or res["paths"] == 1 or rnd.random() < 0.15)
            if want and status != "violation":
                signal.alarm(15)
                try:
                    w = witness(c, rnd)
                except Exception:
                    w = None
                finally:
                    signal.alarm(0)
                if w is not None:
                    res["wit"].append((w, status))
                    wleft -= 1
        if len(res["viol"]) >= 3:
            work = []
    C.CTX = None
    res["left"] = work
    res["stats"] = [a - b for a, b in zip((st.queries, st.sat, st.unsat, st.unknown, st.time, st.proved), base)]
    res["fns"] = sorted(st.fns)
    res["stubs"] = sorted(st.stubs)
    res["assumes"] = sorted(st.assumes)
    res["t"] = time.time() - t0
    return res

def _alarm(*a):
    raise TimeoutError()

def _rep(v):
    try:
        return repr(v)[:400]
    except Exception:
        return "?"

def _child(inq, outq):
    sys.setrecursionlimit(20000)
    while True:
        t = inq.get()
        if t is None:
            return
        try:
            outq.put((os.getpid(), t[0], work(t)))
        except BaseException as e:
            outq.put((os.getpid(), t[0], dict(oi=t[0], fatal=f"{type(e).__name__}: {e}")))

# ------------------------------------------------------------------ replay
def replay_jobs(prop, tier, jobs, timeout=120):
    """jobs: list of {oi,name,env,threads}; returns a list of {status: ok|mismatch|skip|crash, ...}"""
    if not jobs:
        return []
    out = [None] * len(jobs)
    n = min(6, max(1, len(jobs) // 6 + 1))
    chunks = []
    for t in sorted({j.get("threads") or 0 for j in jobs}):
        js = [i for i, j in enumerate(jobs) if (j.get("threads") or 0) == t]
        chunks += [js[i::n] for i in range(n)]
    sem = threading.Semaphore(6)
    def spawn(idx):
        t = jobs[idx[0]].get("threads")
        p = subprocess.Popen([sys.executable, "-m", "symx.replay", prop, tier], cwd=HERE, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                             env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", RAYON_NUM_THREADS=str(t or 4), **({"POLARS_MAX_THREADS": str(t)} if t else {})))
        p.stdin.write(json.dumps([dict(jobs[i], k=i) for i in idx]))
        p.stdin.close()
        return p
    def runchunk(idx):
        with sem:
            run1(idx)
    def run1(idx):
        todo = list(idx)
        while todo:
            p = spawn(todo)
            killer = threading.Timer(timeout, p.kill)
            killer.start()
            done = set()
            for line in p.stdout:
                try:
                    r = json.loads(line)
                    out[r["k"]] = r
                    done.add(r["k"])
                except Exception:
                    pass
            p.wait()
            killer.cancel()
            rest = [i for i in todo if i not in done]
            if rest:
                out[rest[0]] = dict(k=rest[0], status="crash", detail=f"replay process ended with {p.returncode}")
                rest = rest[1:]
            todo = rest
    ths = [threading.Thread(target=runchunk, args=(c,)) for c in chunks if c]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    return out

# ------------------------------------------------------------------ main
def known_findings(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))["findings"] if f["property"] == prop and f.get("status") == "known"]

def main(prop, tier, only=None):
    global OBS
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    budget = float(os.environ.get("SYMX_BUDGET", "0")) or (100 if tier == "quick" else 600)
    import threading
    so = {}
    sys.path.insert(0, HERE)
    from . import extract
    try:
        load_program()
        extract.load(False)
    except Exception as e:
        print("cannot build:", e)
        return finish_build_error(prop, tier, seed, t0, e)
    def build():
        try:
            so["path"] = repo.package(True)
        except Exception as e:
            so["err"] = str(e)
    bt = threading.Thread(target=build)
    mod, obs = load_obs(prop, tier)
    if only:
        obs = [o for o in obs if re.search(only, o.name)]
    OBS = obs
    import random as _r
    nproc = int(os.environ.get("SYMX_PROCS", "8"))
    ctxm = mp.get_context("fork")
    inq, outq = ctxm.Queue(), ctxm.Queue()
    procs = [ctxm.Process(target=_child, args=(inq, outq), daemon=True) for _ in range(min(nproc, max(1, 8)))]
    for p in procs:
        p.start()
    mut = os.environ.get("SYMX_MUT")   # development aid: stop at the first candidate, without building or replaying
    if not mut:
        bt.start()
    tstart = time.time()
    agg = {i: dict(paths=0, infeasible=0, checks=0, decisions=0, viol=[], undecided=[], wit=[], left=0, t=0.0, vac=0, capped=False) for i in range(len(obs))}
    tot = [0, 0, 0, 0, 0.0, 0]
    fns, stubs, assumes = set(), set(), set()
    pend = 0
    W = 2 if tier == "quick" else 4
    share = {}
    for i, o in enumerate(obs):
        secs = o.secs or (20 if tier == "quick" else 120)
        share[i] = secs
    queue = [(i, [[]]) for i in range(len(obs))]
    # hard obligations first
    queue.sort(key=lambda q: not obs[q[0]].hard)
    inflight = 0
    maxp = {i: o.paths if tier == "quick" else o.paths * 10 for i, o in enumerate(obs)}
    fatal = []
    def submit():
        nonlocal inflight
        while queue and inflight < nproc + 2:
            i, pres = queue.pop(0)
            a = agg[i]
            if time.time() - tstart > budget and a["paths"]:
                a["left"] += len(pres)
                continue
            if time.time() - tstart > budget * 1.5:
                a["left"] += len(pres)
                continue
            if a["paths"] >= maxp[i] or a["viol"]:
                a["left"] += len(pres)
                a["capped"] = True
                continue
            inq.put((i, pres, share[i], seed, max(1, maxp[i] - a["paths"]), W - len(a["wit"])))
            inflight += 1
    submit()
    while inflight:
        try:
            pid, oi, r = outq.get(timeout=5)
        except Exception:
            if any(not p.is_alive() for p in procs):
                dead = [p for p in procs if not p.is_alive()]
                for d in dead:
                    procs.remove(d)
                    fatal.append(f"a worker ended (exit {d.exitcode})")
                    inflight -= 1
                    q = ctxm.Process(target=_child, args=(inq, outq), daemon=True)
                    q.start()
                    procs.append(q)
            if time.time() - tstart > budget * 2 + 200:
                fatal.append("workers did not finish in time")
                break
            continue
        inflight -= 1
        a = agg[oi]
        if "fatal" in r:
            a["undecided"].append(r["fatal"])
            submit()
            continue
        for k in ("paths", "infeasible", "checks", "decisions", "t", "vac"):
            a[k] += r[k]
        a["viol"] += r["viol"]
        if mut and r["viol"]:
            v = r["viol"][0]
            print(f"CANDIDATE {obs[oi].name}: {v['label']} got {str(v['got'])[:120]} want {str(v['want'])[:120]}")
            for p in procs:
                p.kill()
            os._exit(3 if sys.stdout.flush() is None else 3)
        a["undecided"] += r["undecided"]
        a["wit"] += r["wit"]
        for j in range(6):
            tot[j] += r["stats"][j]
        fns.update(r["fns"])
        stubs.update(r["stubs"])
        assumes.update(r["assumes"])
        left = r["left"]
        if left:
            if len(r["viol"]):
                a["left"] += len(left)
            else:
                n = max(1, min(len(left), 4))
                for j in range(n):
                    queue.append((oi, left[j::n]))
        submit()
    for p in procs:
        inq.put(None)
    for p in procs:
        p.join(0.2)
        if p.is_alive():
            p.kill()
    tsym = time.time() - tstart
    if mut:
        u = {obs[i].name: sorted(set(a["undecided"]))[:2] for i, a in agg.items() if a["undecided"]}
        print(f"SURVIVED {prop} undecided {len(u)} partial {sum(1 for a in agg.values() if a['left'])} vacuous {sum(1 for a in agg.values() if not a['checks'])} {str(u)[:300]} ({tsym:.0f}s)")
        sys.stdout.flush()
        os._exit(0)
    bt.join()
    # ---------------------------------------------------------------- replay
    jobs = []
    for i, a in agg.items():
        for v in a["viol"]:
            if v["env"] is not None:
                jobs.append(dict(oi=i, threads=obs[i].threads, name=obs[i].name, env=v["env"], kind="candidate", label=v["label"], got=v["got"], want=v["want"]))
        for w, s in a["wit"][:W + 4]:
            jobs.append(dict(oi=i, threads=obs[i].threads, name=obs[i].name, env=w, kind="witness", label=s))
    violations, unconfirmed, mism, okw, crash = [], [], [], 0, 0
    if "err" in so:
        print("cannot build the extension:", so["err"][-500:])
        results = [None] * len(jobs)
    else:
        results = replay_jobs(prop, tier, jobs)
    for j, r in zip(jobs, results):
        if r is None:
            continue
        j["replay"] = r
        if r["status"] in ("mismatch", "crash"):
            violations.append(j)
        elif j["kind"] == "candidate":
            unconfirmed.append(j)
        elif r["status"] == "ok":
            okw += 1
    kf = known_findings(prop)
    real, known = [], {}
    for v in violations:
        hit = None
        for f in kf:
            if re.fullmatch(f["obligation"], v["name"]) and re.search(f.get("label", ""), v["replay"].get("label") or v["label"] or ""):
                hit = f
                break
        if hit:
            known.setdefault(hit["id"], (hit, v))
        else:
            real.append(v)
    # known findings: always state them (re-checked by their own replay)
    for f in kf:
        if f["id"] in known:
            print(f"KNOWN-FINDING: property={prop} {f['what']}")
    und = {obs[i].name: sorted(set(a["undecided"]))[:4] for i, a in agg.items() if a["undecided"]}
    part = [obs[i].name for i, a in agg.items() if a["left"]]
    vac = [obs[i].name for i, a in agg.items() if not a["checks"] and not a["undecided"]]
    decided = [i for i, a in agg.items() if a["checks"] and not a["undecided"] and not a["left"] and not a["viol"]]
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=sum(a["paths"] for a in agg.values()), transitions=sum(a["decisions"] for a in agg.values()),
                            traces_validated_against_impl=okw,
                            samples=[dict(obligation=j["name"], inputs=j["env"], kind=j["kind"], result=(j.get("replay") or {}).get("status")) for j in jobs[:6]] or ["no witness"],
                            obligations=len(obs), obligations_decided_within_bounds=len(decided),
                            obligation_bounds={o.name: o.bounds for o in obs if o.bounds},
                            partially_explored=part, undecided=und, vacuous=vac,
                            assertions=sum(a["checks"] for a in agg.values()), infeasible_paths=sum(a["infeasible"] for a in agg.values()),
                            queries=tot[0], sat=tot[1], unsat=tot[2], unknown=tot[3], solver_seconds=round(tot[4], 2), discharged=tot[5],
                            functions_encoded=sorted(fns), library_models_used=sorted(stubs)[:400],
                            candidates_not_reproduced=[dict(obligation=j["name"], label=j["label"], got=j.get("got"), want=j.get("want"), inputs=j["env"]) for j in unconfirmed][:20],
                            known_findings_seen=[f["id"] for f, _ in known.values()], machinery=fatal),
              assumptions=sorted(assumes) + list(getattr(mod, "ASSUMPTIONS", [])) + COMMON,
              wall_s=round(time.time() - t0, 2), violations=len(real))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not only:
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    cov = ev["coverage"]
    print(f"{prop} {tier}: {len(obs)} obligations, {len(decided)} decided, {cov['states']} paths, {cov['assertions']} assertions, {tot[0]} queries "
          f"({tot[2]} unsat, {tot[1]} sat, {tot[3]} unknown, {tot[4]:.1f}s solver), {okw} witnesses replayed, symbolic {tsym:.0f}s, wall {time.time()-t0:.0f}s")
    if part:
        print(f"  partially explored: {len(part)}: {', '.join(part[:12])}")
    for n, u in list(und.items())[:200 if os.environ.get('SYMX_V') else 12]:
        print(f"  undecided {n}: {u[0]}")
    if vac:
        print("  vacuous:", vac[:20])
    for j in unconfirmed[:20 if os.environ.get('SYMX_V') else 5]:
        print(f"  candidate not reproduced on the real build: {j['name']} {j['label']} got {j.get('got')} want {j.get('want')} env {str(j['env'])[:300]} -> {str(j.get('replay'))[:300]}")
    if os.environ.get("SYMX_V"):
        slow = sorted(agg.items(), key=lambda x: -x[1]["t"])[:12]
        for i, a in slow:
            print(f"  time {a['t']:.1f}s paths {a['paths']} left {a['left']}: {obs[i].name}")
        for f in fatal:
            print("  machinery:", f)
    if real:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        seen = set()
        print("  violated:", sorted({v["name"] for v in real}))
        for v in real:
            key = v["name"].split("/")[0]
            if key in seen or len(seen) >= 8:
                continue
            seen.add(key)
            fn = re.sub(r"[^A-Za-z0-9_.-]", "_", f"{prop}-{v['name']}")[:100] + ".json"
            p = os.path.join(HERE, "replays", fn)
            with open(p, "w") as f:
                json.dump(dict(property=prop, tier=tier, obligation=v["name"], inputs=v["env"], engine=dict(label=v["label"], got=v.get("got"), want=v.get("want")),
                               real=v["replay"], how=f"cd {HERE} && python3-vt -m symx.replay --show {p}"), f, indent=1, default=str)
            print(f"  {v['name']}: {v['replay'].get('detail', '')[:400]} ({v['kind']})")
            print(f"VIOLATION property={prop} replay={p}")
        return 1
    return 0

def finish_build_error(prop, tier, seed, t0, e):
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=dict(states=0, transitions=0, traces_validated_against_impl=0, samples=["build failed"], error=str(e)[-1500:]),
              assumptions=[], wall_s=round(time.time() - t0, 2), violations=0)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    return 2

COMMON = [
    "64-bit floats are modelled as exact real numbers plus NaN and the infinities: rounding, overflow and signed zero are outside the claim",
    "transcendental functions (ln, exp, trigonometry, distribution functions) are uninterpreted with the stated axioms",
    "polars' own kernels, rayon, faer, rapidfuzz and the other dependencies are replaced by models of their documented behaviour; each replayed witness cross-checks them",
    "rayon work runs sequentially in the model, for every modelled number of workers",
]

if __name__ == "__main__":
    a = sys.argv[1:]
    sys.exit(main(a[0], a[1] if len(a) > 1 else "quick", a[2] if len(a) > 2 else None))
