"""Runs obligations on concrete inputs against the compiled extension of the working tree."""
import json, os, sys, signal
from . import repo
sys.path.insert(0, repo.HERE)

def one(ob, env):
    from . import ctx as C, term as T
    from .harness import H, ConcCtx, Mismatch, Skip
    T.reset_atoms()
    C.CTX = ConcCtx(env)
    def near():
        raise Skip()
    T.NEAR = near
    h = H("real", None, env)
    h.c = C.CTX
    try:
        ob.fn(h)
    except Mismatch as m:
        return dict(status="mismatch", label=m.label, detail=str(m)[:1500])
    except Skip:
        return dict(status="skip")
    except C.Infeasible:
        return dict(status="skip")
    except (C.Inconclusive, T.Unsupported, T.PathError, T.PathPanic) as e:
        return dict(status="undecided", detail=str(e)[:300])
    except Exception as e:
        import traceback
        return dict(status="error", detail=traceback.format_exc()[-1500:])
    return dict(status="ok")

def main():
    import importlib
    from . import models_std, models_polars
    for m in ("models_misc", "plstr", "models_np", "pyobj", "models_faer", "models_str", "models_rand", "models_schema"):
        if os.path.exists(os.path.join(repo.HERE, "symx", m + ".py")):
            importlib.import_module("symx." + m)
    from .runner import load_obs
    if sys.argv[1] == "--show":
        j = json.load(open(sys.argv[2]))
        jobs = [dict(k=0, name=j["obligation"], env=j["inputs"])]
        prop, tier = j["property"], j["tier"]
    else:
        prop, tier = sys.argv[1:3]
        jobs = json.load(sys.stdin)
    _, obs = load_obs(prop, tier)
    by = {o.name: o for o in obs}
    if sys.argv[1] == "--show" and by[jobs[0]["name"]].threads:
        os.environ["POLARS_MAX_THREADS"] = os.environ["RAYON_NUM_THREADS"] = str(by[jobs[0]["name"]].threads)
    out = os.fdopen(os.dup(1), "w")
    sys.stdout = sys.stderr
    for j in jobs:
        def al(*a):
            os._exit(9)
        signal.signal(signal.SIGALRM, al)
        signal.alarm(60)
        r = one(by[j["name"]], j["env"])
        if j.get("kind") == "candidate":
            # hash orders differ from evaluation to evaluation
            for _ in range(11):
                if r["status"] not in ("ok", "skip"):
                    break
                r = one(by[j["name"]], j["env"])
        signal.alarm(0)
        r["k"] = j["k"]
        out.write(json.dumps(r, default=str) + "\n")
        out.flush()

if __name__ == "__main__":
    main()
