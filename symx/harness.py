"""What an obligation is written against.  The same obligation runs in two modes:
  sym   inputs are solver variables, the API expression is executed symbolically
  real  inputs are the numbers of a solver model, the expression runs on the compiled extension"""
import math
from fractions import Fraction
from . import ctx as C, term as T, extract
from .term import *
from .ctx import *
from .interp import StrV, Interp
from .plops import Col, Lst, PolarsError, FLOATS, INTS
from . import plx

class Skip(Exception):
    """this assignment is outside the obligation (real mode: assumption not met)"""

class Mismatch(Exception):
    def __init__(self, label, got, want):
        super().__init__(f"{label}: got {got!r}, want {want!r}")
        self.label, self.got, self.want = label, got, want

class _Err:
    def __repr__(self):
        return "<error>"
ERR = _Err()

class Param:
    """a numeric parameter of the API: .api is what the call receives, .v its value"""
    def __init__(self, api, v):
        self.api, self.v = api, v

class ConcCtx(Ctx):
    """all inputs are constants"""
    def __init__(self, env):
        super().__init__()
        self.cenv = env
    def real(self, name, lo=None, hi=None):
        v = self.cenv.get(name, 0.0)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Skip()
        return fl(v)
    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        v = int(self.cenv.get(name, lo))
        if not lo <= v <= hi:
            raise Skip()
        return v
    def bool(self, name):
        return bool(self.cenv.get(name, False))
    def branch(self, b):
        return beval(b, self.cenv) if isinstance(b, SBool) else bool(b)
    def assume(self, b, why=""):
        if not self.branch(b):
            raise Skip()
    def define(self, p):
        pass
    def choose(self, n, name):
        for i in range(n - 1):
            if self.cenv.get(f"{name}={i}", False):
                return i
        return n - 1
    def check(self, *a, **k):
        raise Inconclusive("solver query in real mode")
    def prove(self, b, label, got=None, want=None):
        if not self.branch(b):
            raise Mismatch(label, got, want)

def unwrap(x):
    """symbolic values of the python numbers in a result"""
    if isinstance(x, (list, tuple)):
        return type(x)(unwrap(y) for y in x)
    if isinstance(x, dict):
        return {k: unwrap(v) for k, v in x.items()}
    return x.p if isinstance(x, (int, float)) and hasattr(x, "p") else x

class Api:
    def __init__(self, pl, pds):
        self.pl, self.pds = pl, pds

def dt_text(d):
    if isinstance(d, tuple):
        if d[0] == "struct":
            return "{" + ", ".join(f"{n}: {dt_text(t)}" for n, t in d[1]) + "}"
        return f"list[{dt_text(d[1])}]"
    return str(d)

class H:
    def __init__(self, mode, prog=None, env=None):
        self.mode = mode
        self.prog = prog
        self.cenv = env
        self.c = C.CTX
        self.tol = 1e-6
        self.threads = 1
        self.ctx_parallel = False
        self.sub = {}
        self.pl, self.pds = extract.load(real=(mode == "real"))
        self._np = 0
        self.checks = 0
        self.log = []
        self.opts = {}

    # ---------------------------------------------------------------- inputs
    def real(self, name, lo=None, hi=None):
        return self.c.real(name, lo, hi)
    def reals(self, name, n, lo=None, hi=None):
        return [self.real(f"{name}{i}", lo, hi) for i in range(n)]
    def int(self, name, lo, hi):
        return self.c.int(name, lo, hi)
    def ints(self, name, n, lo, hi):
        return [self.int(f"{name}{i}", lo, hi) for i in range(n)]
    def bool(self, name):
        return self.c.bool(name)
    def bools(self, name, n):
        return [self.bool(f"{name}{i}") for i in range(n)]
    def choose(self, n, name):
        return self.c.choose(n, name)
    def pick(self, xs, name):
        return xs[self.c.choose(len(xs), name)]
    def flag(self, name):
        return self.c.branch(self.c.bool(name))
    def opt(self, v, name):
        """v or null"""
        return None if self.flag(name + ".null") else v
    def opts_(self, vs, name):
        return [self.opt(v, f"{name}{i}") for i, v in enumerate(vs)]
    def special(self, name, v, which=("nan", "inf", "-inf")):
        """v, or one of the special values"""
        i = self.choose(len(which) + 1, name + ".sp")
        return v if i == len(which) else {"nan": NAN, "inf": PINF, "-inf": NINF}[which[i]]
    def str(self, name, maxlen, minlen=0, lo=1, hi=0x10FFFF, ascii=False):
        n = minlen + self.choose(maxlen - minlen + 1, name + ".len")
        cs = []
        for i in range(n):
            x = self.int(f"{name}.c{i}", lo, 127 if ascii else hi)
            if not ascii and hi > 0xD7FF:
                self.c.assume(bnot(band(ile(0xD800, x), ile(x, 0xDFFF))))
            cs.append(x)
        return StrV(cs)
    def param(self, name, lo, hi, api=None, integer=False, strict=False):
        """a symbolic API parameter; `api` is a concrete stand-in within range that the python code sees"""
        if integer:
            v = self.int(name, lo, hi)
        else:
            v = self.real(name, lo, hi)
            if strict:
                self.c.assume(band(flt(fl(lo), v) if lo is not None else True, flt(v, fl(hi)) if hi is not None else True))
        if self.mode == "real":
            return Param(int(v) if integer else float(v.cval()), v)
        self._np += 1
        if api is None:
            if integer:
                raise Unsupported("integer parameter needs a stand-in")
            a, b = (lo if lo is not None else (hi - 1 if hi is not None else 0)), hi
            b = b if b is not None else a + 1
            api = float(a) + (float(b) - float(a)) * (0.318309886 + 0.0123456789 * self._np % 0.5)
        self.sub[api] = v
        if not integer:     # python comparisons and arithmetic on it are symbolic
            from . import symnum
            symnum.CUR = self
            api = symnum.SymF(v)
        return Param(api, v)
    def iparam(self, name, lo, hi):
        """a symbolic whole number the python code itself compares and computes with"""
        v = self.int(name, lo, hi)
        if self.mode == "real":
            return Param(int(v), v)
        from . import symnum
        symnum.CUR = self
        return Param(symnum.SymI(v), v)
    def strparam(self, s):
        """a symbolic string passed as a python argument"""
        if self.mode == "real":
            return to_py(s)
        self._np += 1
        k = f"\u0001symstr{self._np}"
        self.sub[k] = s
        return k
    def assume(self, b, why=""):
        self.c.assume(b, why)
    def br(self, b):
        return self.c.branch(b)

    # ---------------------------------------------------------------- frames
    def frame(self, **cols):
        """cols: name=(dt, values[, chunk lengths])"""
        out = {}
        for k, v in cols.items():
            out[k] = Col(k, v[0], list(v[1]), ch=list(v[2]) if len(v) > 2 and v[2] else None)
        return plx.Frame(out)

    # ---------------------------------------------------------------- python classes of the package
    def array(self, rows, order="C"):
        """a numpy array of the given numbers"""
        import numpy as np
        def shape(x):
            return ((len(x),) + (shape(x[0]) if x else (0,))) if isinstance(x, (list, tuple)) else ()
        sh = shape(rows)
        a = np.empty(sh, dtype=object if self.mode == "sym" else float, order=order)
        for ix in np.ndindex(sh):
            v = rows
            for i in ix:
                v = v[i]
            a[ix] = v if self.mode == "sym" else to_py(v)
        return a
    def spatial(self):
        self._pyobj()
        import polars_ds.spatial as m
        return m
    def models(self):
        self._pyobj()
        import polars_ds.linear_models as m
        import numpy
        if self.mode == "sym":
            from .models_np import NumpyProxy
            m.np = NumpyProxy()
        else:
            m.np = numpy
        return m
    def floats(self, xs):
        """python floats for values the python code computes with"""
        if self.mode == "real":
            return [to_py(x) for x in xs]
        from . import symnum
        symnum.CUR = self
        return [symnum.wrap(x) for x in xs]
    def _pyobj(self):
        if self.mode == "sym":
            from . import pyobj, symnum
            pyobj.CUR = symnum.CUR = self

    def compat(self, fn, name, may_error=False):
        """fn(compat) -> the series a compatibility call returns: (name, values)"""
        import importlib, warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m = importlib.import_module("polars_ds.compat._compat")
        import polars
        if self.mode == "sym":
            from . import sframe, symnum
            symnum.CUR = self
            m.pl = sframe.PL()
        else:
            m.pl = polars
        try:
            r = self.call(lambda: fn(m.compat), may_error)
        finally:
            m.pl = polars
        if r is ERR:
            return None, ERR
        if not isinstance(r, polars.Series):
            self.true(False, "a series is returned")
        if self.mode == "sym":
            if not hasattr(r, "_col"):
                raise Unsupported("series of unknown content")
            return r.name, r._col.vals
        c = from_df(polars.DataFrame({"v": r})).cols["v"]
        return r.name, c.vals
    def column(self, dt, vals, how, name="c"):
        """one column handed over as a polars Series, a numpy array or a series of another library"""
        import polars, numpy as np
        if self.mode == "sym":
            from . import sframe, symnum
            symnum.CUR = self
            s = sframe.series(name, dt, vals)
        else:
            s = to_df(self.pl, plx.Frame({name: Col(name, dt, list(vals))}))[name]
        if how == "series":
            return s
        a = polars.Series.to_numpy(s)
        if how == "array":
            return a
        class Other:
            def __array__(self, *x, **k):
                return a
        return Other()

    # ---------------------------------------------------------------- frames for the package's own python code
    def df(self, frame, lazy=False):
        if self.mode == "real":
            d = to_df(self.pl, frame)
            return d.lazy() if lazy else d
        from . import sframe, symnum
        symnum.CUR = self
        return sframe.mk(frame, lazy)
    def back(self, d):
        """the columns of a frame the python code returned"""
        if self.mode == "real":
            return from_df(d.lazy().collect())
        return d._fr

    def interp(self):
        it = Interp(self.prog, threads=self.threads, fuel=self.opts.get("fuel", 2000000))
        it.opts["ctx_parallel"] = self.ctx_parallel
        it.opts.update(self.opts)
        return it

    def ev(self, frame):
        return plx.Ev(frame, self.interp(), self.sub, extract.lit)

    def run(self, frame, fn, may_error=False, raw=False, how="select"):
        """evaluate the expression(s) fn(pds, pl) on the frame; returns the value list of the single output
        column, or {name: values} for several"""
        try:
            if self.mode == "sym":
                es = fn(self.pds, self.pl)
                es = list(es) if isinstance(es, (list, tuple)) else [es]
                ev = self.ev(frame)
                nodes = [extract.ast(e) for e in es]
                if how == "select":
                    r = ev.select(nodes)
                elif how == "filter":
                    r = ev.filter(nodes[0])
                else:
                    r = ev.select(nodes, keep=True)
            else:
                es = fn(self.pds, self.pl)
                es = list(es) if isinstance(es, (list, tuple)) else [es]
                df = to_df(self.pl, frame)
                if how == "select":
                    r = df.select(es)
                elif how == "filter":
                    r = df.filter(es[0])
                else:
                    r = df.with_columns(es)
                r = from_df(r)
        except (Mismatch, Skip, Violation, Inconclusive, Infeasible, Unsupported):
            raise
        except (PathError, PathPanic) as e:
            return self._err(e, may_error)
        except Exception as e:
            if self.mode == "sym" and not api_error(e):
                raise
            return self._err(e, may_error)
        except BaseException as e:   # pyo3 PanicException
            if type(e).__name__ == "PanicException":
                return self._err(e, may_error)
            raise
        if raw:
            return r
        if how != "select" or isinstance(es, list) and len(r.cols) > 1:
            return {k: c.vals for k, c in r.cols.items()}
        return next(iter(r.cols.values())).vals

    def schema(self, frame, fn):
        """the type every native function of the expression declares at planning time is the type of what it returns"""
        if self.mode == "sym":
            self.opts["schema"] = log = []
            r = self.run(frame, fn, may_error=True, raw=True)
            self.opts["schema"] = None
            for sym, d, g in log:
                self.true(dt_text(d) == dt_text(g), f"declared type of {sym}: {dt_text(d)}, returned {dt_text(g)}")
            if r is ERR and not log:
                raise Infeasible()
            return log
        from polars.exceptions import PolarsError
        df = to_df(self.pl, frame)
        es = fn(self.pds, self.pl)
        es = list(es) if isinstance(es, (list, tuple)) else [es]
        es = [e.alias(f"o{i}") for i, e in enumerate(es)]
        try:
            got = df.select(es).schema
        except BaseException as e:
            if isinstance(e, PolarsError) or type(e).__name__ == "PanicException":
                raise Skip()
            raise
        want = df.lazy().select(es).collect_schema()
        self.true(want == got, f"declared schema {want}, result {got}")

    def grouped(self, frame, cut, fn, keep=True, over=True, order=True):
        """the expression evaluated per group is the expression evaluated on the rows of each group alone; the
        first `cut` rows are one group, the others another"""
        n = frame.n
        f0 = fn
        def fn(pds, pl):
            es = f0(pds, pl)
            return [e.alias(f"o{i}") for i, e in enumerate(es if isinstance(es, (list, tuple)) else [es])]
        parts = [list(range(cut)), list(range(cut, n))]
        g = plx.Frame(dict(frame.cols, _g=Col("_g", "i64", [0] * cut + [1] * (n - cut))))
        if self.mode == "sym":
            self.opts["lengths"] = log = []
            if not order:
                C.CTX.orders = None
            m = len(fn(self.pds, self.pl))
            alone = [[self.run(frame.take(ix), lambda pds, pl: fn(pds, pl)[j], may_error=True, raw=True) for j in range(m)] for ix in parts]
            self.opts["lengths"] = None
            if any(x is ERR for r in alone for x in r):
                raise Infeasible()
            if keep:
                for sym, fl_, ni, no in log:
                    if "RETURNS_SCALAR" in fl_:
                        self.true(no == 1, f"{sym} returns one value")
                    elif "CHANGES_LENGTH" not in fl_:
                        self.true(no == ni, f"{sym} returns a value per row")
            nodes = [extract.ast(e) for e in fn(self.pds, self.pl)]
            self.opts["ctx_parallel"] = True
            try:
                agg = self.ev(g).group_by_agg([extract.ast(self.pl.col("_g"))], nodes, True)
            except (PathError, PathPanic) as e:
                return self.true(False, f"evaluated per group: {e}")
            except Exception as e:
                if not api_error(e):
                    raise
                return self.true(False, f"evaluated per group: {e}")
            finally:
                self.opts["ctx_parallel"] = False
            got = {k: c for k, c in agg.cols.items() if k != "_g"}
            for i, r in enumerate(alone):
                for k, c in [x for q in r for x in q.cols.items()]:
                    v = got[k].vals[i]
                    if c.scalar:
                        self.eq(v, c.vals[0], f"{k} of group {i}")
                    else:
                        self.eq(list(v.v) if isinstance(v, Lst) else [v], c.vals, f"{k} of group {i}")
            return
        from polars.exceptions import PolarsError
        df = to_df(self.pl, g)
        es = fn(self.pds, self.pl)
        try:
            alone = [{f"o{j}": df.filter(self.pl.col("_g") == i).select(e).to_series() for j, e in enumerate(es)} for i in (0, 1)]
        except BaseException as e:
            if isinstance(e, PolarsError) or type(e).__name__ == "PanicException":
                raise Skip()
            raise
        try:
            agg = df.group_by("_g", maintain_order=True).agg(es)
            win = df.with_columns(e.over("_g").alias(f"_o{i}") for i, e in enumerate(es)) if keep and over else None
        except BaseException as e:
            if isinstance(e, PolarsError) or type(e).__name__ == "PanicException":
                return self.true(False, f"evaluated per group: {str(e)[:80]}")
            raise
        def cmp(got, want, label):
            if not order:
                def srt(x):
                    return sorted((srt(y) for y in x), key=repr) if isinstance(x, list) else x
                got, want = srt(got), srt(want)
            close(got, want, label, self.tol, self.cenv)
        for i, r in enumerate(alone):
            for j, k in enumerate(r):
                a = r[k].to_list()
                b = agg[k].to_list()[i]
                scalar = agg.schema[k] == r[k].dtype
                cmp([b] if scalar else b, a, f"{k} of group {i}")
                if win is not None:
                    o = win.filter(self.pl.col("_g") == i)[f"_o{j}"].to_list()
                    cmp(o, a * len(o) if len(a) == 1 else a, f"{k} over group {i}")

    def call(self, fn, may_error=False):
        """run python code of the package (models, transforms ...) under the same error policy"""
        try:
            return fn()
        except (Mismatch, Skip, Violation, Inconclusive, Infeasible, Unsupported):
            raise
        except (PathError, PathPanic) as e:
            return self._err(e, may_error)
        except Exception as e:
            if self.mode == "sym" and not api_error(e) and type(e).__name__ != "RustErr":
                raise
            return self._err(e, may_error)
        except BaseException as e:
            if type(e).__name__ == "PanicException":
                return self._err(e, may_error)
            raise

    def _err(self, e, may_error):
        self.last_error = e
        if may_error:
            return ERR
        self.checks += 1
        self.c.prove(False, f"raises {type(e).__name__}: {str(e)[:200]}", got=f"{type(e).__name__}: {str(e)[:300]}", want="a value")
        raise Infeasible()

    # ---------------------------------------------------------------- checks
    def eq(self, got, want, label="value", tol=None):
        self.checks += 1
        if self.mode == "sym":
            return self.c.prove_eq(unwrap(got), unwrap(want), label)
        close(got, want, label, tol or self.tol, self.cenv)

    def true(self, b, label="holds"):
        self.checks += 1
        self.c.prove(b, label)

    def le(self, a, b, label="ordered", tol=None):
        """a <= b (with rounding slack in real mode)"""
        self.checks += 1
        if self.mode == "sym":
            return self.c.prove(fle(a, b), label, a, b)
        x, y = veval(a, self.cenv), veval(b, self.cenv)
        if not (x <= y + (tol or self.tol) * max(1.0, abs(x), abs(y))):
            raise Mismatch(label, x, y)

    def zero(self, p, label="zero", scale=1.0, tol=None):
        """p == 0; in real mode relative to scale"""
        self.checks += 1
        if self.mode == "sym":
            if isinstance(p, FSpec):
                return self.c.prove(False, label, p, 0)
            return self.c.prove_poly0(p, label, p, T.ZERO)
        x = veval(p, self.cenv)
        s = veval(scale, self.cenv) if not isinstance(scale, (int, float)) else scale
        if not abs(x) <= (tol or self.tol) * max(1.0, abs(s)):
            raise Mismatch(label, x, 0.0)

def api_error(e):
    """is e an exception the package (or polars) raised, rather than a bug of the machinery?"""
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    return last is not None and ("polars_ds" in last or "/polars/" in last)

# -------------------------------------------------------------------- numbers <-> polars
def to_py(v, env=None):
    v2 = v
    if v2 is None or isinstance(v2, (bool, int, float, str)):
        return v2
    if isinstance(v2, Poly):
        return peval(v2, env or {}) if not v2.is_const() else float(v2.cval())
    if isinstance(v2, FSpec):
        return float(v2.k)
    if isinstance(v2, SI):
        return int(round(peval(v2.p, env or {})))
    if isinstance(v2, SBool):
        return beval(v2, env or {})
    if isinstance(v2, StrV):
        return "".join(chr(c if isinstance(c, int) else int(round(peval(c.p, env or {})))) for c in v2.c)
    if isinstance(v2, Lst):
        return [to_py(x, env) for x in v2.v]
    if isinstance(v2, (list, tuple)):
        return [to_py(x, env) for x in v2]
    if isinstance(v2, dict):
        return {k: to_py(x, env) for k, x in v2.items()}
    if isinstance(v2, plx.CutLabel):
        return repr(v2)
    raise Unsupported(f"to_py {type(v)}")

def pl_dtype(pl, dt):
    if isinstance(dt, tuple):
        if dt[0] == "list":
            return pl.List(pl_dtype(pl, dt[1]))
        return pl.Struct({n: pl_dtype(pl, d) for n, d in dt[1]})
    if dt == "cat":
        return pl.Categorical
    return getattr(pl, plx.TD[dt])

def to_df(pl, frame):
    out = []
    for k, c in frame.cols.items():
        dt = pl_dtype(pl, c.dt)
        def cell(v, d):
            if isinstance(d, tuple) and d[0] == "struct" and v is not None:
                return {n: cell(x, dd) for (n, dd), x in zip(d[1], v)}
            return to_py(v)
        vals = [cell(v, c.dt) for v in c.vals]
        if c.ch and len(c.ch) > 1:
            o, s = 0, None
            for n in c.ch:
                p = pl.Series(k, vals[o:o + n], dtype=dt, strict=False)
                s = p if s is None else s.append(p)
                o += n
        else:
            s = pl.Series(k, vals, dtype=dt, strict=False)
            if c.dt in INTS and None in vals and any(v is not None for v in vals):
                s = pl.Series(k, (s - 7).to_list(), dtype=dt) + 7      # the value slots of nulls now hold 7 (models_polars.STALE)
        out.append(s)
    return pl.DataFrame(out)

def from_df(df):
    return plx.Frame({s.name: plx.from_series(s) for s in df.get_columns()}, df.height)

def close(got, want, label, tol, env=None):
    env = env or {}
    g, w = (x if isinstance(x, (Lst, list, tuple, dict)) else to_py(x, env) for x in (got, want))
    if isinstance(g, Lst):
        g = g.v
    if isinstance(w, Lst):
        w = w.v
    if isinstance(w, dict):
        if not isinstance(g, dict):
            raise Mismatch(label, to_py(g, env), to_py(w, env))
        for k, x in w.items():
            if k not in g:
                raise Mismatch(f"{label}.{k}", to_py(g, env), to_py(w, env))
            close(g[k], x, f"{label}.{k}", tol, env)
        return
    if isinstance(w, (list, tuple)) or isinstance(g, (list, tuple)):
        if not (isinstance(w, (list, tuple)) and isinstance(g, (list, tuple))) or len(g) != len(w):
            raise Mismatch(label, to_py(g, env), to_py(w, env))
        for i, (a, b) in enumerate(zip(g, w)):
            close(a, b, f"{label}[{i}]", tol, env)
        return
    if g is None or w is None:
        if g is not w:
            raise Mismatch(label, g, w)
        return
    if isinstance(w, str) or isinstance(g, str) or isinstance(g, bool) and isinstance(w, bool):
        if g != w:
            raise Mismatch(label, g, w)
        return
    g, w = float(g), float(w)
    if math.isnan(g) or math.isnan(w):
        if math.isnan(g) != math.isnan(w):
            raise Mismatch(label, g, w)
        return
    if math.isinf(g) or math.isinf(w):
        if g != w:
            raise Mismatch(label, g, w)
        return
    if abs(g - w) > tol * max(1.0, abs(g), abs(w)):
        raise Mismatch(label, g, w)
