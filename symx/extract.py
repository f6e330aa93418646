"""Imports the working tree's python package (stand-in extension module) and turns expressions into JSON."""
import json, os, sys, types
from . import repo

_LOADED = {}

def load(real=False):
    """(pl, pds) of the working tree; real: with the compiled extension (replay processes only)"""
    if _LOADED:
        return _LOADED["pl"], _LOADED["pds"]
    sys.dont_write_bytecode = True
    os.environ.setdefault("POLARS_MAX_THREADS", "4" if real else "1")
    repo.add_site()
    path = repo.package(real)
    sys.path.insert(0, path)
    import warnings
    warnings.filterwarnings("ignore")
    import polars as pl
    if not real:
        m = types.ModuleType("polars_ds._polars_ds")
        def __getattr__(name):
            if name.startswith("__"):
                raise AttributeError(name)
            from . import pyobj
            return pyobj.get(name)
        m.__getattr__ = __getattr__
        sys.modules["polars_ds._polars_ds"] = m
        patch(pl)
    import polars_ds as pds
    _LOADED.update(pl=pl, pds=pds, path=path)
    return pl, pds

def _marker(pl, expr, name, *more, **kw):
    from polars.plugins import register_plugin_function
    return register_plugin_function(plugin_path=os.path.join(_LOADED.get("path", sys.path[0]), "polars_ds"), args=[expr, *more], function_name="@" + name, kwargs=kw or None,
                                    is_elementwise=False)

def patch(pl):
    """nodes polars holds as opaque functions become marker nodes the evaluator interprets"""
    E = pl.Expr
    E.rechunk = lambda self: _marker(pl, self, "rechunk")
    E.append = lambda self, other, *, upcast=True: _marker(pl, self, "append", other if isinstance(other, pl.Expr) else pl.lit(other))
    E.product = lambda self: _marker(pl, self, "product")
    E.arg_max = lambda self: _marker(pl, self, "arg_max")
    E.arg_min = lambda self: _marker(pl, self, "arg_min")
    E.arg_sort = lambda self, *, descending=False, nulls_last=False: _marker(pl, self, "arg_sort", descending=descending, nulls_last=nulls_last)
    L = type(pl.col("a").list)
    L.eval = lambda self, expr, parallel=False: _marker(pl, pl.Expr._from_pyexpr(self._pyexpr), "listeval", node=ast(expr))
    N = type(pl.col("a").name)
    N.suffix = lambda self, s: _marker(pl, pl.Expr._from_pyexpr(self._pyexpr) if hasattr(self, "_pyexpr") else self._expr, "suffix", s=s)
    N.prefix = lambda self, s: _marker(pl, pl.Expr._from_pyexpr(self._pyexpr) if hasattr(self, "_pyexpr") else self._expr, "prefix", s=s)

    ufunc = E.__array_ufunc__
    def au(self, f, method, *inputs, **kw):
        if f.__name__ in ("log2", "log10", "log", "exp") and method == "__call__" and len(inputs) == 1 and not kw:
            return {"log2": lambda: self.log(2), "log10": lambda: self.log(10), "log": self.log, "exp": self.exp}[f.__name__]()
        return ufunc(self, f, method, *inputs, **kw)
    E.__array_ufunc__ = au

    for k, m in (("lower", "to_lowercase"), ("upper", "to_uppercase")):
        setattr(N, m, lambda self, k=k: _marker(pl, pl.Expr._from_pyexpr(self._pyexpr) if hasattr(self, "_pyexpr") else self._expr, k))

def ast(e):
    return json.loads(e.meta.serialize(format="json"))

def lit(node):
    """value of a literal node holding a binary series"""
    import polars as pl, io
    e = pl.Expr.deserialize(io.StringIO(json.dumps(node)), format="json")
    s = pl.select(e).to_series()
    return s, False
