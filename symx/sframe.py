"""Data frames handed to the package's own python code while it is executed symbolically: every frame operation evaluates
at once on symbolic columns; numbers read out of a frame are stand-ins that carry their symbolic value."""
import numpy as np
import polars as pl
from . import ctx as C, term as T, extract, plx, symnum
from .term import *
from .ctx import *
from .interp import StrV
from .plops import *
from .plops import PolarsError
from .symnum import SymF, SymI, wrap, val

# ------------------------------------------------------------------ series
class SSer(pl.Series):
    """a real series of stand-ins whose elements come back as symbolic numbers"""
    def __getitem__(self, i):
        if isinstance(i, int):
            return self._py[i]
        r = pl.Series.__getitem__(self, i)
        return r
    def __iter__(self):
        return iter(self._py)
    def to_list(self):
        return list(self._py)
    def item(self, i=0):
        return self._py[i]
    def to_numpy(self, **k):
        return np.array(self._py, dtype=object)
    def rename(self, name):
        return series(name, self._col.dt, self._col.vals)
    alias = rename

def _plain(x):
    """the stand-in itself, for polars"""
    if isinstance(x, SymF):
        return float.__float__(x)
    if isinstance(x, SymI):
        return int.__index__(x)
    if isinstance(x, pl.Series):
        return x
    return x

def series(name, dt, vals):
    if isinstance(dt, tuple) and dt[0] == "struct":
        py = [None if v is None else {n: wrap(x) for (n, _), x in zip(dt[1], v)} for v in vals]
        raw = [None if v is None else {k: _plain(x) for k, x in v.items()} for v in py]
        s = SSer(name, raw, dtype=_pldt(dt), strict=False)
    elif isinstance(dt, tuple):
        py = [wrap(v) for v in vals]
        s = SSer(name, [None if v is None else pl.Series("", [_plain(x) if not isinstance(x, dict) else {k: _plain(y) for k, y in x.items()} for x in v], dtype=_pldt(dt[1])) for v in py], dtype=pl.List(_pldt(dt[1])))
    else:
        py = [wrap(v) for v in vals]
        raw = [_plain(x) for x in py]
        s = SSer(name, raw, dtype=_pldt(dt), strict=False)
    s._py = py
    s._col = Col(name, dt, vals)
    return s

def _pldt(dt):
    from .harness import pl_dtype
    if isinstance(dt, tuple):
        return pl.List(_pldt(dt[1])) if dt[0] == "list" else pl.Struct({n: _pldt(d) for n, d in dt[1]})
    if dt in ("i8", "i16", "i32", "u8", "u16", "u32"):
        return pl.Int64              # room for stand-ins
    if dt == "cat":
        return pl.String
    return pl_dtype(pl, dt)

# ------------------------------------------------------------------ frames
def _exprs(args, kw):
    out = []
    def put(a):
        if isinstance(a, (list, tuple)) or hasattr(a, "__next__") or (hasattr(a, "__iter__") and not isinstance(a, (str, pl.Expr, pl.Series))):
            for x in a:
                put(x)
        elif isinstance(a, str):
            out.append(pl.col(a))
        elif isinstance(a, pl.Expr):
            out.append(a)
        elif isinstance(a, pl.Series):
            out.append(pl.lit(a).alias(a.name))
        else:
            out.append(pl.lit(_plain(a)))
    for a in args:
        put(a)
    for k, v in kw.items():
        out.append((v if isinstance(v, pl.Expr) else pl.col(v) if isinstance(v, str) else pl.lit(_plain(v))).alias(k))
    return [extract.ast(e) for e in out]

def _strs(x):
    if x is None:
        return None
    return [x] if isinstance(x, str) else list(x)

class _SF:
    def _make(self, fr):
        return mk(fr, isinstance(self, pl.LazyFrame))
    def __getattr__(self, k):
        raise AttributeError(k) if k.startswith("__") else Unsupported(f"frame.{k}")
    def lazy(self):
        return mk(self._fr, True)
    def collect(self, *a, **k):
        return mk(self._fr, False)
    def clone(self):
        return self
    def _ev(self):
        return symnum.CUR.ev(self._fr)
    def select(self, *a, **k):
        return self._make(self._ev().select(_exprs(a, k)))
    def with_columns(self, *a, **k):
        return self._make(self._ev().select(_exprs(a, k), keep=True))
    def filter(self, *a, **k):
        r = self
        for n in _exprs(a, k):
            r = self._make(symnum.CUR.ev(r._fr).filter(n))
        return r
    def drop_nulls(self, subset=None):
        cols = self._names(subset)
        idx = [i for i in range(self._fr.n) if all(self._fr.cols[c].vals[i] is not None for c in cols)]
        return self._make(self._fr.take(idx))
    def _names(self, x):
        if x is None:
            return list(self._fr.cols)
        if isinstance(x, pl.Expr) or isinstance(x, (list, tuple)) and any(isinstance(y, pl.Expr) for y in x):
            return list(self._ev().select(_exprs([x], {})).cols)
        r = _strs(x)
        for c in r:
            if c not in self._fr.cols:
                raise PolarsError(f"column {c} not found")
        return r
    def null_count(self):
        return self._make(plx.Frame({k: Col(k, "u32", [sum(v is None for v in c.vals)]) for k, c in self._fr.cols.items()}, 1))
    def drop(self, *a, strict=True):
        cols = self._names([x for y in a for x in (y if isinstance(y, (list, tuple)) else [y])])
        return self._make(plx.Frame({k: c for k, c in self._fr.cols.items() if k not in cols}, self._fr.n))
    def rename(self, m, strict=True):
        return self._make(plx.Frame({m.get(k, k): Col(m.get(k, k), c.dt, c.vals) for k, c in self._fr.cols.items()}, self._fr.n))
    def with_row_index(self, name="index", offset=0):
        d = {name: Col(name, "u32", list(range(offset, offset + self._fr.n)))}
        d.update(self._fr.cols)
        return self._make(plx.Frame(d, self._fr.n))
    def sort(self, by, *more, descending=False, nulls_last=False, multithreaded=True, maintain_order=False):
        nodes = _exprs([by, *more], {})
        ks = [c for c in self._ev().select(nodes).cols.values()]
        d = [descending] * len(ks) if isinstance(descending, bool) else list(descending)
        nl = [nulls_last] * len(ks) if isinstance(nulls_last, bool) else list(nulls_last)
        return self._make(self._fr.take(argsort_multi(ks, d, nl)))
    def slice(self, offset, length=None):
        n = self._fr.n
        o = offset if offset >= 0 else max(0, n + offset)
        e = n if length is None else min(n, o + length)
        return self._make(self._fr.take(list(range(min(o, n), e))))
    def head(self, n=5):
        return self.slice(0, n)
    limit = head
    def tail(self, n=5):
        return self.slice(max(0, self._fr.n - n))
    def collect_schema(self):
        from .harness import pl_dtype
        return pl.Schema({k: pl_dtype(pl, c.dt) for k, c in self._fr.cols.items()})
    @property
    def schema(self):
        return self.collect_schema()
    @property
    def columns(self):
        return list(self._fr.cols)
    @property
    def dtypes(self):
        return self.collect_schema().dtypes()
    @property
    def width(self):
        return len(self._fr.cols)
    def fill_nan(self, value):
        return self._make(plx.Frame({k: Col(k, c.dt, [None if v is None else (None if value is None else fl(value)) if c.dt in ("f64", "f32") and v is NAN else v for v in c.vals])
                                     for k, c in self._fr.cols.items()}, self._fr.n))
    def sum(self):
        return self.select(pl.all().sum())
    def join(self, other, on=None, how="inner", *, left_on=None, right_on=None, suffix="_right", **k):
        from .models_polars import join
        lk, rk = _strs(left_on or on), _strs(right_on or on)
        return self._make(join(self._fr, other._fr, lk, rk, how.capitalize(), suffix))
    def explode(self, cols, *more):
        names = self._names([cols, *more] if isinstance(cols, str) else list(cols) + list(more))
        out = {k: [] for k in self._fr.cols}
        n = 0
        for i in range(self._fr.n):
            ls = {c: self._fr.cols[c].vals[i] for c in names}
            ks = {1 if v is None else max(len(v.v), 1) for v in ls.values()}
            if len(ks) > 1:
                raise PolarsError("exploded columns must have matching element counts")
            m = ks.pop()
            n += m
            for k, c in self._fr.cols.items():
                out[k] += [c.vals[i]] * m if k not in ls else [None] if ls[k] is None or not ls[k].v else list(ls[k].v)
        return self._make(plx.Frame({k: Col(k, c.dt[1] if k in names else c.dt, out[k]) for k, c in self._fr.cols.items()}, n))
    def transpose(self, *, include_header=False, header_name="column", column_names=None):
        d = {}
        cols = list(self._fr.cols.values())
        if include_header:
            d[header_name] = Col(header_name, "str", [S_(k) for k in self._fr.cols])
        dts = {c.dt for c in cols}
        if len(dts) > 1:
            raise Unsupported("transpose of mixed types")
        for i in range(self._fr.n):
            nm = column_names[i] if column_names else f"column_{i}"
            d[nm] = Col(nm, cols[0].dt, [c.vals[i] for c in cols])
        return self._make(plx.Frame(d, len(cols)))
    def unnest(self, *cols):
        d = {}
        names = self._names([x for y in cols for x in (y if isinstance(y, (list, tuple)) else [y])])
        for k, c in self._fr.cols.items():
            if k in names:
                for n, _ in c.dt[1]:
                    if n in d:
                        raise PolarsError("duplicate " + n)
                    d[n] = c.field(n)
            else:
                d[k] = c
        return self._make(plx.Frame(d, self._fr.n))
    def group_by(self, *by, maintain_order=False, **k):
        return _GB(self, _exprs(by, k), maintain_order)
    def unique(self, subset=None, *, keep="any", maintain_order=False):
        cols = self._names(subset)
        g = groups([tuple(self._fr.cols[c].vals[i] for c in cols) for i in range(self._fr.n)])
        rows = [idx[0] for _, idx in g]
        return self._make(self._fr.take(rows if maintain_order else any_order(rows)))

class _GB:
    def __init__(self, f, keys, ordered=False):
        self.f, self.keys, self.ordered = f, keys, ordered
    def agg(self, *a, **k):
        return self.f._make(self.f._ev().group_by_agg(self.keys, _exprs(a, k), self.ordered))
    def len(self, name="len"):
        return self.agg(pl.len().alias(name))

class SLF(_SF, pl.LazyFrame):
    pass

class SDF(_SF, pl.DataFrame):
    @property
    def height(self):
        return self._fr.n
    @property
    def shape(self):
        return (self._fr.n, len(self._fr.cols))
    def __len__(self):
        return self._fr.n
    def is_empty(self):
        return self._fr.n == 0
    def _series(self, c):
        return series(c.name, c.dt, c.vals)
    def drop_in_place(self, name):
        s = self[name]
        self._fr = plx.Frame({k: c for k, c in self._fr.cols.items() if k != name}, self._fr.n)
        return s
    def get_columns(self):
        return [self._series(Col(k, c.dt, c.vals)) for k, c in self._fr.cols.items()]
    def to_series(self, i=0):
        return self.get_columns()[i]
    def get_column(self, n):
        return self[n]
    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self._fr.cols:
                raise PolarsError(f"column {k} not found")
            c = self._fr.cols[k]
            return series(k, c.dt, c.vals)
        raise Unsupported("frame[...]")
    def row(self, i, named=False):
        if i >= self._fr.n:
            raise IndexError("row out of bounds")
        d = {k: wrap(c.vals[i]) for k, c in self._fr.cols.items()}
        return d if named else tuple(d.values())
    def rows(self, named=False):
        return [self.row(i, named) for i in range(self._fr.n)]
    def iter_rows(self, named=False, **k):
        return iter(self.rows(named))
    def to_dicts(self):
        return self.rows(True)
    def item(self, r=None, c=None):
        if r is None:
            if self.shape != (1, 1):
                raise ValueError("can only call `.item()` if the dataframe is of shape (1, 1)")
            r = c = 0
        k = list(self._fr.cols)[c] if isinstance(c, int) else c
        return wrap(self._fr.cols[k].vals[r])
    def to_numpy(self, **k):
        a = np.empty((self._fr.n, len(self._fr.cols)), dtype=object, order="F")
        for j, c in enumerate(self._fr.cols.values()):
            for i, v in enumerate(c.vals):
                a[i, j] = NAN if v is None else fl(v)
        return a
    def sum_horizontal(self, ignore_nulls=True):
        return self.select(pl.sum_horizontal(pl.all())).to_series()
    def partition_by(self, by, *more, maintain_order=True, include_key=True, as_dict=False):
        names = self._names([by, *more] if isinstance(by, str) else by)
        g = groups([tuple(self._fr.cols[c].vals[i] for c in names) for i in range(self._fr.n)])
        fr = [(tuple(wrap(x) for x in key), self._make(self._fr.take(idx))) for key, idx in g]
        return dict(fr) if as_dict else [f for _, f in fr]

def S_(s):
    return StrV([ord(c) for c in s])

class PL:
    """stands for the polars module in package code that builds frames of its own"""
    def __getattr__(self, k):
        return getattr(pl, k)
    @staticmethod
    def select(*a, **k):
        return mk(plx.Frame({}, 0), False).select(*a, **k)
    @staticmethod
    def collect_all(fs):
        return [f.collect() for f in fs]
    @staticmethod
    def concat(fs, *, how="vertical", **k):
        fs = list(fs)
        if not fs:
            raise ValueError("cannot concat empty list")
        if how != "vertical":
            raise Unsupported("concat " + how)
        a = fs[0]._fr
        for f in fs[1:]:
            if list(f._fr.cols) != list(a.cols) or any(f._fr.cols[c].dt != a.cols[c].dt for c in a.cols):
                raise PolarsError("schemas do not match")
        return fs[0]._make(plx.Frame({c: Col(c, a.cols[c].dt, [v for f in fs for v in f._fr.cols[c].vals]) for c in a.cols}, sum(f._fr.n for f in fs)))
    @staticmethod
    def DataFrame(data=None, schema=None, **k):
        d = {}
        n = 0
        for c, xs in (data or {}).items():
            xs = [x if x is None or isinstance(x, (str, bool)) else val(x) for x in xs]
            nn = [x for x in xs if x is not None]
            if schema is not None:
                dt = plx.from_series(pl.Series("", [], dtype=schema[c])).dt
            elif all(isinstance(x, str) for x in nn) and nn:
                dt = "str"
            elif all(isinstance(x, bool) for x in nn) and nn:
                dt = "bool"
            elif all(isinstance(x, (int, SI)) and not isinstance(x, bool) for x in nn) and nn:
                dt = "i64"
            else:
                dt = "f64"
            if dt == "str":
                xs = [None if x is None else symnum.CUR.sub[x] if x in symnum.CUR.sub else S_(x) if isinstance(x, str) else x for x in xs]
            elif dt == "f64":
                xs = [None if x is None else fl(x) for x in xs]
            d[c] = Col(c, dt, xs)
            n = len(xs)
        return mk(plx.Frame(d, n), False)

def mk(fr, lazy=False):
    c = SLF if lazy else SDF
    o = c.__new__(c)
    o._fr = fr
    return o
