"""Models of the polars / arrow API the crate calls."""
from . import ctx as C, term as T, mir
from .term import *
from .ctx import *
from .interp import *
from .interp import CTX_branch
from . import models_std as S
from .models_std import ListIt, into_it, self_it, items, COLLECT, CONV, truth, It, STOP
from . import plops
from .plops import Col, Lst, PolarsError
from . import plx

RT = {"Float64Type": "f64", "Float32Type": "f32", "Int8Type": "i8", "Int16Type": "i16", "Int32Type": "i32", "Int64Type": "i64", "Int128Type": "i128",
      "UInt8Type": "u8", "UInt16Type": "u16", "UInt32Type": "u32", "UInt64Type": "u64", "BooleanType": "bool", "StringType": "str", "ListType": ("list", "?"),
      "f64": "f64", "f32": "f32", "u32": "u32", "i32": "i32", "u64": "u64", "i64": "i64", "bool": "bool", "str": "str", "u8": "u8", "i8": "i8", "u16": "u16", "i16": "i16",
      "Float64Chunked": "f64", "Float32Chunked": "f32", "UInt32Chunked": "u32", "BooleanChunked": "bool", "StringChunked": "str", "ListChunked": ("list", "?"),
      "usize": "u64", "String": "str", "i128": "i128"}
VARDT = {"Boolean": "bool", "String": "str", "Float64": "f64", "Float32": "f32", "Null": "null", "Int8": "i8", "Int16": "i16", "Int32": "i32", "Int64": "i64",
         "Int128": "i128", "UInt8": "u8", "UInt16": "u16", "UInt32": "u32", "UInt64": "u64"}
DTVAR = {v: k for k, v in VARDT.items()}
# order of the variants of polars' DataType enum (as compiled into the crate)
DT_ORDER = ["Boolean", "UInt8", "UInt16", "UInt32", "UInt64", "Int8", "Int16", "Int32", "Int64", "Int128", "Float32", "Float64", "String", "Binary",
            "BinaryOffset", "Date", "Datetime", "Duration", "Time", "Array", "List", "Null", "Struct", "Unknown"]

def rt(ty, env=None):
    """column type for a Rust type / polars physical type"""
    if ty is None:
        return None
    ty = ty.strip()
    if env and ty in env:
        ty = env[ty]
    b = mir.base_name(ty)
    if env and b in env:
        b = mir.base_name(env[b])
    if b == "ChunkedArray":
        inner = ty[ty.index("<") + 1:ty.rindex(">")]
        return rt(inner, env)
    if b in RT:
        return RT[b]
    if b in ("N", "T"):
        return "f64"
    if "::Native" in ty:
        return "f64"
    return None

def dt_value(dt):
    if isinstance(dt, tuple):
        if dt[0] == "list":
            return EnumV("DataType", "List", [BoxV(dt_value(dt[1]))])
        return EnumV("DataType", "Struct", [VecV([StructV("Field", [StrV(n), dt_value(d)]) for n, d in dt[1]])])
    return EnumV("DataType", DTVAR[dt], [])

def dt_from(v):
    v = deref(v)
    if v.var in ("List", "Array"):      # a fixed-size list column has the cells of a list column
        return ("list", dt_from(v.f[0]))
    if v.var in VARDT:
        return VARDT[v.var]
    raise Unsupported(f"data type {v}")

def rec_dt(path, env):
    """element type of a ChunkedArray receiver from a callee path"""
    cand = []
    if path.qself:
        cand.append(path.qself)
    for s, g in path.segs:
        if s.startswith("<impl "):
            cand.append(s[6:-1].split(" for ")[-1])
        for x in g or []:
            cand.append(x)
    for x in cand:
        r = rt(x, env)
        if r is not None:
            return r
    return None

def res(v):
    return Ok(v)

def perr(msg="polars error"):
    return Err(EnumV("PolarsError", "ComputeError", [StrV(msg)]))

def guard(f):
    """polars functions returning PolarsResult"""
    try:
        return Ok(f())
    except PolarsError as e:
        return perr(str(e))

def col(v):
    v = deref(v)
    if isinstance(v, EnumV) and v.name == "Column":
        return deref(v.f[0])
    if isinstance(v, EnumV) and v.name == "Cow":
        return col(v.f[0])
    if not isinstance(v, Col):
        raise Unsupported(f"column expected, got {type(v).__name__}")
    return v

def optv(v, dt=None):
    return None_() if v is None else Some(native(v))

def native(v):
    if isinstance(v, Lst):
        return Col("", v.dt, list(v.v))
    return v

def unnative(v):
    v = deref(v)
    if isinstance(v, Col):
        return Lst(list(v.vals), v.dt)
    if isinstance(v, StrV):
        return StrV(list(v.c))
    return v

def from_opt(o):
    o = deref(o)
    if isinstance(o, EnumV) and o.name == "Option":
        return None if o.var == "None" else unnative(o.f[0])
    return unnative(o)

def undef():
    c = C.CTX
    c.nundef = getattr(c, "nundef", 0) + 1
    return c.real(f"undef{c.nundef}")

STALE = 7       # what the value slot of a null integer holds (harness.to_df builds columns that way)

def nonull(v, dt="f64"):
    if v is None:
        return undef() if dt in ("f64", "f32") else STALE if dt in plops.INTS else False if dt == "bool" else StrV("")
    return native(v)

class ArrV:
    """an arrow array: one chunk"""
    byref = True

    def __init__(self, dt, vals):
        self.dt = dt
        self.vals = vals

    def clone_sym(self):
        return ArrV(self.dt, list(self.vals))

    def iter_sym(self, by_ref):
        return ListIt([None_() if v is None else Some(native(v)) for v in self.vals])

def col_iter(self, by_ref):
    return ListIt([None_() if v is None else Some(native(v)) for v in self.vals])
Col.iter_sym = col_iter

def index_col(self, it, k):
    raise Unsupported("index of a column")

# ------------------------------------------------------------------ downcasts
for _m in ("f64", "f32", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "i128", "bool", "str", "list", "struct_"):
    def _mk(m):
        def f(it, a, c):
            s = col(a[0])
            d = s.dt[0] if isinstance(s.dt, tuple) else s.dt
            want = "struct" if m == "struct_" else m
            if d != want:
                return Err(EnumV("PolarsError", "SchemaMismatch", [StrV(f"invalid series dtype: expected `{m}`, got `{s.dt}`")]))
            return Ok(Ref([s], 0))
        return f
    MODELS[f"Series::{_m}"] = _mk(_m)
    MODELS[f"Column::{_m}"] = _mk(_m)

@model("SeriesTrait::unpack")
def _(it, a, c):
    return Ok(Ref([col(a[0])], 0))

@model("ChunkedArray::len", "SeriesTrait::len", "Series::len", "Column::len", "Array::len", "PrimitiveArray::len", "Buffer::len")
def _(it, a, c):
    v = deref(a[0])
    if isinstance(v, (VecV, SliceV)):
        return len(items(v))
    if isinstance(v, ArrV):
        return len(v.vals)
    return len(col(v).vals)

@model("SeriesTrait::is_empty", "ChunkedArray::is_empty", "Series::is_empty", "Column::is_empty")
def _(it, a, c):
    return len(col(a[0]).vals) == 0

@model("ChunkedArray::get", "PrimitiveArray::get")
def _(it, a, c):
    v = col(a[0])
    k = iconc(a[1], max(64, len(v.vals) + 1))
    if not 0 <= k < len(v.vals):
        return None_()
    return optv(v.vals[k])

@model("ChunkedArray::get_unchecked", "ChunkedArray::value_unchecked")
def _(it, a, c):
    v = col(a[0])
    return optv(v.vals[iconc(a[1])])

@model("ChunkedArray::name", "SeriesTrait::name", "Series::name", "Column::name")
def _(it, a, c):
    return Ref([StrV(col(a[0]).name)], 0)

@model("ChunkedArray::with_name", "Series::with_name", "Column::with_name")
def _(it, a, c):
    v = col(a[0])
    return Col(deref(a[1]).concrete(), v.dt, v.vals, False, v.ch)

@model("ChunkedArray::rename", "Series::rename", "Column::rename")
def _(it, a, c):
    v = col(a[0])
    v.name = deref(a[1]).concrete()
    return a[0]

def ch_slice(v, off, n):
    L = len(v.vals)
    if off < 0:
        off = max(0, L + off)
    off = min(off, L)
    n = min(n, L - off)
    ch = []
    pos = 0
    for k in v.chunks:
        lo, hi = max(pos, off), min(pos + k, off + n)
        if hi > lo:
            ch.append(hi - lo)
        pos += k
    if not ch:
        ch = [0]
    return Col(v.name, v.dt, v.vals[off:off + n], False, ch if len(ch) > 1 else None)

@model("ChunkedArray::slice", "Series::slice", "SeriesTrait::slice", "Column::slice")
def _(it, a, c):
    return ch_slice(col(a[0]), iconc(a[1], 4096), iconc(a[2], 4096))

@model("SeriesTrait::head", "ChunkedArray::head", "Series::head")
def _(it, a, c):
    o = deref(a[1])
    return ch_slice(col(a[0]), 0, 10 if o.var == "None" else iconc(o.f[0]))

@model("ChunkedArray::rechunk", "Series::rechunk", "SeriesTrait::rechunk")
def _(it, a, c):
    v = col(a[0])
    if c.key.startswith("ChunkedArray"):
        return EnumV("Cow", "Owned", [Col(v.name, v.dt, list(v.vals))]) if c.dty and "Cow" in c.dty else Col(v.name, v.dt, list(v.vals))
    return Col(v.name, v.dt, list(v.vals))

@model("ChunkedArray::cont_slice")
def _(it, a, c):
    v = col(a[0])
    if len(v.chunks) != 1 or v.nulls():
        return perr("chunked array is not contiguous")
    return Ok(SliceV(list(v.vals)))

@model("ChunkedArray::into_no_null_iter", "IntoNoNullIter::into_no_null_iter")
def _(it, a, c):
    v = col(a[0])
    return ListIt([nonull(x, v.dt) for x in v.vals])

@model("ChunkedArray::iter", "ChunkedArray::into_iter", "ChunkedArray::amortized_iter")
def _(it, a, c):
    return col(a[0]).iter_sym(True)

@model("ChunkedArray::downcast_iter", "Series::chunks")
def _(it, a, c):
    v = col(a[0])
    out, pos = [], 0
    for k in v.chunks:
        out.append(Ref([ArrV(v.dt, v.vals[pos:pos + k])], 0))
        pos += k
    return ListIt(out)

@model("PrimitiveArray::values", "PrimitiveArray::values_iter", "BinaryViewArrayGeneric::values_iter", "BooleanArray::values_iter")
def _(it, a, c):
    v = deref(a[0])
    xs = [nonull(x, v.dt) for x in v.vals]
    if c.key.endswith("values_iter"):
        return ListIt([Ref([x], 0) for x in xs] if not isinstance(v.dt, str) or v.dt != "str" else xs)
    return SliceV(xs)

@model("PrimitiveArray::iter", "BinaryViewArrayGeneric::iter", "BooleanArray::iter")
def _(it, a, c):
    v = deref(a[0])
    return ListIt([None_() if x is None else Some(Ref([native(x)], 0) if v.dt not in ("str", "bool") else native(x)) for x in v.vals])

@model("Array::as_any")
def _(it, a, c):
    return a[0]

@model("tuple::downcast_ref", "Any::downcast_ref")
def _(it, a, c):
    v = deref(a[0])
    if isinstance(v, (Col, ArrV)):
        want = c.path.segs[-1][1][0]
        inner = want[want.index("<") + 1:want.rindex(">")] if "<" in want else {"BooleanArray": "bool", "Utf8ViewArray": "str"}.get(mir.base_name(want), want)
        d = rt(inner, c.env)
        if d == v.dt:
            return Some(Ref([ArrV(v.dt, v.vals)], 0))
        return None_()
    raise Unsupported("downcast_ref")

@model("ChunkedArray::null_count", "SeriesTrait::null_count", "Series::null_count")
def _(it, a, c):
    return col(a[0]).nulls()

@model("ChunkedArray::has_nulls", "SeriesTrait::has_nulls", "Series::has_nulls")
def _(it, a, c):
    return col(a[0]).nulls() > 0

@model("SeriesTrait::is_not_null", "ChunkedArray::is_not_null", "Series::is_not_null")
def _(it, a, c):
    v = col(a[0])
    return Col(v.name, "bool", [x is not None for x in v.vals])

@model("SeriesTrait::is_null", "ChunkedArray::is_null", "Series::is_null")
def _(it, a, c):
    v = col(a[0])
    return Col(v.name, "bool", [x is None for x in v.vals])

@model("SeriesTrait::dtype", "ChunkedArray::dtype", "Series::dtype", "Column::dtype", "Field::dtype")
def _(it, a, c):
    v = deref(a[0])
    if isinstance(v, StructV):
        return Ref(v.f, 1)
    return Ref([dt_value(col(v).dt)], 0)

@model("ChunkedArray::inner_dtype")
def _(it, a, c):
    return Ref([dt_value(col(a[0]).dt[1])], 0)

@model("DataType::is_integer")
def _(it, a, c):
    return deref(a[0]).var.startswith(("Int", "UInt"))

@model("DataType::is_primitive_numeric", "DataType::is_numeric")
def _(it, a, c):
    return deref(a[0]).var.startswith(("Int", "UInt", "Float"))

@model("DataType::is_float")
def _(it, a, c):
    return deref(a[0]).var.startswith("Float")

@model("DataType::is_bool")
def _(it, a, c):
    return deref(a[0]).var == "Boolean"

@model("PolarsDataType::get_dtype")
def _(it, a, c):
    return dt_value(rt(c.path.qself, c.env))

@model("Series::cast", "ChunkCast::cast", "SeriesTrait::cast", "Column::cast")
def _(it, a, c):
    v = col(a[0])
    d = dt_from(a[1])
    def f():
        r = plops.cast(v, d, False)
        return Col(v.name, d, r.vals, False, v.ch)
    return guard(f)

@model("Series::sum")
def _(it, a, c):
    v = col(a[0])
    r = plops.agg_sum(v).vals[0]
    ty = c.path.gens[-1] if c.path.gens else "u32"
    return Ok(fl(r) if ty in ("f64", "f32") else r)

for _m, _f in (("sum", plops.agg_sum), ("mean", plops.agg_mean), ("min", lambda c: plops.agg_minmax(c, False)), ("max", lambda c: plops.agg_minmax(c, True))):
    def _mk(m, f):
        def g(it, a, c):
            v = col(a[0])
            if m in ("min", "max") and not v.vals:
                return None_()
            if m == "sum" and c.key.startswith("ChunkAgg") and not v.vals:
                return Some(f(v).vals[0])
            return optv(f(v).vals[0])
        return g
    for _k in ("ChunkAgg", "ChunkedArray", "SeriesTrait"):
        MODELS[f"{_k}::{_m}"] = _mk(_m, _f)
MODELS["Series::mean"] = MODELS["SeriesTrait::mean"] = lambda it, a, c: optv(plops.agg_mean(col(a[0])).vals[0])

@model("ChunkVar::var", "ChunkedArray::var", "ChunkVar::std", "SeriesTrait::var")
def _(it, a, c):
    f = plops.agg_std if c.key.endswith("std") else plops.agg_var
    return optv(f(col(a[0]), iconc(a[1])).vals[0])

@model("SeriesTrait::unique", "ChunkUnique::unique", "Series::unique", "ChunkedArray::unique")
def _(it, a, c):
    v = col(a[0])
    return Ok(Col(v.name, v.dt, plops.any_order(plops.unique_vals(v.vals))))

@model("SeriesTrait::n_unique", "ChunkUnique::n_unique", "Series::n_unique")
def _(it, a, c):
    return Ok(len(plops.unique_vals(col(a[0]).vals)))

@model("ChunkSort::sort", "ChunkedArray::sort", "Series::sort")
def _(it, a, c):
    v = col(a[0])
    d = deref(a[1]) if len(a) > 1 else False
    if not isinstance(d, (bool, SBool)):
        raise Unsupported("sort options")
    r = v.w([v.vals[i] for i in plops.argsort(v.vals, bool(d))])
    return r if c.key != "Series::sort" else Ok(r)

@model("ChunkedArray::drop_nulls", "Series::drop_nulls", "SeriesTrait::drop_nulls")
def _(it, a, c):
    v = col(a[0])
    return v.w(plops.nn(v.vals))

@model("ChunkedArray::any", "ChunkedArray::all")
def _(it, a, c):
    v = col(a[0])
    w = c.key.endswith("any")
    for x in v.vals:
        if x is not None and CTX_branch(x) == w:
            return w
    return not w

@model("ChunkedArray::none_to_nan")
def _(it, a, c):
    v = col(a[0])
    return Col(v.name, v.dt, [NAN if x is None else x for x in v.vals], False, v.ch)

@model("ChunkedArray::to_vec")
def _(it, a, c):
    return VecV([optv(x) for x in col(a[0]).vals])

@model("ChunkedArray::to_vec_null_aware")
def _(it, a, c):
    v = col(a[0])
    if v.nulls():
        return EnumV("Either", "Right", [VecV([optv(x) for x in v.vals])])
    return EnumV("Either", "Left", [VecV(list(v.vals))])
STD_DISC.update({"Left": 0, "Right": 1})

@model("Either::left")
def _(it, a, c):
    e = deref(a[0])
    return Some(e.f[0]) if e.var == "Left" else None_()

@model("Either::right")
def _(it, a, c):
    e = deref(a[0])
    return Some(e.f[0]) if e.var == "Right" else None_()

# ------------------------------------------------------------------ construction
def nm(v):
    v = deref(v)
    if isinstance(v, StrV):
        s = v.concrete()
        return s if s is not None else "?"
    return "?"

@model("ChunkedArray::from_vec", "NamedFromOwned::from_vec", "Series::from_vec")
def _(it, a, c):
    xs = items(a[1])
    d = None
    if c.key == "NamedFromOwned::from_vec":
        m = c.path.trait
        d = rt(mir.split_top(m[m.index("Vec<") + 4:])[0].rstrip(">"), c.env) if "Vec<" in m else None
    d = d or rec_dt(c.path, c.env) or guess_dt(xs)
    return Col(nm(a[0]), d, [unnative(x) for x in xs])

def guess_dt(xs):
    for x in xs:
        x = deref(x)
        if isinstance(x, EnumV) and x.name == "Option":
            if x.var == "None":
                continue
            x = deref(x.f[0])
        if x is None:
            continue
        if is_float(x):
            return "f64"
        if isinstance(x, StrV):
            return "str"
        if isinstance(x, (bool, SBool)):
            return "bool"
        if isinstance(x, Col):
            return ("list", x.dt)
        if isinstance(x, Lst):
            return ("list", x.dt)
        return "u32"
    return "f64"

@model("NewChunkedArray::from_slice", "ChunkedArray::from_slice")
def _(it, a, c):
    xs = items(a[1])
    return Col(nm(a[0]), rec_dt(c.path, c.env) or guess_dt(xs), [unnative(x) for x in xs])

@model("NewChunkedArray::from_iter_values", "ChunkedArray::from_iter_values", "NewChunkedArray::from_iter_options", "ChunkedArray::from_iter_options", "NewChunkedArray::from_slice_options")
def _(it, a, c):
    xs = [from_opt(x) for x in into_it(a[1]).all()]
    return Col(nm(a[0]), rec_dt(c.path, c.env) or guess_dt(xs), xs)

@model("ChunkedArray::from_chunk_iter")
def _(it, a, c):
    vals, ch, dt = [], [], rec_dt(c.path, c.env)
    for x in into_it(a[1]).all():
        x = deref(x)
        vals += x.vals
        ch.append(len(x.vals))
        if dt is None or isinstance(dt, tuple):
            dt = x.dt
    return Col(nm(a[0]), dt, vals, False, ch if len(ch) > 1 else None)

def collect_ca(it, src, ty):
    xs = [from_opt(x) for x in src.all()]
    d = rt(ty)
    if d is None or isinstance(d, tuple):
        g = guess_dt(xs)
        d = g
    return Col("", d, xs)
for _n in ("ChunkedArray", "Float64Chunked", "BooleanChunked", "StringChunked", "UInt32Chunked", "ListChunked"):
    COLLECT[_n] = collect_ca
COLLECT["Series"] = lambda it, src, ty: Col("", *(lambda xs: (guess_dt(xs), xs))([from_opt(x) for x in src.all()]))

def collect_df(it, src, ty):
    cols = [col(x) for x in src.all()]
    return mk_frame(cols)
COLLECT["DataFrame"] = collect_df

class DF:
    byref = True

    def __init__(self, fr):
        self.fr = fr

    def clone_sym(self):
        return DF(plx.Frame({k: v.clone_sym() for k, v in self.fr.cols.items()}, self.fr.n))

def mk_frame(cols):
    out = {}
    n = len(cols[0].vals) if cols else 0
    for x in cols:
        if x.name in out:
            raise PolarsError("duplicate column")
        if len(x.vals) != n:
            raise PolarsError("frame heights")
        out[x.name] = x
    return DF(plx.Frame(out, n))

@model("DataFrame::new")
def _(it, a, c):
    return guard(lambda: mk_frame([col(x) for x in items(a[0])]))

@model("DataFrame::height")
def _(it, a, c):
    return deref(a[0]).fr.n

@model("DataFrame::width")
def _(it, a, c):
    return len(deref(a[0]).fr.cols)

@model("DataFrame::is_empty")
def _(it, a, c):
    fr = deref(a[0]).fr
    return fr.n == 0 or not fr.cols

@model("DataFrame::drop_in_place")
def _(it, a, c):
    fr = deref(a[0]).fr
    n = nm(a[1])
    if n not in fr.cols:
        return perr("column not found")
    return Ok(fr.cols.pop(n))

@model("DataFrame::column")
def _(it, a, c):
    fr = deref(a[0]).fr
    n = nm(a[1])
    return Ok(Ref([fr.cols[n]], 0)) if n in fr.cols else perr("column not found")

@model("DataFrame::get_columns", "DataFrame::take_columns")
def _(it, a, c):
    l = list(deref(a[0]).fr.cols.values())
    return VecV(l) if c.key.endswith("take_columns") else SliceV(l)

@model("DataFrame::get_column_names")
def _(it, a, c):
    return VecV([StrV(k) for k in deref(a[0]).fr.cols])

@model("DataFrame::into_struct")
def _(it, a, c):
    fr = deref(a[0]).fr
    cs = list(fr.cols.values())
    return Col(nm(a[1]), ("struct", [(x.name, x.dt) for x in cs]), [tuple(x.vals[i] for x in cs) for i in range(fr.n)])

@model("DataFrame::drop_nulls")
def _(it, a, c):
    fr = deref(a[0]).fr
    keep = [i for i in range(fr.n) if all(x.vals[i] is not None for x in fr.cols.values())]
    return Ok(DF(fr.take(keep)))

@model("DataFrame::filter")
def _(it, a, c):
    fr = deref(a[0]).fr
    m = col(a[1])
    mv = m.vals if len(m.vals) == fr.n else m.vals * fr.n
    return Ok(DF(fr.take([i for i in range(fr.n) if mv[i] is not None and CTX_branch(mv[i])])))

@model("ChunkedArray::filter", "ChunkFilter::filter", "Series::filter", "SeriesTrait::filter")
def _(it, a, c):
    v, m = col(a[0]), col(a[1])
    return Ok(v.w([x for x, b in zip(v.vals, m.vals) if b is not None and CTX_branch(b)]))

@model("ChunkedArray::from_series", "ChunkedArray::from_columns", "StructChunked::from_series")
def _(it, a, c):
    n = iconc(a[1], 10 ** 6)
    cs = [col(x) for x in into_it(a[2]).all()]
    out = []
    for x in cs:
        v = x.vals
        if len(v) != n:
            if len(v) == 1:
                v = v * n
            else:
                return perr("struct lengths")
        out.append(v)
    return Ok(Col(nm(a[0]), ("struct", [(x.name, x.dt) for x in cs]), [tuple(v[i] for v in out) for i in range(n)]))

@model("IntoSeries::into_series", "IntoColumn::into_column", "Series::into_series", "Column::take_materialized_series", "Column::as_materialized_series", "Column::from", "Series::from", "Column::Series", "SeriesColumn::from")
def _(it, a, c):
    v = a[0]
    if c.key.endswith("as_materialized_series"):
        return v
    return col(v)

@model("NamedFrom::new", "Series::new", "Column::new")
def _(it, a, c):
    w = deref(a[1])
    if isinstance(w, Col):
        return Col(nm(a[0]), w.dt, list(w.vals))
    xs = items(w)
    el = None
    m = c.path.trait or ""
    for s, g in c.path.segs:
        for x in g or []:
            m += " " + x
    mm = re.search(r"\[(?:Option<)?(&?\w+)>?(?:; \d+)?\]|Vec<(?:Option<)?([&'\w ]+?)>+", m)
    if mm:
        el = rt((mm.group(1) or mm.group(2)).lstrip("&").replace("'_ ", ""), c.env)
    return Col(nm(a[0]), el or guess_dt(xs), [from_opt(x) for x in xs])

@model("Column::new_scalar", "Column::full_null", "Series::full_null")
def _(it, a, c):
    if c.key.endswith("full_null"):
        return Col(nm(a[0]), dt_from(a[2]), [None] * iconc(a[1]))
    s = deref(a[1])
    n = iconc(a[2], 10 ** 6)
    return Col(nm(a[0]), s.a[0], [s.a[1]] * n)

@model("Scalar::from")
def _(it, a, c):
    v = deref(a[0])
    return Opaque("scalar", "f64" if is_float(v) else "str" if isinstance(v, StrV) else "u32", v)
CONV["Scalar"] = lambda it, v, c: Opaque("scalar", "f64" if is_float(deref(v)) else "str" if isinstance(deref(v), StrV) else "bool" if isinstance(deref(v), (bool, SBool)) else "u32", deref(v))
CONV["Series"] = lambda it, v, c: col(v)
CONV["Column"] = lambda it, v, c: col(v)
CONV["SeriesColumn"] = lambda it, v, c: col(v)

@model("Scalar::new")
def _(it, a, c):
    v = deref(a[1])
    return Opaque("scalar", dt_from(a[0]), v.f[0] if isinstance(v, EnumV) and v.f else None)

@model("Field::new")
def _(it, a, c):
    return StructV("Field", [a[0], a[1]])

@model("CallerContext::parallel")
def _(it, a, c):
    return deref(a[0]).f[0]

# ------------------------------------------------------------------ elementwise
@model("ChunkedArray::apply_nonnull_values_generic", "ChunkedArray::apply_values_generic")
def _(it, a, c):
    v = col(a[0])
    nonnull = c.key.endswith("nonnull_values_generic")
    d = dt_from(a[1]) if nonnull else None
    f = a[2] if nonnull else a[1]
    out = [None if x is None else unnative(it.call_value(f, [native(x)])) for x in v.vals]
    if d is None:
        d = rt(c.dty) or guess_dt(out)
    return Col(v.name, d, out, False, v.ch)

@model("ChunkApply::apply_values", "ChunkedArray::apply_values")
def _(it, a, c):
    v = col(a[0])
    def uncow(x):
        return x.f[0] if isinstance(x, EnumV) and x.var in ("Borrowed", "Owned") else x
    return Col(v.name, v.dt, [None if x is None else unnative(deref(uncow(it.call_value(a[1], [native(x)])))) for x in v.vals], False, v.ch)

@model("ChunkApply::apply", "ChunkedArray::apply", "ChunkedArray::apply_generic", "ChunkedArray::apply_amortized_generic")
def _(it, a, c):
    v = col(a[0])
    out = [from_opt(it.call_value(a[1], [optv(x)])) for x in v.vals]
    return Col(v.name, rt(c.dty) or guess_dt(out), out, False, v.ch)

@model("ChunkedArray::cast_and_apply_in_place")
def _(it, a, c):
    v = col(a[0])
    gens = [g for s, gg in c.path.segs for g in (gg or [])]
    d = rt(gens[-1], c.env) if gens else rt(c.dty, c.env)
    d = rt(c.dty, c.env) or d or "f64"
    r = plops.cast(v, d, False)
    return Col(v.name, d, [None if x is None else unnative(it.call_value(a[1], [x])) for x in r.vals], False, v.ch)

@model("ChunkedArray::apply_into_string_amortized")
def _(it, a, c):
    v = col(a[0])
    out = []
    for x in v.vals:
        if x is None:
            out.append(None)
            continue
        h = [StrV([])]
        it.call_value(a[1], [native(x), Ref(h, 0)])
        out.append(StrV(list(h[0].c)))
    return Col(v.name, "str", out, False, v.ch)

def align(x, y):
    """chunk layout and pairing of binary_elementwise: rows are paired by position; the shorter side ends the zip"""
    return list(zip(x.vals, y.vals))

@model("binary_elementwise_values", "arity::binary_elementwise_values", "*::binary_elementwise_values")
def _(it, a, c):
    x, y = col(a[0]), col(a[1])
    out = [None if p is None or q is None else unnative(it.call_value(a[2], [native(p), native(q)])) for p, q in align(x, y)]
    return Col(x.name, bin_dt(c, out), out, False, x.ch if len(x.vals) == len(y.vals) else None)

def bin_dt(c, out):
    gens = c.path.gens or []
    for g in gens[2:3]:
        r = rt(g, c.env)
        if r is not None and not isinstance(r, tuple):
            return r
    return rt(c.dty, c.env) or guess_dt(out)

@model("binary_elementwise", "arity::binary_elementwise", "*::binary_elementwise")
def _(it, a, c):
    x, y = col(a[0]), col(a[1])
    out = [from_opt(it.call_value(a[2], [optv(p), optv(q)])) for p, q in align(x, y)]
    return Col(x.name, bin_dt(c, out), out)

@model("unary_elementwise_values", "arity::unary_elementwise_values", "unary_elementwise", "arity::unary_elementwise")
def _(it, a, c):
    x = col(a[0])
    if c.key.endswith("values"):
        out = [None if p is None else unnative(it.call_value(a[1], [native(p)])) for p in x.vals]
    else:
        out = [from_opt(it.call_value(a[1], [optv(p)])) for p in x.vals]
    return Col(x.name, rt(c.dty, c.env) or guess_dt(out), out, False, x.ch)

# ------------------------------------------------------------------ builders
class Builder:
    byref = True

    def __init__(self, name, dt):
        self.name = name
        self.dt = dt
        self.vals = []

def bld(a):
    v = deref(a)
    return v

@model("ListPrimitiveChunkedBuilder::new", "ListPrimitiveChunkedBuilder::new_with_values_type")
def _(it, a, c):
    return Builder(nm(a[0]), ("list", dt_from(a[3])))

@model("ListStringChunkedBuilder::new")
def _(it, a, c):
    return Builder(nm(a[0]), ("list", "str"))

@model("ListBooleanChunkedBuilder::new")
def _(it, a, c):
    return Builder(nm(a[0]), ("list", "bool"))

@model("PrimitiveChunkedBuilder::new", "BooleanChunkedBuilder::new")
def _(it, a, c):
    d = "bool" if c.key.startswith("Bool") else None
    for s, g in c.path.segs:
        for x in g or []:
            d = d or rt(x, c.env)
    return Builder(nm(a[0]), d or "f64")

@model("BinViewChunkedBuilder::new", "StringChunkedBuilder::new")
def _(it, a, c):
    return Builder(nm(a[0]), "str")

@model("ChunkedBuilder::append_value", "BinViewChunkedBuilder::append_value", "PrimitiveChunkedBuilder::append_value", "BooleanChunkedBuilder::append_value")
def _(it, a, c):
    bld(a[0]).vals.append(unnative(a[1]))
    return UNIT

@model("ChunkedBuilder::append_option", "BinViewChunkedBuilder::append_option")
def _(it, a, c):
    bld(a[0]).vals.append(from_opt(a[1]))
    return UNIT

@model("ChunkedBuilder::append_null", "ListBuilderTrait::append_null", "BinViewChunkedBuilder::append_null", "PrimitiveChunkedBuilder::append_null")
def _(it, a, c):
    bld(a[0]).vals.append(None)
    return UNIT

@model("ListPrimitiveChunkedBuilder::append_slice")
def _(it, a, c):
    b = bld(a[0])
    b.vals.append(Lst([unnative(x) for x in items(a[1])], b.dt[1]))
    return UNIT

@model("ListPrimitiveChunkedBuilder::append_values_iter", "ListStringChunkedBuilder::append_values_iter")
def _(it, a, c):
    b = bld(a[0])
    b.vals.append(Lst([unnative(x) for x in into_it(a[1]).all()], b.dt[1]))
    return UNIT

@model("ListBuilderTrait::append_series")
def _(it, a, c):
    b = bld(a[0])
    b.vals.append(Lst(list(col(a[1]).vals), b.dt[1]))
    return Ok(UNIT)

@model("ChunkedBuilder::finish", "ListBuilderTrait::finish", "BinViewChunkedBuilder::finish", "PrimitiveChunkedBuilder::finish")
def _(it, a, c):
    b = bld(a[0])
    return Col(b.name, b.dt, b.vals)

# ------------------------------------------------------------------ raw memory (series_to_row_major_slice)
class RawMem:
    """the heap buffer of a Vec, addressed through a raw pointer"""
    def __init__(self, v):
        self.v = v

    def __getitem__(self, i):
        if not 0 <= i < len(self.v.d):
            raise PathPanic("out of bounds read through a raw pointer")
        return self.v.d[i]

    def __setitem__(self, i, x):
        if i < 0:
            raise PathPanic("out of bounds write through a raw pointer")
        while len(self.v.d) <= i:
            self.v.d.append(None)
        self.v.d[i] = x

@model("Vec::as_ptr", "Vec::as_mut_ptr")
def _(it, a, c):
    return Ref(RawMem(deref(a[0])), 0)

@model("*mut ::add", "mut_ptr::add", "*const ::add", "const_ptr::add")
def _(it, a, c):
    p = a[0]
    return Ref(p.o, p.k + iconc(a[1], 10 ** 6))

@model("Vec::set_len")
def _(it, a, c):
    v = deref(a[0])
    n = iconc(a[1], 10 ** 6)
    if len(v.d) > n:
        del v.d[n:]
    while len(v.d) < n:
        v.d.append(None)
    for i, x in enumerate(v.d):
        if x is None:
            v.d[i] = undef()
    return UNIT

# ------------------------------------------------------------------ expression DSL -> the same JSON form the python side serialises to
class EX:
    byref = True

    def __init__(self, j):
        self.j = j

    def clone_sym(self):
        return EX(self.j)

    def arith_sym(self, it, op, x, y):
        return EX({"BinaryExpr": {"left": ex(x), "op": {"Add": "Plus", "Sub": "Minus", "Mul": "Multiply", "Div": "Divide", "Rem": "Modulus"}[op], "right": ex(y)}})

    def neg_sym(self, it):
        return EX(fnode("Negate", [self.j]))

def ex(v):
    v = deref(v)
    if isinstance(v, EX):
        return v.j
    if isinstance(v, StrV):
        return {"Column": v.concrete()}
    if is_float(v):
        return {"Literal": {"Sym": Col("literal", "dyn_f", [v], True)}}
    if isinstance(v, (bool, SBool)):
        return {"Literal": {"Sym": Col("literal", "bool", [v], True)}}
    if isinstance(v, (int, SI)):
        return {"Literal": {"Sym": Col("literal", "dyn_i", [v], True)}}
    raise Unsupported(f"expr from {type(v).__name__}")

def fnode(f, ins, flags=""):
    return {"Function": {"input": ins, "function": f, "options": {"flags": flags}}}

@model("prelude::col", "col", "dsl::col")
def _(it, a, c):
    s = nm(a[0])
    return EX("Wildcard" if s == "*" else {"Column": s})

@model("prelude::all", "dsl::all")
def _(it, a, c):
    return EX("Wildcard")

@model("prelude::len", "dsl::len")
def _(it, a, c):
    return EX("Len")

@model("prelude::lit", "dsl::lit")
def _(it, a, c):
    v = deref(a[0])
    ty = (c.path.gens or [None])[-1]
    d = rt(ty, c.env) if ty else None
    if isinstance(v, StrV):
        return EX({"Literal": {"Sym": Col("literal", "str", [v], True)}})
    if isinstance(v, Col):
        return EX({"Literal": {"Sym": Col("literal", v.dt, v.vals, len(v.vals) == 1)}})
    if isinstance(v, (bool, SBool)):
        d = "bool"
    elif is_float(v):
        d = d if d in ("f64", "f32") else "f64"
    else:
        d = d if d in plops.INTS else "i32"
    return EX({"Literal": {"Sym": Col("literal", d, [v], True)}})

def emodel(name, f):
    MODELS[f"Expr::{name}"] = lambda it, a, c: EX(f(ex(a[0]), *a[1:]))

def cdt(v):
    return TDJ(dt_from(v))

def TDJ(d):
    return {"List": TDJ(d[1])} if isinstance(d, tuple) else plx.TD[d]

emodel("alias", lambda e, n: {"Alias": [e, nm(n)]})
emodel("cast", lambda e, d: {"Cast": {"expr": e, "dtype": cdt(d), "options": "NonStrict"}})
emodel("strict_cast", lambda e, d: {"Cast": {"expr": e, "dtype": cdt(d), "options": "Strict"}})
emodel("sum", lambda e: {"Agg": {"Sum": e}})
emodel("mean", lambda e: {"Agg": {"Mean": e}})
emodel("median", lambda e: {"Agg": {"Median": e}})
emodel("min", lambda e: {"Agg": {"Min": {"input": e, "propagate_nans": False}}})
emodel("max", lambda e: {"Agg": {"Max": {"input": e, "propagate_nans": False}}})
emodel("first", lambda e: {"Agg": {"First": e}})
emodel("last", lambda e: {"Agg": {"Last": e}})
emodel("n_unique", lambda e: {"Agg": {"NUnique": e}})
emodel("count", lambda e: {"Agg": {"Count": [e, False]}})
emodel("len", lambda e: {"Agg": {"Count": [e, True]}})
emodel("var", lambda e, d: {"Agg": {"Var": [e, iconc(d)]}})
emodel("std", lambda e, d: {"Agg": {"Std": [e, iconc(d)]}})
emodel("implode", lambda e: {"Agg": {"Implode": e}})
emodel("exp", lambda e: fnode("Exp", [e]))
emodel("abs", lambda e: fnode("Abs", [e]))
emodel("log", lambda e, b: fnode({"Log": {"base": float(deref(b).cval())}}, [e]))
emodel("log1p", lambda e: fnode("Log1p", [e]))
emodel("sqrt", lambda e: fnode({"Pow": "Sqrt"}, [e]))
emodel("pow", lambda e, p: fnode({"Pow": "Generic"}, [e, ex(p)]))
emodel("fill_null", lambda e, v: fnode("FillNull", [e, ex(v)]))
emodel("fill_nan", lambda e, v: {"Ternary": {"predicate": {"BinaryExpr": {"left": fnode({"Boolean": "IsNotNan"}, [e]), "op": "Or", "right": fnode({"Boolean": "IsNull"}, [e])}}, "truthy": e, "falsy": ex(v)}})
emodel("is_null", lambda e: fnode({"Boolean": "IsNull"}, [e]))
emodel("is_not_null", lambda e: fnode({"Boolean": "IsNotNull"}, [e]))
emodel("not", lambda e: fnode({"Boolean": "Not"}, [e]))
emodel("cum_sum", lambda e, r: fnode({"CumSum": {"reverse": bool(r)}}, [e]))
emodel("diff", lambda e, n, b: fnode({"Diff": deref(b).var}, [e, {"Literal": {"Dyn": {"Int": iconc(n)}}}]))
emodel("shift", lambda e, n: fnode("Shift", [e, ex(n)]))
emodel("shift_and_fill", lambda e, n, v: fnode("ShiftAndFill", [e, ex(n), ex(v)]))
emodel("clip_min", lambda e, v: fnode({"Clip": {"has_min": True, "has_max": False}}, [e, ex(v)]))
emodel("clip_max", lambda e, v: fnode({"Clip": {"has_min": False, "has_max": True}}, [e, ex(v)]))
emodel("dot", lambda e, v: {"Agg": {"Sum": {"BinaryExpr": {"left": e, "op": "Multiply", "right": ex(v)}}}})
emodel("filter", lambda e, v: {"Filter": {"input": e, "by": ex(v)}})
emodel("reverse", lambda e: fnode("Reverse", [e]))
emodel("drop_nulls", lambda e: fnode("DropNulls", [e]))
emodel("unique", lambda e: fnode({"Unique": False}, [e]))
emodel("over", lambda e, ks: {"Window": {"function": e, "partition_by": [ex(k) for k in items(ks)], "order_by": None, "options": {"Over": "GroupsToRows"}}})
emodel("exclude", lambda e, ks: {"Exclude": [e, [{"Name": nm(k)} for k in (items(ks) if not isinstance(deref(ks), StrV) else [ks])]]})
for _n, _o in (("and", "And"), ("or", "Or"), ("eq", "Eq"), ("neq", "NotEq"), ("gt", "Gt"), ("gt_eq", "GtEq"), ("lt", "Lt"), ("lt_eq", "LtEq")):
    emodel(_n, (lambda o: lambda e, v: {"BinaryExpr": {"left": e, "op": o, "right": ex(v)}})(_o))

@model("prelude::when", "dsl::when")
def _(it, a, c):
    return Opaque("when", ex(a[0]))

@model("When::then")
def _(it, a, c):
    return Opaque("then", deref(a[0]).a[0], ex(a[1]))

@model("Then::otherwise")
def _(it, a, c):
    o = deref(a[0])
    return EX({"Ternary": {"predicate": o.a[0], "truthy": o.a[1], "falsy": ex(a[1])}})

# ------------------------------------------------------------------ lazy frames (evaluated eagerly; errors surface at collect)
class LF:
    byref = True

    def __init__(self, fr, err=None):
        self.fr = fr
        self.err = err

    def clone_sym(self):
        return LF(self.fr, self.err)

def lf(f):
    def g(it, a, c):
        v = deref(a[0])
        if v.err is not None:
            return v
        try:
            return LF(f(it, plx.Ev(v.fr, it), *a[1:]))
        except PolarsError as e:
            return LF(None, e)
    return g

def exlist(v):
    v = deref(v)
    if isinstance(v, EX):
        return [v.j]
    return [ex(x) for x in items(v)]

MODELS["IntoLazy::lazy"] = MODELS["DataFrame::lazy"] = lambda it, a, c: LF(deref(a[0]).fr)
MODELS["LazyFrame::select"] = lf(lambda it, e, x: e.select(exlist(x)))
MODELS["LazyFrame::with_columns"] = lf(lambda it, e, x: e.select(exlist(x), True))
MODELS["LazyFrame::with_column"] = lf(lambda it, e, x: e.select([ex(x)], True))
MODELS["LazyFrame::filter"] = lf(lambda it, e, x: e.filter(ex(x)))
MODELS["LazyFrame::fill_null"] = lf(lambda it, e, x: e.select([fnode("FillNull", [{"Column": k}, ex(x)]) for k in e.frame.cols]))

@model("LazyFrame::collect")
def _(it, a, c):
    v = deref(a[0])
    if v.err is not None:
        return perr(str(v.err))
    return Ok(DF(v.fr))

@model("LazyFrame::group_by", "LazyFrame::group_by_stable")
def _(it, a, c):
    return Opaque("groupby", deref(a[0]), exlist(a[1]), c.key.endswith("stable"))

@model("LazyGroupBy::agg")
def _(it, a, c):
    o = deref(a[0])
    if o.a[0].err is not None:
        return o.a[0]
    try:
        return LF(plx.Ev(o.a[0].fr, it).group_by_agg(o.a[1], exlist(a[1]), o.a[2]))
    except PolarsError as e:
        return LF(None, e)

def lf_sort(it, e, by, opts):
    o = deref(opts)
    d = [False]
    names = [nm(x) for x in items(by)]
    if isinstance(o, StructV) and o.names is None and o.f:
        x = deref(o.f[0])
        d = [bool(deref(y)) for y in items(x)] if isinstance(x, (VecV, SliceV)) and items(x) else [False]
    cols = [e.frame.cols[n] for n in names]
    idx = plops.argsort_multi(cols, d * len(cols) if len(d) == 1 else d, [False] * len(cols))
    return e.frame.take(idx)
MODELS["LazyFrame::sort"] = lf(lf_sort)

def lf_drop_nulls(it, e, sub):
    o = deref(sub)
    names = list(e.frame.cols) if o.var == "None" else [e.name(ex(x)) for x in items(o.f[0])]
    return e.frame.take([i for i in range(e.frame.n) if all(e.frame.cols[k].vals[i] is not None for k in names)])
MODELS["LazyFrame::drop_nulls"] = lf(lf_drop_nulls)

@model("Default::default@SortMultipleOptions")
def _(it, a, c):
    return StructV("SortMultipleOptions", [VecV([False])])

@model("JoinArgs::new")
def _(it, a, c):
    # how, validation, suffix, slice, join_nulls, coalesce, maintain_order
    return StructV("JoinArgs", [a[0], EnumV("JoinValidation", "ManyToMany", []), None_(), None_(), False, EnumV("JoinCoalesce", "JoinSpecific", []), EnumV("MaintainOrderJoin", "None", [])])

def join(l, r, lk, rk, how, suffix="_right", nulls=False):
    n, m = l.n, r.n
    pairs = []
    usedr = set()
    for i in range(n):
        hit = False
        for j in range(m):
            ok = True
            for a, b in zip(lk, rk):
                x, y = l.cols[a].vals[i], r.cols[b].vals[j]
                if x is None or y is None:
                    ok = nulls and x is None and y is None
                else:
                    ok = plops.br(plops.teq(x, y))
                if not ok:
                    break
            if ok:
                pairs.append((i, j))
                usedr.add(j)
                hit = True
        if not hit and how in ("Left", "Full"):
            pairs.append((i, None))
    if how == "Full":
        pairs += [(None, j) for j in range(m) if j not in usedr]
    cols = {}
    for k, v in l.cols.items():
        cols[k] = v.w([None if i is None else v.vals[i] for i, _ in pairs])
    for k, v in r.cols.items():
        if k in rk and how in ("Left", "Inner"):
            continue
        nmx = k if k not in cols else k + suffix
        cols[nmx] = v.w([None if j is None else v.vals[j] for _, j in pairs], name=nmx)
    return plx.Frame(cols, len(pairs))

@model("LazyFrame::join")
def _(it, a, c):
    l, r = deref(a[0]), deref(a[1])
    for x in (l, r):
        if x.err is not None:
            return x
    ja = deref(a[4])
    how = deref(ja.f[0]).var
    lk = [plx.Ev(l.fr).name(e) for e in exlist(a[2])]
    rk = [plx.Ev(r.fr).name(e) for e in exlist(a[3])]
    return LF(join(l.fr, r.fr, lk, rk, how, nulls=bool(deref(ja.f[4]))))

@model("LazyFrame::cross_join")
def _(it, a, c):
    l, r = deref(a[0]).fr, deref(a[1]).fr
    pairs = [(i, j) for i in range(l.n) for j in range(r.n)]
    cols = {k: v.w([v.vals[i] for i, _ in pairs]) for k, v in l.cols.items()}
    for k, v in r.cols.items():
        nmx = k if k not in cols else k + "_right"
        cols[nmx] = v.w([v.vals[j] for _, j in pairs], name=nmx)
    return LF(plx.Frame(cols, len(pairs)))

import re

@model("DataFrame::align_chunks", "DataFrame::align_chunks_par")
def _(it, a, c):
    return a[0]

@model("ChunkFullNull::full_null", "ChunkedArray::full_null")
def _(it, a, c):
    return Col(nm(a[0]), rec_dt(c.path, c.env) or "i32", [None] * iconc(a[1], 10 ** 6))

@model("ChunkedArray::fields_as_series")
def _(it, a, c):
    v = col(a[0])
    return VecV([Col(n, dt, [None if x is None else x[i] for x in v.vals]) for i, (n, dt) in enumerate(v.dt[1])])
