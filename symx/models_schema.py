"""Declared output types of plugins: the functions `_polars_plugin_field_*` generated by polars_expr, run on field values."""
from .interp import *
from .models_std import model, MODELS
from .models_polars import dt_value, dt_from
from .interp import StrV
from . import mir

def _ident(i=0):
    return lambda it, a, c: a[i]

MODELS["slice::from_raw_parts"] = _ident()
MODELS["ffi::import_field_from_c"] = MODELS["import_field_from_c"] = lambda it, a, c: Ok(deref(a[0]))
MODELS["ffi::export_field_to_c"] = MODELS["export_field_to_c"] = lambda it, a, c: deref(a[0])
MODELS["Field::to_arrow"] = lambda it, a, c: deref(a[0])
MODELS["CompatLevel::newest"] = lambda it, a, c: StructV("CompatLevel", [1])
MODELS["panic::catch_unwind"] = MODELS["std::panic::catch_unwind"] = lambda it, a, c: Ok(it.call_value(a[0], []))
MODELS["derive::_update_last_error"] = MODELS["_update_last_error"] = lambda it, a, c: it.opts.setdefault("field_error", []).append(a[0])
MODELS["FieldsMapper::new"] = lambda it, a, c: StructV("FieldsMapper", [a[0]])

def fields(v):
    s = deref(deref(v).f[0])
    return [deref(x) for x in into_list(s)]

def into_list(s):
    from .models_std import into_it
    return list(into_it(s).all())

@model("FieldsMapper::with_dtype")
def _(it, a, c):
    return Ok(StructV("Field", [fields(a[0])[0].f[0], a[1]]))

@model("FieldsMapper::map_to_float_dtype")
def _(it, a, c):
    f = fields(a[0])[0]
    d = dt_from(f.f[1])
    return Ok(StructV("Field", [f.f[0], dt_value(d if d in ("f64", "f32") else "f64")]))

@model("Field::name")
def _(it, a, c):
    return Ref(deref(a[0]).f, 0)

def field_dt(v):
    """a DataType value as a column type, struct fields with their names"""
    v = deref(v)
    if v.var == "Struct":
        out = []
        for f in into_list(v.f[0]):
            f = deref(f)
            n = deref(f.f[0])
            out.append(("".join(map(chr, n.c)) if isinstance(n, StrV) else str(n), field_dt(f.f[1])))
        return ("struct", out)
    if v.var in ("List", "Array"):
        return ("list", field_dt(v.f[0]))
    return dt_from(v)

def declared(it, sym, ins, kw, sub):
    """the type the plugin declares for inputs of these names and types; None when it declares an error"""
    from .plx import kwargs_value
    f = it.prog.find_free(["_polars_plugin_field_" + sym])
    if f is None:
        raise Unsupported("no declared type of " + sym)
    f.parse()
    MODELS["derive::_parse_kwargs"] = MODELS["_parse_kwargs"] = lambda it, a, c: Ok(kwargs_value(it, c.path.gens[-1], kw, sub or {}))
    fs = [StructV("Field", [StrV(i.name or ""), dt_value(i.dt)]) for i in ins]
    out = [None]
    args = [SliceV(fs), len(fs), Ref(out, 0), SliceV([]), 0]
    it.run(f, args[:len(f.params)], {})
    if out[0] is None:
        return None
    return field_dt(deref(out[0]).f[1])
