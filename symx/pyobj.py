"""Stand-ins for the extension's python classes: methods run the #[pymethods] symbolically."""
import re
import numpy as np
from . import ctx as C, mir
from .term import *
from .ctx import *
from .interp import *
from .models_std import items
from .symnum import SymF, SymI, wrap
from .models_np import NpArr, RustErr, obj_array

CUR = None       # harness of the obligation under execution

def to_rust(v):
    if isinstance(v, PyObj):
        return v._v
    if isinstance(v, (SymF, SymI)):
        return v.p
    if isinstance(v, np.ndarray):
        if v.dtype != object:
            v = obj_array([CUR.sub[float(x)] if float(x) in CUR.sub else fl(float(x)) for x in v.ravel()], v.shape)
        else:
            # keep the memory order flags
            out = np.empty_like(v)
            for i in np.ndindex(v.shape):
                x = v[i]
                out[i] = x if isinstance(x, (Poly, FSpec)) else fl(x.p) if isinstance(x, (SymF, SymI)) else CUR.sub[float(x)] if float(x) in CUR.sub else fl(float(x))
            v = out
        return NpArr(v)
    if isinstance(v, bool) or isinstance(v, np.bool_):
        return bool(v)
    if isinstance(v, str):
        return CUR.sub[v] if v in CUR.sub else StrV(v)
    if isinstance(v, (int, np.integer)):
        return CUR.sub[v] if v in CUR.sub else int(v)
    if isinstance(v, (float, np.floating)):
        return CUR.sub[v] if v in CUR.sub else fl(float(v))
    if isinstance(v, (Poly, FSpec, SI, SBool)):
        return v
    raise Unsupported(f"python argument {type(v).__name__}")

def adapt(v, ty):
    """numbers of the declared type"""
    t = ty.strip()
    if t == "f64" and isinstance(v, (int, SI)) and not isinstance(v, bool):
        return fl(v)
    if t in ("usize", "u32", "i64") and not isinstance(v, (int, SI)):
        raise TypeError(f"'{type(v).__name__}' object cannot be interpreted as an integer")
    if t in ("usize", "u32") and isinstance(v, int) and v < 0:
        raise OverflowError("can't convert negative int to unsigned")
    if t == "f64" and not isinstance(v, (Poly, FSpec)):
        raise TypeError("must be real number")
    return v

def to_python(v):
    v = deref(v)
    while isinstance(v, BoxV):
        v = deref(v.c[0])
    if isinstance(v, NpArr):
        return v.a
    if isinstance(v, (VecV, SliceV)):
        return [to_python(x) for x in items(v)]
    if isinstance(v, StructV) and v.name in ("tuple", "", "()"):
        return tuple(to_python(x) for x in v.f) if v.f else None
    if v is UNIT:
        return None
    return v

class PyObj:
    _name = None
    def __init__(self, *a, **k):
        self.__dict__["_v"] = None
        self.__dict__["_v"] = self._call("new", a, k)

    @classmethod
    def _meth(cls, name):
        c = CUR.prog.inherent.get((cls._name, name))
        if not c:
            return None
        return c[0][1]

    @classmethod
    def _info(cls, f, name):
        """(params [(name, type)], defaults, getter?)  from the MIR signature and the source attributes"""
        f.parse()
        m = Program.IMPL_RE.search(f.name)
        rel = m.group(1)
        src = "\n".join(re.sub(r"//.*", "", x) for x in CUR.prog.read(rel)[int(m.group(2)) - 1:])
        k = re.search(r"\bfn\s+" + name + r"\b", src)
        pre = src[:k.start()]
        pre = pre[max(pre.rfind("}"), pre.rfind(";"), 0):] if name != "new" else pre[pre.rfind("#[new]"):]
        getter = "#[getter]" in pre
        defaults = {}
        s = re.search(r"signature\s*=\s*\((.*?)\)\s*\)\s*\]", pre, re.S)
        if s:
            for part in mir.split_top(s.group(1)):
                if "=" in part:
                    n, d = part.split("=", 1)
                    d = d.strip()
                    if d.startswith('"'):
                        d = re.match(r'"([^"]*)"', d).group(1)
                    elif d in ("true", "false"):
                        d = d == "true"
                    else:
                        x = d.rstrip(".")
                        d = int(x) if re.fullmatch(r"\d+", d) else float(d)
                    defaults[n.strip()] = d
        # names of the parameters, in order, from the source
        i = src.index("(", k.end())
        if src[k.end():].lstrip().startswith("<"):
            i = src.index("(", src.index(">", k.end()))
        depth, j = 0, i
        while True:
            if src[j] in "([{":
                depth += 1
            elif src[j] in ")]}":
                depth -= 1
                if depth == 0:
                    break
            j += 1
        ps = []
        for part in mir.split_top(src[i + 1:j]):
            part = part.strip()
            if not part or re.fullmatch(r"&?(mut )?self|&mut self", part):
                continue
            n, t = part.split(":", 1)
            ps.append((n.strip().replace("mut ", ""), t.strip()))
        return ps, defaults, getter

    def _call(self, name, a, k):
        f = self._meth(name)
        ps, defaults, _ = self._info(f, name)
        args = []
        if name != "new":
            args.append(Ref([self._v], 0))
        a = list(a)
        k = dict(k)
        for n, t in ps:
            if t.startswith("Python"):
                args.append(Opaque("py"))
                continue
            if a:
                v = a.pop(0)
            elif n in k:
                v = k.pop(n)
            elif n in defaults:
                v = defaults[n]
            else:
                raise TypeError(f"{name}() missing 1 required positional argument: '{n}'")
            args.append(adapt(to_rust(v), t))
        if a or k:
            raise TypeError(f"{name}() got unexpected arguments {a} {list(k)}")
        r = CUR.interp().run(f, args, {"T": "f64"})
        if isinstance(r, EnumV) and r.name == "Result":
            if r.var == "Err":
                raise RustErr(f"{r.f[0]!r}")
            r = r.f[0]
        if name == "new":
            return r
        r = to_python(r)
        return self._wrap(r) if self._sym else r

    _sym = False
    @classmethod
    def _wrap(cls, r):
        if isinstance(r, np.ndarray) and r.dtype == object:
            return obj_array([wrap(x) for x in r.ravel()], r.shape)
        if isinstance(r, tuple):
            return tuple(cls._wrap(x) for x in r)
        if isinstance(r, (Poly, FSpec, SI)):
            return wrap(r)
        return r

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        f = self._meth(name)
        if f is None:
            raise AttributeError(name)
        if self._info(f, name)[2]:
            return self._call(name, (), {})
        return lambda *a, **k: self._call(name, a, k)

_CACHE = {}
def get(name):
    if name not in _CACHE:
        _CACHE[name] = type(name, (PyObj,), {"_name": name, "_sym": name != "PyKDT"})
    return _CACHE[name]
