"""Models of the numpy / pyo3 interop the python classes use."""
import numpy as np
from . import ctx as C, term as T, mir
from .term import *
from .ctx import *
from .interp import *
from .models_std import ListIt, It, STOP, items, into_it, CONV

class RustErr(ValueError):
    """an Err the extension returned to python"""

class NpArr:
    """a borrowed numpy array"""
    byref = True
    def __init__(self, a):
        self.a = a

def nparr(v):
    v = deref(v)
    while isinstance(v, BoxV):
        v = deref(v.c[0])
    return v.a if isinstance(v, NpArr) else v

def obj_array(xs, shape=None):
    a = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        a[i] = x
    return a.reshape(shape) if shape is not None else a

@model("PyUntypedArrayMethods::shape")
def _(it, a, c):
    return SliceV(list(nparr(a[0]).shape))

@model("PyUntypedArrayMethods::is_c_contiguous")
def _(it, a, c):
    return bool(nparr(a[0]).flags["C_CONTIGUOUS"])

@model("PyUntypedArrayMethods::is_contiguous")
def _(it, a, c):
    f = nparr(a[0]).flags
    return bool(f["C_CONTIGUOUS"] or f["F_CONTIGUOUS"])

@model("PyUntypedArrayMethods::len")
def _(it, a, c):
    return int(nparr(a[0]).size)

@model("PyUntypedArrayMethods::is_empty")
def _(it, a, c):
    return nparr(a[0]).size == 0

@model("PyUntypedArrayMethods::ndim")
def _(it, a, c):
    return nparr(a[0]).ndim

@model("PyReadonlyArray::as_slice")
def _(it, a, c):
    x = nparr(a[0])
    if not (x.flags["C_CONTIGUOUS"] or x.flags["F_CONTIGUOUS"]):
        return Err(Opaque("NotContiguousError"))
    return Ok(SliceV(list(x.ravel(order="K"))))

@model("IntoPyArray::into_pyarray_bound", "IntoPyArray::into_pyarray")
def _(it, a, c):
    v = deref(a[0])
    if isinstance(v, (VecV, SliceV)):
        return NpArr(obj_array(items(v)))
    return NpArr(v.to_np())

@model("PyArrayMethods::reshape")
def _(it, a, c):
    x = nparr(a[0])
    d = deref(a[1])
    shape = [iconc(k) for k in (d.f if isinstance(d, StructV) else items(d))]
    n = 1
    for k in shape:
        n *= k
    if n != x.size:
        return Err(Opaque("PyErr(reshape)"))
    return Ok(NpArr(x.reshape(shape)))

@model("PyValueError::new_err")
def _(it, a, c):
    return StructV("PyErr", [a[0]])

CONV["PyErr"] = lambda it, v, c: v if isinstance(v, StructV) and v.name == "PyErr" else StructV("PyErr", [v])

class NumpyProxy:
    """numpy for the package's own modules while they are executed symbolically: the functions that have no object-array
    loop work elementwise, everything else is numpy's"""
    def __getattr__(self, k):
        return getattr(np, k)
    @staticmethod
    def _map(f, x):
        x = np.asarray(x)
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(x.shape):
            out[i] = f(x[i])
        return out
    @staticmethod
    def _nan(v):
        return v is NAN or (isinstance(v, float) and v != v)
    def isnan(self, x):
        x = np.asarray(x)
        if x.dtype != object:
            return np.isnan(x)
        return self._map(self._nan, x).astype(bool)
    def isfinite(self, x):
        x = np.asarray(x)
        if x.dtype != object:
            return np.isfinite(x)
        return self._map(lambda v: not isinstance(v, FSpec) and not (isinstance(v, float) and not np.isfinite(v)), x).astype(bool)
    def nan_to_num(self, x, nan=0.0, **k):
        x = np.asarray(x)
        if x.dtype != object:
            return np.nan_to_num(x, nan=nan, **k)
        def f(v):
            if self._nan(v):
                return fl(float(nan))
            if isinstance(v, FSpec):
                return fl(float(np.nan_to_num(np.inf if v is PINF else -np.inf)))
            return v
        return self._map(f, x)
