"""Models of the parts of std / num / itertools the crate calls."""
import re
from . import ctx as C, term as T, mir
from .term import *
from .ctx import *
from .interp import *
from .interp import CTX_branch
from fractions import Fraction

STOP = object()
CHARF = {}

# ------------------------------------------------------------------ iterators
class It:
    def next(self):
        raise NotImplementedError

    def next_back(self):
        raise Unsupported(f"next_back of {type(self).__name__}")

    def clone_sym(self):
        raise Unsupported(f"clone of {type(self).__name__}")

    def all(self):
        while True:
            x = self.next()
            if x is STOP:
                return
            yield x

    def size(self):
        raise Unsupported(f"len of {type(self).__name__}")

class ListIt(It):
    def __init__(self, items, i=0, j=None):
        self.x = items
        self.i = i
        self.j = len(items) if j is None else j

    def next(self):
        if self.i >= self.j:
            return STOP
        self.i += 1
        return self.x[self.i - 1]

    def next_back(self):
        if self.i >= self.j:
            return STOP
        self.j -= 1
        return self.x[self.j]

    def clone_sym(self):
        return ListIt(self.x, self.i, self.j)

    def size(self):
        return self.j - self.i

class RangeIt(It):
    def __init__(self, a, b, incl=False, ty="usize"):
        self.a, self.b = a, b
        if incl:
            self.b = b + 1 if isinstance(b, int) else SI(ipoly(b) + T.ONE, b.lo + 1, b.hi + 1)

    def next(self):
        if self.b is not None and not CTX_branch(ilt(self.a, self.b)):
            return STOP
        r = self.a
        self.a = self._add(self.a, 1)
        return r

    def next_back(self):
        if not CTX_branch(ilt(self.a, self.b)):
            return STOP
        self.b = self._add(self.b, -1)
        return self.b

    @staticmethod
    def _add(v, k):
        return v + k if isinstance(v, int) else si(ipoly(v) + Poly.const(k), v.lo + k, v.hi + k)

    def clone_sym(self):
        return RangeIt(self.a, self.b)

    def size(self):
        return max(0, iconc(self.b) - iconc(self.a))

class FnIt(It):
    def __init__(self, f):
        self.f = f

    def next(self):
        return self.f()

class MapIt(It):
    def __init__(self, it, f):
        self.it, self.f = it, f

    def next(self):
        x = self.it.next()
        return STOP if x is STOP else self.f(x)

    def next_back(self):
        x = self.it.next_back()
        return STOP if x is STOP else self.f(x)

    def clone_sym(self):
        return MapIt(self.it.clone_sym(), self.f)

    def size(self):
        return self.it.size()

class ZipIt(It):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def next(self):
        x = self.a.next()
        if x is STOP:
            return STOP
        y = self.b.next()
        if y is STOP:
            return STOP
        return tup(x, y)

    def next_back(self):
        n, m = self.a.size(), self.b.size()
        for _ in range(n - m):
            self.a.next_back()
        for _ in range(m - n):
            self.b.next_back()
        x = self.a.next_back()
        if x is STOP:
            return STOP
        return tup(x, self.b.next_back())

    def clone_sym(self):
        return ZipIt(self.a.clone_sym(), self.b.clone_sym())

    def size(self):
        return min(self.a.size(), self.b.size())

class EnumIt(It):
    def __init__(self, it):
        self.it, self.k = it, 0

    def next(self):
        x = self.it.next()
        if x is STOP:
            return STOP
        self.k += 1
        return tup(self.k - 1, x)

    def next_back(self):
        n = self.it.size()
        x = self.it.next_back()
        return STOP if x is STOP else tup(self.k + n - 1, x)

    def clone_sym(self):
        r = EnumIt(self.it.clone_sym())
        r.k = self.k
        return r

    def size(self):
        return self.it.size()

class RevIt(It):
    def __init__(self, it):
        self.it = it

    def next(self):
        return self.it.next_back()

    def next_back(self):
        return self.it.next()

    def clone_sym(self):
        return RevIt(self.it.clone_sym())

    def size(self):
        return self.it.size()

class ChainIt(It):
    def __init__(self, a, b):
        self.a, self.b = a, b
        self.done = False

    def next(self):
        if not self.done:
            x = self.a.next()
            if x is not STOP:
                return x
            self.done = True
        return self.b.next()

    def clone_sym(self):
        r = ChainIt(self.a.clone_sym(), self.b.clone_sym())
        r.done = self.done
        return r

    def size(self):
        return (0 if self.done else self.a.size()) + self.b.size()

class FilterIt(It):
    def __init__(self, it, f):
        self.it, self.f = it, f

    def next(self):
        while True:
            x = self.it.next()
            if x is STOP:
                return STOP
            if self.f(x):
                return x

    def next_back(self):
        while True:
            x = self.it.next_back()
            if x is STOP:
                return STOP
            if self.f(x):
                return x

    def clone_sym(self):
        return FilterIt(self.it.clone_sym(), self.f)

class FilterMapIt(It):
    def __init__(self, it, f):
        self.it, self.f = it, f

    def next(self):
        while True:
            x = self.it.next()
            if x is STOP:
                return STOP
            r = self.f(x)
            if r.var == "Some":
                return r.f[0]

    def clone_sym(self):
        return FilterMapIt(self.it.clone_sym(), self.f)

class FlatIt(It):
    def __init__(self, it):
        self.it, self.cur = it, None

    def next(self):
        while True:
            if self.cur is not None:
                x = self.cur.next()
                if x is not STOP:
                    return x
                self.cur = None
            y = self.it.next()
            if y is STOP:
                return STOP
            self.cur = into_it(y)

    def clone_sym(self):
        r = FlatIt(self.it.clone_sym())
        r.cur = self.cur.clone_sym() if self.cur is not None else None
        return r

class TakeIt(It):
    def __init__(self, it, n):
        self.it, self.n = it, n

    def next(self):
        if self.n <= 0:
            return STOP
        self.n -= 1
        return self.it.next()

    def clone_sym(self):
        return TakeIt(self.it.clone_sym(), self.n)

    def size(self):
        return min(self.n, self.it.size())

class SkipIt(It):
    def __init__(self, it, n):
        self.it, self.n = it, n

    def _skip(self):
        while self.n > 0:
            self.n -= 1
            if self.it.next() is STOP:
                return

    def next(self):
        self._skip()
        return self.it.next()

    def next_back(self):
        self._skip()
        return self.it.next_back()

    def clone_sym(self):
        return SkipIt(self.it.clone_sym(), self.n)

    def size(self):
        return max(0, self.it.size() - self.n)

class StepIt(It):
    def __init__(self, it, n):
        self.it, self.n, self.first = it, n, True

    def next(self):
        if self.first:
            self.first = False
            return self.it.next()
        for _ in range(self.n - 1):
            if self.it.next() is STOP:
                return STOP
        return self.it.next()

class WhileIt(It):
    def __init__(self, it, f, take):
        self.it, self.f, self.take, self.done = it, f, take, False

    def next(self):
        if self.take:
            if self.done:
                return STOP
            x = self.it.next()
            if x is STOP or not self.f(x):
                self.done = True
                return STOP
            return x
        while True:
            x = self.it.next()
            if x is STOP or self.done:
                return x
            if not self.f(x):
                self.done = True
                return x

class PeekIt(It):
    def __init__(self, it):
        self.it, self.buf = it, []

    def next(self):
        if self.buf:
            return self.buf.pop()
        return self.it.next()

    def peek(self):
        if not self.buf:
            self.buf.append(self.it.next())
        return self.buf[0]

class RepeatIt(It):
    def __init__(self, v):
        self.v = v

    def next(self):
        return clone(self.v)

    def clone_sym(self):
        return RepeatIt(self.v)

def opt(x):
    return None_() if x is STOP else Some(x)

def truth(v):
    return CTX_branch(v)

def into_it(v, by_ref=None):
    """IntoIterator for any container value; references yield references"""
    if isinstance(v, It):
        return v
    if isinstance(v, (Ref, BoxV)):
        w = deref(v)
        if isinstance(w, It):
            return w
        if isinstance(w, VecV):
            return ListIt([Ref(w.d, i) for i in range(len(w.d))]) if isinstance(v, Ref) else ListIt(w.d)
        if isinstance(w, SliceV):
            return ListIt([Ref(w.d, w.o + i) for i in range(w.n)])
        if hasattr(w, "iter_sym"):
            return w.iter_sym(True)
        if isinstance(w, (StructV, EnumV)):
            if isinstance(w, EnumV) and w.name == "Option":
                return ListIt([Ref(w.f, 0)] if w.var == "Some" else [])
            return range_it(w, v)
        raise Unsupported(f"into_iter of &{type(w).__name__}")
    if isinstance(v, VecV):
        return ListIt(list(v.d))
    if isinstance(v, SliceV):
        return ListIt([Ref(v.d, v.o + i) for i in range(v.n)])
    if isinstance(v, EnumV) and v.name == "Option":
        return ListIt(list(v.f))
    if isinstance(v, EnumV) and v.name == "Result":
        return ListIt(list(v.f) if v.var == "Ok" else [])
    if isinstance(v, StructV):
        return range_it(v)
    if hasattr(v, "iter_sym"):
        return v.iter_sym(False)
    raise Unsupported(f"into_iter of {type(v).__name__} {getattr(v,'name','')}")

def range_it(w, holder=None):
    if w.name == "Range":
        return RangeIt(w.f[0], w.f[1])
    if w.name == "RangeInclusive":
        return RangeIt(w.f[0], w.f[1], True)
    if w.name == "RangeFrom":
        return RangeIt(w.f[0], None)
    raise Unsupported("iterate " + w.name)

def self_it(args):
    """the iterator behind `&mut self` / `self`, converting ranges in place"""
    a = args[0]
    v = deref(a)
    if isinstance(v, It):
        return v
    it = into_it(v) if not (isinstance(v, (VecV, SliceV))) else into_it(a)
    # a range iterated through &mut: keep the state
    r = a
    while isinstance(r, Ref):
        if isinstance(r.o[r.k], (Ref, BoxV)):
            r = r.o[r.k]
        else:
            r.o[r.k] = it
            break
    return it

@model("Iterator::next", "Range::next", "StepBy::next")
def _(it, a, c):
    return opt(self_it(a).next())

@model("DoubleEndedIterator::next_back")
def _(it, a, c):
    return opt(self_it(a).next_back())

@model("IntoIterator::into_iter", "IntoParallelIterator::into_par_iter", "IntoParallelRefIterator::par_iter", "ParallelBridge::par_bridge", "Iterator::by_ref", "RangeInclusive::into_iter")
def _(it, a, c):
    return into_it(a[0])

@model("slice::iter", "slice::iter_mut", "Vec::iter", "array::iter", "array::into_iter", "Vec::into_iter", "Vec::iter_mut")
def _(it, a, c):
    v = deref(a[0])
    if isinstance(v, VecV):
        v = SliceV(v.d)
    return ListIt([Ref(v.d, v.o + i) for i in range(v.n)])

def fcall(it, f):
    return lambda *xs: it.call_value(f, list(xs))

def pcall(it, f):
    """predicate"""
    return lambda *xs: truth(it.call_value(f, list(xs)))

@model("Iterator::map", "ParallelIterator::map")
def _(it, a, c):
    return MapIt(self_it(a), fcall(it, a[1]))

@model("Iterator::filter", "ParallelIterator::filter")
def _(it, a, c):
    p = pcall(it, a[1])
    return FilterIt(self_it(a), lambda x: p(Ref([x], 0)))

@model("Iterator::filter_map", "ParallelIterator::filter_map")
def _(it, a, c):
    return FilterMapIt(self_it(a), fcall(it, a[1]))

@model("Iterator::flat_map", "ParallelIterator::flat_map", "ParallelIterator::flat_map_iter")
def _(it, a, c):
    return FlatIt(MapIt(self_it(a), fcall(it, a[1])))

@model("Iterator::flatten", "ParallelIterator::flatten")
def _(it, a, c):
    return FlatIt(self_it(a))

@model("Iterator::zip", "IndexedParallelIterator::zip", "iter::zip")
def _(it, a, c):
    return ZipIt(self_it(a[:1]), into_it(a[1]))

@model("Iterator::enumerate", "IndexedParallelIterator::enumerate")
def _(it, a, c):
    return EnumIt(self_it(a))

@model("Iterator::rev")
def _(it, a, c):
    return RevIt(self_it(a))

@model("Iterator::chain")
def _(it, a, c):
    return ChainIt(self_it(a[:1]), into_it(a[1]))

@model("Iterator::take")
def _(it, a, c):
    return TakeIt(self_it(a[:1]), iconc(a[1]))

@model("Iterator::skip")
def _(it, a, c):
    return SkipIt(self_it(a[:1]), iconc(a[1]))

@model("Iterator::step_by")
def _(it, a, c):
    return StepIt(self_it(a[:1]), iconc(a[1]))

@model("Iterator::take_while")
def _(it, a, c):
    p = pcall(it, a[1])
    return WhileIt(self_it(a[:1]), lambda x: p(Ref([x], 0)), True)

@model("Iterator::skip_while")
def _(it, a, c):
    p = pcall(it, a[1])
    return WhileIt(self_it(a[:1]), lambda x: p(Ref([x], 0)), False)

@model("Iterator::peekable")
def _(it, a, c):
    return PeekIt(self_it(a))

@model("Peekable::peek")
def _(it, a, c):
    x = deref(a[0]).peek()
    return None_() if x is STOP else Some(Ref([x], 0))

@model("Iterator::scan")
def _(it, a, c):
    src = self_it(a[:1])
    st = [a[1]]
    def nx():
        x = src.next()
        if x is STOP:
            return STOP
        r = it.call_value(a[2], [Ref(st, 0), x])
        return r.f[0] if r.var == "Some" else STOP
    return FnIt(nx)

@model("Iterator::inspect")
def _(it, a, c):
    def g(x):
        it.call_value(a[1], [Ref([x], 0)])
        return x
    return MapIt(self_it(a), g)

@model("Iterator::copied", "Iterator::cloned", "ParallelIterator::copied", "ParallelIterator::cloned")
def _(it, a, c):
    return MapIt(self_it(a), lambda x: clone(deref(x)))

@model("iter::repeat")
def _(it, a, c):
    return RepeatIt(a[0])

@model("iter::repeat_n")
def _(it, a, c):
    return TakeIt(RepeatIt(a[0]), iconc(a[1]))

@model("iter::once")
def _(it, a, c):
    return ListIt([a[0]])

@model("iter::from_fn")
def _(it, a, c):
    def nx():
        r = it.call_value(a[0], [])
        return r.f[0] if r.var == "Some" else STOP
    return FnIt(nx)

@model("iter::successors")
def _(it, a, c):
    st = [a[0]]
    def nx():
        cur = st[0]
        if cur.var == "None":
            return STOP
        st[0] = it.call_value(a[1], [Ref(cur.f, 0)])
        return cur.f[0]
    return FnIt(nx)

@model("Iterator::fold")
def _(it, a, c):
    acc = a[1]
    for x in self_it(a[:1]).all():
        acc = it.call_value(a[2], [acc, x])
    return acc

@model("Iterator::for_each", "ParallelIterator::for_each")
def _(it, a, c):
    for x in self_it(a[:1]).all():
        it.call_value(a[1], [x])
    return UNIT

@model("Iterator::try_for_each", "ParallelIterator::try_for_each")
def _(it, a, c):
    for x in self_it(a[:1]).all():
        r = it.call_value(a[1], [x])
        if isinstance(r, EnumV) and r.var in ("Err", "None"):
            return r
    return Ok(UNIT)

def lit_zero(dty, x=None):
    if dty and (dty in T.RANGES):
        return 0
    return ZERO

def val_add(it, x, y, ty=None):
    x, y = deref(x), deref(y)
    if is_float(x) or is_float(y):
        return fadd(fl(x), fl(y))
    return iadd(x, y, ty if ty in T.RANGES else "i64")

def val_mul(it, x, y, ty=None):
    x, y = deref(x), deref(y)
    if is_float(x) or is_float(y):
        return fmul(fl(x), fl(y))
    return imul(x, y, ty if ty in T.RANGES else "i64")

@model("Iterator::sum", "ParallelIterator::sum", "Sum::sum")
def _(it, a, c):
    xs = list(self_it(a[:1]).all())
    ty = (c.path.gens[-1] if c.path.gens else c.dty)
    ty = c.env.get(ty, ty)
    if c.dty in T.RANGES:
        ty = c.dty
    acc = None
    for x in xs:
        acc = deref(x) if acc is None else chk_add(it, acc, x, ty)
    if acc is None:
        return lit_zero(ty)
    return acc

def chk_add(it, x, y, ty):
    """the crate is built without overflow checks: integer sums wrap"""
    x, y = deref(x), deref(y)
    if is_float(x) or is_float(y):
        return fadd(fl(x), fl(y))
    return iadd(x, y, ty if ty in T.RANGES else "i128")

@model("Iterator::product")
def _(it, a, c):
    ty = (c.path.gens[-1] if c.path.gens else c.dty)
    acc = None
    for x in self_it(a[:1]).all():
        acc = deref(x) if acc is None else val_mul(it, acc, x, ty)
    return acc if acc is not None else (1 if ty in T.RANGES else ONE)

@model("Iterator::count", "ParallelIterator::count")
def _(it, a, c):
    return sum(1 for _ in self_it(a).all())

@model("Iterator::last")
def _(it, a, c):
    r = STOP
    for x in self_it(a).all():
        r = x
    return opt(r)

@model("Iterator::nth")
def _(it, a, c):
    n = iconc(a[1])
    s = self_it(a[:1])
    for _ in range(n):
        if s.next() is STOP:
            return None_()
    return opt(s.next())

@model("Iterator::any", "ParallelIterator::any")
def _(it, a, c):
    p = pcall(it, a[1])
    for x in self_it(a[:1]).all():
        if p(x):
            return True
    return False

@model("Iterator::all", "ParallelIterator::all")
def _(it, a, c):
    p = pcall(it, a[1])
    for x in self_it(a[:1]).all():
        if not p(x):
            return False
    return True

@model("Iterator::find")
def _(it, a, c):
    p = pcall(it, a[1])
    for x in self_it(a[:1]).all():
        if p(Ref([x], 0)):
            return Some(x)
    return None_()

@model("Iterator::find_map")
def _(it, a, c):
    for x in self_it(a[:1]).all():
        r = it.call_value(a[1], [x])
        if r.var == "Some":
            return r
    return None_()

@model("Iterator::position")
def _(it, a, c):
    p = pcall(it, a[1])
    for i, x in enumerate(self_it(a[:1]).all()):
        if p(x):
            return Some(i)
    return None_()

@model("ExactSizeIterator::len", "Iterator::len")
def _(it, a, c):
    return self_it(a).size()

@model("Iterator::size_hint")
def _(it, a, c):
    n = self_it(a).size()
    return tup(n, Some(n))

def pcmp(it, x, y):
    """total order: -1, 0, 1"""
    r = cmp_values(it, x, y)
    return STD_DISC[r.var]

def cmp_values(it, x, y):
    x, y = deref(x), deref(y)
    if is_float(x) and is_float(y):
        if x is NAN or y is NAN:
            return EnumV("Ordering", "Greater", [])
        return ordering(it, x, y)
    if isinstance(x, (int, SI, bool, SBool)):
        return ordering(it, x, y)
    if isinstance(x, StrV):
        return cmp_lists(it, x.c, y.c)
    if isinstance(x, (VecV, SliceV)):
        return cmp_lists(it, items(x), items(y))
    if isinstance(x, StructV) and x.name == "tuple":
        return cmp_lists(it, x.f, y.f)
    if isinstance(x, StructV):
        c = it.prog.trait_impls.get(("Ord", "cmp")) or []
        for ty, f in c:
            if mir.base_name(ty) == x.name:
                return it.run(f, [Ref([x], 0), Ref([y], 0)], {})
        c = it.prog.trait_impls.get(("PartialOrd", "partial_cmp")) or []
        for ty, f in c:
            if mir.base_name(ty) == x.name:
                r = it.run(f, [Ref([x], 0), Ref([y], 0)], {})
                return r.f[0] if r.var == "Some" else EnumV("Ordering", "Greater", [])
    if isinstance(x, EnumV):
        if x.name == "Option":
            if x.var == "None" or y.var == "None":
                a, b = STD_DISC[x.var], STD_DISC[y.var]
                return ordering(it, a, b)
            return cmp_values(it, x.f[0], y.f[0])
    raise Unsupported(f"cmp of {type(x).__name__}")

def cmp_lists(it, xs, ys):
    for p, q in zip(xs, ys):
        r = cmp_values(it, p, q)
        if r.var != "Equal":
            return r
    return ordering(it, len(xs), len(ys))

def items(v):
    v = deref(v)
    if isinstance(v, VecV):
        return v.d
    if isinstance(v, SliceV):
        return v.items()
    if isinstance(v, StrV):
        return v.c
    raise Unsupported(f"items of {type(v).__name__}")

@model("Iterator::max", "Iterator::min")
def _(it, a, c):
    best = STOP
    mx = c.key.endswith("max")
    for x in self_it(a[:1]).all():
        if best is STOP:
            best = x
        else:
            k = pcmp(it, best, x)
            if (mx and k <= 0) or (not mx and k > 0):
                best = x
    return opt(best)

@model("Iterator::max_by", "Iterator::min_by")
def _(it, a, c):
    best = STOP
    mx = c.key.endswith("max_by")
    for x in self_it(a[:1]).all():
        if best is STOP:
            best = x
        else:
            k = STD_DISC[it.call_value(a[1], [Ref([best], 0), Ref([x], 0)]).var]
            if (mx and k <= 0) or (not mx and k > 0):
                best = x
    return opt(best)

@model("Iterator::max_by_key", "Iterator::min_by_key")
def _(it, a, c):
    best = STOP
    bk = None
    mx = c.key.endswith("max_by_key")
    for x in self_it(a[:1]).all():
        kx = it.call_value(a[1], [Ref([x], 0)])
        if best is STOP:
            best, bk = x, kx
        else:
            k = pcmp(it, bk, kx)
            if (mx and k <= 0) or (not mx and k > 0):
                best, bk = x, kx
    return opt(best)

@model("Iterator::reduce")
def _(it, a, c):
    acc = STOP
    for x in self_it(a[:1]).all():
        acc = x if acc is STOP else it.call_value(a[1], [acc, x])
    return opt(acc)

@model("ParallelIterator::reduce")
def _(it, a, c):
    acc = it.call_value(a[1], [])
    for x in self_it(a[:1]).all():
        acc = it.call_value(a[2], [acc, x])
    return acc

@model("Iterator::unzip", "ParallelIterator::unzip")
def _(it, a, c):
    xs, ys = [], []
    for p in self_it(a[:1]).all():
        xs.append(p.f[0])
        ys.append(p.f[1])
    return tup(VecV(xs), VecV(ys))

@model("Iterator::partition")
def _(it, a, c):
    xs, ys = [], []
    p = pcall(it, a[1])
    for x in self_it(a[:1]).all():
        (xs if p(Ref([x], 0)) else ys).append(x)
    return tup(VecV(xs), VecV(ys))

COLLECT = {}

def collect(it, src, ty):
    ty = ty or "?"
    b = mir.base_name(ty)
    if b in ("Result", "Option"):
        inner = mir.split_top(ty[ty.index("<") + 1:ty.rindex(">")])[0]
        out = []
        for x in src.all():
            if x.var in ("Err", "None"):
                return EnumV(b, x.var, list(x.f))
            out.append(x.f[0])
        r = collect(it, ListIt(out), inner)
        return Ok(r) if b == "Result" else Some(r)
    if b == "HashSet":
        s = SetV()
        for x in src.all():
            s.insert(it, x)
        return s
    if b == "HashMap" or b == "BTreeMap":
        s = MapV()
        for p in src.all():
            s.put(it, p.f[0], p.f[1])
        return s
    if b == "String":
        out = []
        for x in src.all():
            x = deref(x)
            if isinstance(x, StrV):
                out.extend(x.c)
            else:
                out.append(x)
        return StrV(out)
    if b in COLLECT:
        return COLLECT[b](it, src, ty)
    if b in ("Vec", "VecDeque", "SmallVec", "?", "_", "slice") or b == "Box":
        return VecV(list(src.all()))
    if ty.startswith("("):
        ps = mir.split_top(ty.strip()[1:-1])
        if len(ps) == 2:
            xs = list(src.all())
            return tup(collect(it, ListIt([x.f[0] for x in xs]), ps[0].strip()), collect(it, ListIt([x.f[1] for x in xs]), ps[1].strip()))
    raise Unsupported(f"collect into {ty}")

def coll_ty(c):
    ty = c.path.gens[-1] if c.path.gens else c.dty
    ty = c.env.get(ty, ty)
    if (ty in (None, "_") or "_" == ty) and c.dty:
        ty = c.dty
    if ty and c.env and "<" in ty:
        ty = re.sub(r"(?<![\w:])[A-Z]\w*(?![\w:])", lambda m: c.env[m[0]] if isinstance(c.env.get(m[0]), str) else m[0], ty)
    return ty

@model("Iterator::collect", "ParallelIterator::collect", "Iterator::collect_trusted", "PolarsIterator::collect_trusted", "CollectTrusted::collect_trusted")
def _(it, a, c):
    return collect(it, self_it(a), coll_ty(c))

@model("Itertools::collect_vec")
def _(it, a, c):
    return VecV(list(self_it(a).all()))

@model("FromIterator::from_iter")
def _(it, a, c):
    return collect(it, into_it(a[0]), c.path.qself)

@model("IndexedParallelIterator::collect_into_vec")
def _(it, a, c):
    deref(a[1]).d[:] = list(self_it(a[:1]).all())
    return UNIT

@model("Extend::extend", "Vec::extend")
def _(it, a, c):
    v = deref(a[0])
    for x in into_it(a[1]).all():
        if isinstance(v, VecV):
            v.d.append(clone(deref(x)) if isinstance(x, Ref) and "&" in str(c.path.trait) else x)
        elif isinstance(v, StrV):
            x = deref(x)
            v.c.extend(x.c if isinstance(x, StrV) else [x])
        elif isinstance(v, SetV):
            v.insert(it, x)
        else:
            raise Unsupported("extend")
    return UNIT

@model("Itertools::combinations")
def _(it, a, c):
    import itertools
    xs = list(self_it(a[:1]).all())
    return ListIt([VecV([clone(y) for y in t]) for t in itertools.combinations(xs, iconc(a[1]))])

@model("Itertools::cartesian_product")
def _(it, a, c):
    xs = list(self_it(a[:1]).all())
    ys = list(into_it(a[1]).all())
    return ListIt([tup(x, y) for x in xs for y in ys])

@model("Itertools::join")
def _(it, a, c):
    out = []
    sep = deref(a[1]).c
    for i, x in enumerate(self_it(a[:1]).all()):
        if i:
            out.extend(sep)
        out.extend(deref(x).c)
    return StrV(out)

# ------------------------------------------------------------------ Vec / slices
@model("Vec::new", "Vec::with_capacity", "prelude::default")
def _(it, a, c):
    return VecV([])

@model("vec::from_elem", "from_elem")
def _(it, a, c):
    return VecV([clone(a[0]) for _ in range(iconc(a[1]))])

@model("slice::into_vec", "Vec::into_boxed_slice")
def _(it, a, c):
    v = deref(a[0])
    return VecV(list(v.d)) if isinstance(v, VecV) else VecV(v.items())

@model("alloc::exchange_malloc", "boxed::box_new", "Box::new")
def _(it, a, c):
    if c.key == "alloc::exchange_malloc":
        return BoxV(None)
    return BoxV(a[0])

@model("Vec::push")
def _(it, a, c):
    deref(a[0]).d.append(a[1])
    return UNIT

@model("Vec::pop")
def _(it, a, c):
    d = deref(a[0]).d
    return Some(d.pop()) if d else None_()

@model("Vec::len", "slice::len", "array::len", "VecDeque::len")
def _(it, a, c):
    return it.length(a[0])

@model("Vec::is_empty", "slice::is_empty", "str::is_empty", "String::is_empty")
def _(it, a, c):
    return it.length(a[0]) == 0

@model("Vec::clear", "String::clear")
def _(it, a, c):
    v = deref(a[0])
    (v.d if isinstance(v, VecV) else v.c).clear()
    return UNIT

@model("Vec::insert")
def _(it, a, c):
    d = deref(a[0]).d
    i = iconc(a[1])
    if i > len(d):
        raise PathPanic("insert index")
    d.insert(i, a[2])
    return UNIT

@model("Vec::remove")
def _(it, a, c):
    d = deref(a[0]).d
    i = iconc(a[1])
    if i >= len(d):
        raise PathPanic("remove index")
    return d.pop(i)

@model("Vec::swap_remove")
def _(it, a, c):
    d = deref(a[0]).d
    i = iconc(a[1])
    if i >= len(d):
        raise PathPanic("swap_remove index")
    r = d[i]
    d[i] = d[-1]
    d.pop()
    return r

@model("Vec::truncate")
def _(it, a, c):
    d = deref(a[0]).d
    del d[iconc(a[1]):]
    return UNIT

@model("Vec::resize")
def _(it, a, c):
    d = deref(a[0]).d
    n = iconc(a[1])
    del d[n:]
    while len(d) < n:
        d.append(clone(a[2]))
    return UNIT

@model("Vec::set_len", "Vec::shrink_to_fit", "Vec::reserve", "drop::drop", "mem::drop", "Drop::drop", "DataFrame::shrink_to_fit", "mem::forget")
def _(it, a, c):
    return UNIT

@model("Vec::split_off")
def _(it, a, c):
    d = deref(a[0]).d
    n = iconc(a[1])
    if n > len(d):
        raise PathPanic("split_off")
    r = d[n:]
    del d[n:]
    return VecV(r)

@model("Vec::extend_from_slice")
def _(it, a, c):
    deref(a[0]).d.extend(clone(x) for x in items(a[1]))
    return UNIT

@model("Vec::append")
def _(it, a, c):
    o = deref(a[1]).d
    deref(a[0]).d.extend(o)
    o.clear()
    return UNIT

@model("Vec::retain")
def _(it, a, c):
    v = deref(a[0])
    p = pcall(it, a[1])
    v.d[:] = [x for x in list(v.d) if p(Ref([x], 0))]
    return UNIT

@model("Vec::drain")
def _(it, a, c):
    v = deref(a[0])
    s, e = rng(a[1], len(v.d))
    r = v.d[s:e]
    del v.d[s:e]
    return ListIt(r)

@model("Vec::dedup")
def _(it, a, c):
    v = deref(a[0])
    out = []
    for x in v.d:
        if not out or not truth(val_eq(it, out[-1], x)):
            out.append(x)
    v.d[:] = out
    return UNIT

@model("Vec::dedup_by_key")
def _(it, a, c):
    v = deref(a[0])
    out = []
    lk = None
    for x in v.d:
        k = it.call_value(a[1], [Ref([x], 0)])
        if not out or not truth(val_eq(it, lk, k)):
            out.append(x)
            lk = k
    v.d[:] = out
    return UNIT

@model("slice::to_vec", "slice::to_owned", "ToOwned::to_owned", "slice::into_owned", "Cow::into_owned", "Cow::to_mut")
def _(it, a, c):
    v = deref(a[0])
    if isinstance(v, EnumV) and v.var in ("Borrowed", "Owned"):
        v = deref(v.f[0])
    if isinstance(v, StrV):
        return StrV(list(v.c))
    if isinstance(v, (VecV, SliceV)):
        return VecV([clone(x) for x in items(v)])
    return clone(v)

@model("Vec::as_slice", "Vec::as_mut_slice", "slice::as_ref", "slice::as_slice", "Vec::as_ptr", "array::as_slice", "Array::as_slice")
def _(it, a, c):
    v = deref(a[0])
    return SliceV(v.d) if isinstance(v, VecV) else v

def rng(r, n):
    r = deref(r)
    k = r.name
    if k == "Range":
        s, e = iconc(r.f[0]), iconc(r.f[1])
    elif k == "RangeFrom":
        s, e = iconc(r.f[0]), n
    elif k == "RangeTo":
        s, e = 0, iconc(r.f[0])
    elif k == "RangeFull":
        s, e = 0, n
    elif k == "RangeInclusive":
        s, e = iconc(r.f[0]), iconc(r.f[1]) + 1
    elif k == "RangeToInclusive":
        s, e = 0, iconc(r.f[0]) + 1
    else:
        raise Unsupported("range " + k)
    if s > e or e > n:
        raise PathPanic("slice index out of range")
    return s, e

@model("RangeInclusive::new")
def _(it, a, c):
    return StructV("RangeInclusive", [a[0], a[1], False])

@model("RangeInclusive::contains", "Range::contains", "RangeBounds::contains")
def _(it, a, c):
    r = deref(a[0])
    x = deref(a[1])
    lo = it.compare("Ge", x, r.f[0])
    hi = it.compare("Le" if "Inclusive" in r.name else "Lt", x, r.f[1])
    return band(lo, hi)

@model("Index::index", "IndexMut::index_mut")
def _(it, a, c):
    v = deref(a[0])
    i = a[1]
    if isinstance(i, (int, SI)):
        d, o, n = (v.d, 0, len(v.d)) if isinstance(v, VecV) else (v.d, v.o, v.n) if isinstance(v, SliceV) else (None, 0, 0)
        if d is None:
            if hasattr(v, "index_sym"):
                return v.index_sym(it, i)
            raise Unsupported(f"index of {type(v).__name__}")
        if isinstance(i, SI):
            if CTX_branch(bor(ilt(i, 0), bnot(ilt(i, n)))):
                raise PathPanic("index out of bounds")
            i = iconc(SI(i.p, max(0, i.lo), min(i.hi, n - 1)) if not i.p.is_const() else i)
        if i < 0 or i >= n:
            raise PathPanic("index out of bounds")
        return Ref(d, o + i)
    if hasattr(v, "index_sym"):
        return v.index_sym(it, i)
    if isinstance(v, StrV):
        return str_slice(v, i)
    if isinstance(v, (VecV, SliceV)):
        n = it.length(v)
        s, e = rng(i, n)
        if isinstance(v, VecV):
            return SliceV(v.d, s, e - s)
        return SliceV(v.d, v.o + s, e - s)
    raise Unsupported(f"index of {type(v).__name__} by {i}")

@model("slice::get", "slice::get_mut", "Vec::get", "slice::get_unchecked", "slice::get_unchecked_mut")
def _(it, a, c):
    v = deref(a[0])
    v = SliceV(v.d) if isinstance(v, VecV) else v
    if isinstance(a[1], StructV):
        try:
            s, e = rng(a[1], v.n)
        except PathPanic:
            return None_()
        return Some(SliceV(v.d, v.o + s, e - s))
    i = a[1]
    if isinstance(i, SI):
        if CTX_branch(bnot(ilt(i, v.n))):
            return None_()
        i = iconc(i)
    ok = i < v.n
    if "unchecked" in c.key:
        if not ok:
            raise PathPanic("out of bounds unchecked access")
        return Ref(v.d, v.o + i)
    return Some(Ref(v.d, v.o + i)) if ok else None_()

@model("slice::first", "slice::last", "slice::first_mut", "slice::last_mut")
def _(it, a, c):
    v = deref(a[0])
    v = SliceV(v.d) if isinstance(v, VecV) else v
    if not v.n:
        return None_()
    return Some(Ref(v.d, v.o if "first" in c.key else v.o + v.n - 1))

@model("slice::split_at", "slice::split_at_mut")
def _(it, a, c):
    v = deref(a[0])
    v = SliceV(v.d) if isinstance(v, VecV) else v
    k = iconc(a[1])
    if k > v.n:
        raise PathPanic("split_at")
    return tup(SliceV(v.d, v.o, k), SliceV(v.d, v.o + k, v.n - k))

@model("slice::chunks_exact", "slice::chunks", "ParallelSlice::par_chunks", "ParallelSlice::par_chunks_exact", "slice::chunks_exact_mut", "slice::chunks_mut")
def _(it, a, c):
    v = deref(a[0])
    v = SliceV(v.d) if isinstance(v, VecV) else v
    k = iconc(a[1])
    if k == 0:
        raise PathPanic("chunk size zero")
    out = []
    for s in range(0, v.n, k):
        n = min(k, v.n - s)
        if n < k and "exact" in c.key:
            break
        out.append(SliceV(v.d, v.o + s, n))
    return ListIt(out)

@model("slice::windows", "ParallelSlice::par_windows")
def _(it, a, c):
    v = deref(a[0])
    v = SliceV(v.d) if isinstance(v, VecV) else v
    k = iconc(a[1])
    if k == 0:
        raise PathPanic("window size zero")
    return ListIt([SliceV(v.d, v.o + s, k) for s in range(0, v.n - k + 1)])

@model("slice::reverse")
def _(it, a, c):
    v = deref(a[0])
    v = SliceV(v.d) if isinstance(v, VecV) else v
    v.d[v.o:v.o + v.n] = v.items()[::-1]
    return UNIT

@model("slice::swap")
def _(it, a, c):
    v = deref(a[0])
    v = SliceV(v.d) if isinstance(v, VecV) else v
    i, j = iconc(a[1]), iconc(a[2])
    v.d[v.o + i], v.d[v.o + j] = v.d[v.o + j], v.d[v.o + i]
    return UNIT

@model("slice::copy_from_slice", "slice::clone_from_slice")
def _(it, a, c):
    v = deref(a[0])
    v = SliceV(v.d) if isinstance(v, VecV) else v
    s = items(a[1])
    if len(s) != v.n:
        raise PathPanic("copy_from_slice length")
    for i, x in enumerate(s):
        v.d[v.o + i] = clone(x)
    return UNIT

@model("slice::fill")
def _(it, a, c):
    v = deref(a[0])
    v = SliceV(v.d) if isinstance(v, VecV) else v
    for i in range(v.n):
        v.d[v.o + i] = clone(a[1])
    return UNIT

@model("slice::contains")
def _(it, a, c):
    for x in items(a[0]):
        if truth(val_eq(it, x, a[1])):
            return True
    return False

@model("slice::concat")
def _(it, a, c):
    out = []
    strs = False
    for x in items(a[0]):
        x = deref(x)
        if isinstance(x, StrV):
            strs = True
            out.extend(x.c)
        else:
            out.extend(clone(y) for y in items(x))
    return StrV(out) if strs else VecV(out)

def merge_sort(xs, less_eq):
    """stable sort; less_eq(a,b) may fork"""
    if len(xs) <= 1:
        return xs
    out = []
    for x in xs:
        i = len(out)
        while i > 0 and not less_eq(out[i - 1], x):
            i -= 1
        out.insert(i, x)
    return out

def sort_in_place(a, le):
    v = deref(a)
    v = SliceV(v.d) if isinstance(v, VecV) else v
    v.d[v.o:v.o + v.n] = merge_sort(v.items(), le)
    return UNIT

@model("slice::sort_unstable_by", "slice::sort_by", "ParallelSliceMut::par_sort_by", "ParallelSliceMut::par_sort_unstable_by")
def _(it, a, c):
    return sort_in_place(a[0], lambda x, y: it.call_value(a[1], [Ref([x], 0), Ref([y], 0)]).var != "Greater")

@model("slice::sort_unstable_by_key", "slice::sort_by_key", "slice::sort_by_cached_key")
def _(it, a, c):
    return sort_in_place(a[0], lambda x, y: pcmp(it, it.call_value(a[1], [Ref([x], 0)]), it.call_value(a[1], [Ref([y], 0)])) <= 0)

@model("slice::sort_unstable", "slice::sort")
def _(it, a, c):
    return sort_in_place(a[0], lambda x, y: pcmp(it, x, y) <= 0)

@model("slice::select_nth_unstable_by")
def _(it, a, c):
    sort_in_place(a[0], lambda x, y: it.call_value(a[2], [Ref([x], 0), Ref([y], 0)]).var != "Greater")
    v = deref(a[0])
    v = SliceV(v.d) if isinstance(v, VecV) else v
    k = iconc(a[1])
    if k >= v.n:
        raise PathPanic("select_nth out of range")
    return tup(SliceV(v.d, v.o, k), Ref(v.d, v.o + k), SliceV(v.d, v.o + k + 1, v.n - k - 1))

@model("slice::partition_point")
def _(it, a, c):
    v = deref(a[0])
    v = SliceV(v.d) if isinstance(v, VecV) else v
    lo, hi = 0, v.n
    while lo < hi:
        m = (lo + hi) // 2
        if truth(it.call_value(a[1], [Ref(v.d, v.o + m)])):
            lo = m + 1
        else:
            hi = m
    return lo

@model("slice::binary_search", "slice::binary_search_by", "slice::binary_search_by_key")
def _(it, a, c):
    v = deref(a[0])
    v = SliceV(v.d) if isinstance(v, VecV) else v
    lo, hi = 0, v.n
    while lo < hi:
        m = (lo + hi) // 2
        r = Ref(v.d, v.o + m)
        if c.key.endswith("_by"):
            o = it.call_value(a[1], [r])
        elif c.key.endswith("_key"):
            o = cmp_values(it, it.call_value(a[2], [r]), a[1])
        else:
            o = cmp_values(it, r, a[1])
        if o.var == "Equal":
            return Ok(m)
        if o.var == "Less":
            lo = m + 1
        else:
            hi = m
    return Err(lo)

# ------------------------------------------------------------------ smart pointers, conversions
@model("Deref::deref", "DerefMut::deref_mut", "AsRef::as_ref", "AsMut::as_mut", "Borrow::borrow", "String::as_str", "String::as_ref", "Cow::as_ref", "Box::as_ref", "str::as_ref", "Arc::as_ref", "PlSmallStr::as_str", "String::as_mut_str", "PyBackedStr::as_ref")
def _(it, a, c):
    v = deref(a[0])
    if isinstance(v, EnumV) and v.var in ("Borrowed", "Owned"):
        v = deref(v.f[0])
    if isinstance(v, VecV):
        return SliceV(v.d)
    if isinstance(v, (StructV, EnumV)) or hasattr(v, "byref"):
        return Ref([v], 0) if not isinstance(a[0], Ref) else last_ref(a[0])
    return v

def last_ref(r):
    while True:
        v = r.o[r.k]
        if isinstance(v, Ref):
            r = v
        elif isinstance(v, BoxV):
            r = Ref(v.c, 0)
        else:
            return r

@model("Clone::clone", "Option::cloned", "Option::copied", "Arc::clone")
def _(it, a, c):
    v = deref(a[0])
    if c.key.startswith("Option"):
        return EnumV("Option", v.var, [clone(deref(x)) for x in v.f])
    if isinstance(v, SliceV):
        return v
    return clone(v)

@model("Into::into", "From::from", "TryInto::try_into", "TryFrom::try_from")
def _(it, a, c):
    v = a[0]
    # conversions between crate types go through their From impls
    src, dst = None, None
    if c.key == "Into::into":
        m = c.path.trait
        dst = m[m.index("<") + 1:m.rindex(">")] if "<" in m else None
        src = c.path.qself
    elif c.key == "From::from":
        dst = c.path.qself
    elif c.key == "TryInto::try_into":
        m = c.path.trait
        dst = m[m.index("<") + 1:m.rindex(">")]
    else:
        dst = c.path.qself
    dst = c.env.get(dst, dst)
    db = mir.base_name(dst) if dst else "?"
    meth = "from" if c.key in ("Into::into", "From::from") else "try_from"
    tr = "From" if meth == "from" else "TryFrom"
    cands = [f for ty, f in it.prog.trait_impls.get((tr, meth), []) if mir.base_name(ty) == db]
    if cands:
        want = src
        if want is None and c.path.trait and "<" in c.path.trait:
            want = c.path.trait[c.path.trait.index("<") + 1:c.path.trait.rindex(">")]
        if want is not None:
            want = c.env.get(want, want)
            norm = lambda t: re.sub(r"&?'\w+\s*|\s|&", "", t)
            ex = [f for f in cands if norm(f.info.get("trait", "")[len(tr) + 1:-1]) == norm(want)]
            if not ex:
                ex = [f for f in cands if mir.base_name(f.info.get("trait", "")[len(tr) + 1:-1]) == mir.base_name(want) and not want.startswith("(")]
            if not ex and len(cands) == 1 and (want.startswith("(") or re.search(r"\b[A-Z]\b", f"{cands[0].info.get('trait')}")):
                ex = cands
            if not ex and db not in EXTERNAL:
                ex = cands
            cands = ex
        if cands:
            return it.run(cands[0], [v], {"T": "f64"})
    if meth == "try_from" and db in T.RANGES:
        x = deref(v)
        lo, hi = T.RANGES[db]
        ok = band(ile(lo, x), ile(x, hi))
        return Ok(x) if CTX_branch(ok) else Err(Opaque("TryFromIntError"))
    if meth == "try_from":
        w = deref(v)
        if isinstance(w, SliceV) or isinstance(w, VecV):
            return Ok(VecV(list(items(w)), True))
        return Ok(v)
    if db in ("f64", "f32"):
        x = deref(v)
        return fl(x) if not isinstance(x, SBool) else (ONE if CTX_branch(x) else ZERO)
    if db in T.RANGES and isinstance(deref(v), (bool, SBool)):
        return 1 if CTX_branch(deref(v)) else 0
    if db == "Option":
        return Some(v)
    if db == "Box" or db == "Arc" or db == "Rc":
        return BoxV(v) if not isinstance(deref(v), (StrV, SliceV)) else v
    if db in ("String", "PlSmallStr", "Cow", "str", "ErrString") and isinstance(deref(v), StrV):
        return StrV(list(deref(v).c)) if db != "Cow" else EnumV("Cow", "Borrowed", [deref(v)])
    if db in ("Vec",) and isinstance(deref(v), (SliceV, VecV)):
        return VecV([clone(x) for x in items(v)])
    if db in CONV:
        return CONV[db](it, v, c)
    return v

CONV = {}
EXTERNAL = {"PyErr"}

@model("AsPrimitive::as_", "NumCast::from", "ToPrimitive::to_f64", "ToPrimitive::to_usize", "FromPrimitive::from_f64", "FromPrimitive::from_usize", "ToPrimitive::to_i64", "ToPrimitive::to_u32")
def _(it, a, c):
    v = deref(a[0])
    if c.key == "NumCast::from" or c.key.startswith("FromPrimitive"):
        return Some(fl(v))
    if c.key == "ToPrimitive::to_f64":
        return Some(fl(v))
    if c.key.startswith("ToPrimitive"):
        ty = c.key.rsplit("_", 1)[1]
        return Some(float_to_int(v, ty) if is_float(v) else v)
    return fl(v)

@model("ToString::to_string", "str::to_string", "str::to_owned", "String::clone", "str::into_string", "String::from", "str::to_string_lossy", "PlSmallStr::to_string", "PlSmallStr::from_str", "PlSmallStr::from_static", "PlSmallStr::from_string", "PlSmallStr::into_string")
def _(it, a, c):
    v = deref(a[0])
    if isinstance(v, StrV):
        return StrV(list(v.c))
    if isinstance(v, int):
        return StrV(str(v))
    if isinstance(v, Poly):
        return float_text(v)
    return StrV("?")

def float_text(v):
    """the decimal text of a finite float as far as its first significant digit; what follows is opaque"""
    if CTX_branch(cmp0(v, "eq0")):
        return StrV("0")
    sgn = []
    if CTX_branch(flt(v, T.ZERO)):
        v, sgn = fneg(v), [ord("-")]
    k = 0
    while CTX_branch(flt(v, fl(Fraction(10) ** k))):
        k -= 1
        if k < -5:
            raise Inconclusive("text of a float below 1e-5")
    while not CTX_branch(flt(v, fl(Fraction(10) ** (k + 1)))):
        k += 1
        if k > 6:
            raise Inconclusive("text of a float beyond 1e7")
    d = 1
    while d < 9 and not CTX_branch(flt(v, fl(Fraction(10) ** k * (d + 1)))):
        d += 1
    head = sgn + ([ord("0"), ord(".")] + [ord("0")] * (-k - 1) if k < 0 else []) + [48 + d]
    return StrV(head + [OpaqueTail()])

class OpaqueTail:
    """the remaining digits of a float"""

@model("mem::swap")
def _(it, a, c):
    x, y = last_ref(a[0]), last_ref(a[1])
    p, q = x.get(), y.get()
    x.set(q)
    y.set(p)
    return UNIT

@model("mem::take")
def _(it, a, c):
    x = last_ref(a[0])
    v = x.get()
    x.set(VecV([]) if isinstance(v, VecV) else StrV([]) if isinstance(v, StrV) else None_() if isinstance(v, EnumV) else SetV() if isinstance(v, SetV) else 0)
    return v

@model("mem::replace")
def _(it, a, c):
    x = last_ref(a[0])
    v = x.get()
    x.set(a[1])
    return v

@model("Default::default")
def _(it, a, c):
    ty = c.path.qself or c.dty
    b = mir.base_name(ty)
    if b == "bool":
        return False
    if b in T.RANGES:
        return 0
    if b in ("f64", "f32", "T"):
        return ZERO
    if b == "Vec":
        return VecV([])
    if b == "String":
        return StrV([])
    if b == "Option":
        return None_()
    if b == "HashSet":
        return SetV()
    if b == "HashMap":
        return MapV()
    return Opaque("default", ty)

# ------------------------------------------------------------------ Option / Result
@model("Try::branch")
def _(it, a, c):
    v = a[0]
    if v.var in ("Ok", "Some"):
        return EnumV("ControlFlow", "Continue", [v.f[0]])
    return EnumV("ControlFlow", "Break", [v])

@model("FromResidual::from_residual")
def _(it, a, c):
    v = a[0]
    if isinstance(v, EnumV) and v.var == "Err":
        return Err(v.f[0])
    if isinstance(v, EnumV) and v.var == "None":
        return None_()
    return v

@model("Option::unwrap", "Result::unwrap", "Option::expect", "Result::expect", "Option::unwrap_unchecked")
def _(it, a, c):
    v = a[0]
    if v.var in ("Some", "Ok"):
        return v.f[0]
    raise PathPanic(f"unwrap of {v.var} {v.f}")

@model("Option::unwrap_or", "Result::unwrap_or")
def _(it, a, c):
    return a[0].f[0] if a[0].var in ("Some", "Ok") else a[1]

@model("Option::unwrap_or_else", "Result::unwrap_or_else")
def _(it, a, c):
    return a[0].f[0] if a[0].var in ("Some", "Ok") else it.call_value(a[1], list(a[0].f))

@model("Option::unwrap_or_default", "Result::unwrap_or_default")
def _(it, a, c):
    if a[0].var in ("Some", "Ok"):
        return a[0].f[0]
    g = c.path.segs[-2][1] if len(c.path.segs) > 1 else []
    return 0 if c.dty in T.RANGES else StrV([]) if c.dty and "String" in c.dty or c.dty == "&str" else False if c.dty == "bool" else ZERO

@model("Option::is_some", "Result::is_ok")
def _(it, a, c):
    return deref(a[0]).var in ("Some", "Ok")

@model("Option::is_none", "Result::is_err")
def _(it, a, c):
    return deref(a[0]).var in ("None", "Err")

@model("Option::is_some_and", "Result::is_ok_and")
def _(it, a, c):
    return truth(it.call_value(a[1], [a[0].f[0]])) if a[0].var in ("Some", "Ok") else False

@model("Option::map", "Result::map")
def _(it, a, c):
    v = a[0]
    if v.var in ("Some", "Ok"):
        return EnumV(v.name, v.var, [it.call_value(a[1], [v.f[0]])])
    return v

@model("Result::map_err")
def _(it, a, c):
    v = a[0]
    return v if v.var == "Ok" else Err(it.call_value(a[1], [v.f[0]]) if not isinstance(a[1], FnItem) else v.f[0])

@model("Option::map_or", "Result::map_or")
def _(it, a, c):
    v = a[0]
    return it.call_value(a[2], [v.f[0]]) if v.var in ("Some", "Ok") else a[1]

@model("Option::map_or_else", "Result::map_or_else")
def _(it, a, c):
    v = a[0]
    return it.call_value(a[2], [v.f[0]]) if v.var in ("Some", "Ok") else it.call_value(a[1], list(v.f))

@model("Option::and_then", "Result::and_then")
def _(it, a, c):
    v = a[0]
    return it.call_value(a[1], [v.f[0]]) if v.var in ("Some", "Ok") else v

@model("Option::filter")
def _(it, a, c):
    v = a[0]
    return v if v.var == "Some" and truth(it.call_value(a[1], [Ref(v.f, 0)])) else None_()

@model("Option::or", "Result::or")
def _(it, a, c):
    return a[0] if a[0].var in ("Some", "Ok") else a[1]

@model("Option::or_else")
def _(it, a, c):
    return a[0] if a[0].var in ("Some", "Ok") else it.call_value(a[1], [])

@model("Option::zip")
def _(it, a, c):
    return Some(tup(a[0].f[0], a[1].f[0])) if a[0].var == a[1].var == "Some" else None_()

@model("Option::as_ref", "Option::as_mut", "Option::as_deref", "Result::as_ref", "Option::as_deref_mut")
def _(it, a, c):
    v = deref(a[0])
    if not v.f:
        return EnumV(v.name, v.var, [])
    if "deref" in c.key:
        w = deref(v.f[0])
        return EnumV(v.name, v.var, [SliceV(w.d) if isinstance(w, VecV) else w])
    return EnumV(v.name, v.var, [Ref(v.f, 0)])

@model("Option::take")
def _(it, a, c):
    r = last_ref(a[0])
    v = r.get()
    r.set(None_())
    return v

@model("Option::ok_or", "Option::ok_or_else")
def _(it, a, c):
    if a[0].var == "Some":
        return Ok(a[0].f[0])
    return Err(a[1] if c.key.endswith("or") else it.call_value(a[1], []))

@model("Result::ok")
def _(it, a, c):
    return Some(a[0].f[0]) if a[0].var == "Ok" else None_()

@model("Result::err")
def _(it, a, c):
    return Some(a[0].f[0]) if a[0].var == "Err" else None_()

@model("Option::insert", "Option::get_or_insert_with", "Option::get_or_insert")
def _(it, a, c):
    raise Unsupported(c.key)

# ------------------------------------------------------------------ comparison and arithmetic traits
def val_eq(it, x, y):
    x, y = deref(x), deref(y)
    if x is y and not is_float(x):
        return True
    if isinstance(x, (Poly, FSpec, int, SI, bool, SBool)) and isinstance(y, (Poly, FSpec, int, SI, bool, SBool)):
        return it.compare("Eq", x, y)
    if isinstance(x, StrV) or isinstance(y, StrV):
        return x.eq_sym(y) if isinstance(x, StrV) else y.eq_sym(x)
    if isinstance(x, (VecV, SliceV)):
        p, q = items(x), items(y)
        if len(p) != len(q):
            return False
        return band(*[val_eq(it, a, b) for a, b in zip(p, q)])
    if isinstance(x, EnumV) and isinstance(y, EnumV):
        if x.var != y.var:
            return False
        return band(True, *[val_eq(it, a, b) for a, b in zip(x.f, y.f)])
    if isinstance(x, StructV) and isinstance(y, StructV):
        if x.name != "tuple":
            for ty, f in it.prog.trait_impls.get(("PartialEq", "eq"), []):
                if mir.base_name(ty) == x.name:
                    return it.run(f, [Ref([x], 0), Ref([y], 0)], {})
        return band(True, *[val_eq(it, a, b) for a, b in zip(x.f, y.f)])
    if x == () and y == ():
        return True
    if hasattr(x, "eq_model"):
        return x.eq_model(y)
    raise Unsupported(f"eq of {type(x).__name__} and {type(y).__name__}")

@model("PartialEq::eq", "str::eq")
def _(it, a, c):
    return val_eq(it, a[0], a[1])

@model("PartialEq::ne")
def _(it, a, c):
    return bnot(val_eq(it, a[0], a[1]))

for _n, _o in (("lt", "Lt"), ("le", "Le"), ("gt", "Gt"), ("ge", "Ge")):
    def _mk(o):
        def f(it, a, c):
            x, y = deref(a[0]), deref(a[1])
            if isinstance(x, (StrV, StructV, EnumV, VecV, SliceV)):
                k = pcmp(it, x, y)
                return {"Lt": k < 0, "Le": k <= 0, "Gt": k > 0, "Ge": k >= 0}[o]
            return it.compare(o, x, y)
        return f
    MODELS[f"PartialOrd::{_n}"] = _mk(_o)

@model("PartialOrd::partial_cmp", "f64::partial_cmp")
def _(it, a, c):
    x, y = deref(a[0]), deref(a[1])
    if is_float(x) and (x is NAN or y is NAN):
        return None_()
    return Some(cmp_values(it, x, y))

@model("Ord::cmp", "f64::total_cmp", "f32::total_cmp", "TotalOrd::tot_cmp")
def _(it, a, c):
    x, y = deref(a[0]), deref(a[1])
    if is_float(x):
        if x is NAN or y is NAN:
            return EnumV("Ordering", "Equal" if x is y else "Greater" if x is NAN else "Less", [])
    return cmp_values(it, x, y)

@model("Ord::max", "cmp::max")
def _(it, a, c):
    return a[0] if pcmp(it, a[0], a[1]) > 0 else a[1]

@model("Ord::min", "cmp::min")
def _(it, a, c):
    return a[0] if pcmp(it, a[0], a[1]) <= 0 else a[1]

@model("Ord::clamp")
def _(it, a, c):
    if pcmp(it, a[0], a[1]) < 0:
        return a[1]
    return a[2] if pcmp(it, a[0], a[2]) > 0 else a[0]

@model("cmp::max_by", "cmp::min_by")
def _(it, a, c):
    k = STD_DISC[it.call_value(a[2], [Ref([a[0]], 0), Ref([a[1]], 0)]).var]
    if c.key.endswith("max_by"):
        return a[0] if k > 0 else a[1]
    return a[0] if k <= 0 else a[1]

@model("Ordering::reverse")
def _(it, a, c):
    return EnumV("Ordering", {"Less": "Greater", "Greater": "Less"}.get(a[0].var, "Equal"), [])

@model("Ordering::then_with")
def _(it, a, c):
    return a[0] if a[0].var != "Equal" else it.call_value(a[1], [])

@model("Ordering::then")
def _(it, a, c):
    return a[0] if a[0].var != "Equal" else a[1]

for _n, _vs in (("is_lt", ("Less",)), ("is_le", ("Less", "Equal")), ("is_gt", ("Greater",)), ("is_ge", ("Greater", "Equal")), ("is_eq", ("Equal",)), ("is_ne", ("Less", "Greater"))):
    MODELS[f"Ordering::{_n}"] = (lambda vs: lambda it, a, c: a[0].var in vs)(_vs)

ARITH = {}

def arith(op, it, x, y, c):
    x, y = deref(x), deref(y)
    for v in (x, y):
        h = getattr(v, "arith_sym", None)
        if h:
            return h(it, op, x, y)
    if is_float(x) or is_float(y):
        return FLOATOPS[op](fl(x), fl(y))
    ty = c.dty if c.dty in T.RANGES else mir.base_name(c.env.get(c.path.qself, c.path.qself) or "i64")
    ty = ty if ty in T.RANGES else "i64"
    return int_binop(op, x, y, ty)

for _n, _o in (("Add::add", "Add"), ("Sub::sub", "Sub"), ("Mul::mul", "Mul"), ("Div::div", "Div"), ("Rem::rem", "Rem")):
    MODELS[_n] = (lambda o: lambda it, a, c: arith(o, it, a[0], a[1], c))(_o)
for _n, _o in (("AddAssign::add_assign", "Add"), ("SubAssign::sub_assign", "Sub"), ("MulAssign::mul_assign", "Mul"), ("DivAssign::div_assign", "Div")):
    def _mk2(o):
        def f(it, a, c):
            r = last_ref(a[0])
            r.set(arith(o, it, r.get(), a[1], c))
            return UNIT
        return f
    MODELS[_n] = _mk2(_o)

@model("Neg::neg")
def _(it, a, c):
    v = deref(a[0])
    if hasattr(v, "neg_sym"):
        return v.neg_sym(it)
    return fneg(v) if is_float(v) else isub(0, v, c.dty if c.dty in T.RANGES else "i64")

@model("Not::not")
def _(it, a, c):
    v = deref(a[0])
    if hasattr(v, "not_sym"):
        return v.not_sym(it)
    return bnot(v)

@model("BitAnd::bitand", "BitOr::bitor")
def _(it, a, c):
    x, y = deref(a[0]), deref(a[1])
    for v in (x, y):
        if hasattr(v, "logic_sym"):
            return v.logic_sym(it, c.key.split("::")[0], x, y)
    return band(x, y) if c.key.startswith("BitAnd") else bor(x, y)

def gen_ty(c):
    t = c.path.qself or (c.path.segs[-2][0] if len(c.path.segs) > 1 else None)
    return c.env.get(t, t)

@model("Zero::zero")
def _(it, a, c):
    return 0 if gen_ty(c) in T.RANGES else ZERO

@model("One::one")
def _(it, a, c):
    return 1 if gen_ty(c) in T.RANGES else ONE

@model("Zero::is_zero")
def _(it, a, c):
    v = deref(a[0])
    return it.compare("Eq", v, ZERO if is_float(v) else 0)

@model("One::is_one")
def _(it, a, c):
    v = deref(a[0])
    return it.compare("Eq", v, ONE if is_float(v) else 1)

def fmodel(*names):
    """model for f64::x, f32::x and Float::x"""
    def deco(f):
        for n in names:
            for t in ("f64", "f32", "Float", "FloatCore", "Real", "Signed"):
                MODELS[f"{t}::{n}"] = f
        return f
    return deco

@fmodel("nan")
def _(it, a, c):
    return NAN

@fmodel("infinity", "max_value")
def _(it, a, c):
    if c.key.endswith("infinity"):
        return PINF
    t = gen_ty(c)
    return CONSTS[f"{t if t in ('f64', 'f32') else 'f64'}::MAX"]

@fmodel("neg_infinity", "min_value")
def _(it, a, c):
    if c.key.endswith("infinity"):
        return NINF
    t = gen_ty(c)
    return CONSTS[f"{t if t in ('f64', 'f32') else 'f64'}::MIN"]

@fmodel("epsilon")
def _(it, a, c):
    t = gen_ty(c)
    return CONSTS[f"{t if t in ('f64', 'f32') else 'f64'}::EPSILON"]

@fmodel("abs")
def _(it, a, c):
    v = deref(a[0])
    if is_float(v):
        return fabs(v)
    return isub(0, v, c.dty) if CTX_branch(ilt(v, 0)) else v

@fmodel("sqrt")
def _(it, a, c):
    return fsqrt(a[0])

@fmodel("ln")
def _(it, a, c):
    return fln(a[0])

@fmodel("log")
def _(it, a, c):
    return fdiv(fln(a[0]), fln(a[1]))

@fmodel("log2")
def _(it, a, c):
    return fdiv(fln(a[0]), fln(fl(2)))

@fmodel("log10")
def _(it, a, c):
    return fdiv(fln(a[0]), fln(fl(10)))

@fmodel("ln_1p")
def _(it, a, c):
    return fln(fadd(a[0], ONE))

@fmodel("exp")
def _(it, a, c):
    return fexp(a[0])

@fmodel("exp_m1")
def _(it, a, c):
    return fsub(fexp(a[0]), ONE)

@fmodel("exp2")
def _(it, a, c):
    v = a[0]
    if isinstance(v, FSpec):
        return NAN if v is NAN else PINF if v is PINF else ZERO
    if v.is_const() and v.cval().denominator == 1:
        return Poly.const(Fraction(2) ** int(v.cval()))
    return ffn("exp2", v)

@fmodel("powi")
def _(it, a, c):
    return fpowi(a[0], iconc(a[1]))

@fmodel("powf")
def _(it, a, c):
    return fpow(a[0], a[1])

@fmodel("max")
def _(it, a, c):
    return fmax(a[0], a[1])

@fmodel("min")
def _(it, a, c):
    return fmin(a[0], a[1])

@fmodel("clamp")
def _(it, a, c):
    x = a[0]
    if x is NAN:
        return NAN
    if CTX_branch(flt(x, a[1])):
        return a[1]
    return a[2] if CTX_branch(flt(a[2], x)) else x

@fmodel("floor")
def _(it, a, c):
    return ffloor(a[0])

@fmodel("ceil")
def _(it, a, c):
    return fneg(ffloor(fneg(a[0])))

@fmodel("trunc")
def _(it, a, c):
    return ftrunc(a[0])

@fmodel("fract")
def _(it, a, c):
    if isinstance(a[0], FSpec):
        return NAN
    return fsub(a[0], ftrunc(a[0]))

@fmodel("round")
def _(it, a, c):
    x = a[0]
    if isinstance(x, FSpec):
        return x
    if CTX_branch(flt(x, ZERO)):
        return fneg(ffloor(fadd(fneg(x), fl(0.5))))
    return ffloor(fadd(x, fl(0.5)))

@fmodel("recip")
def _(it, a, c):
    return fdiv(ONE, a[0])

@fmodel("mul_add")
def _(it, a, c):
    return fadd(fmul(a[0], a[1]), a[2])

@fmodel("signum")
def _(it, a, c):
    x = a[0]
    if x is NAN:
        return NAN
    if isinstance(x, FSpec):
        return ONE if x is PINF else fneg(ONE)
    s = C._sgn(x)
    return fneg(ONE) if s < 0 else ONE

@fmodel("is_nan")
def _(it, a, c):
    return deref(a[0]) is NAN

@fmodel("is_finite", "is_normal")
def _(it, a, c):
    return isinstance(deref(a[0]), Poly)

@fmodel("is_infinite")
def _(it, a, c):
    return deref(a[0]) in (PINF, NINF)

@fmodel("is_sign_negative")
def _(it, a, c):
    return it.compare("Lt", a[0], ZERO)

@fmodel("is_sign_positive")
def _(it, a, c):
    return it.compare("Ge", a[0], ZERO)

@fmodel("to_radians")
def _(it, a, c):
    import math
    return fmul(a[0], fl(math.pi / 180))

@fmodel("sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "cbrt", "gamma", "digamma")
def _(it, a, c):
    n = c.key.split("::")[1]
    if isinstance(a[0], FSpec):
        return NAN
    return ffn(n, a[0])

@fmodel("next_up", "next_down")
def _(it, a, c):
    if isinstance(a[0], FSpec):
        raise Unsupported("next_up of a special value")
    return ffn(c.key.split("::")[1], a[0])

@fmodel("atan2")
def _(it, a, c):
    if a[0] is NAN or a[1] is NAN:
        return NAN
    return ffn("atan2", a[0], a[1])

@model("array::map")
def _(it, a, c):
    return VecV([it.call_value(a[1], [x]) for x in deref(a[0]).d])

@fmodel("hypot")
def _(it, a, c):
    return fsqrt(fadd(fmul(a[0], a[0]), fmul(a[1], a[1])))

for _t in list(T.RANGES):
    def _reg(t):
        def mk(name):
            def deco(f):
                MODELS[f"{t}::{name}"] = f
                return f
            return deco

        @mk("abs_diff")
        def _(it, a, c):
            x, y = a
            return isub(y, x, "i128") if CTX_branch(ilt(x, y)) else isub(x, y, "i128")

        @mk("abs")
        def _(it, a, c):
            x = deref(a[0])
            if CTX_branch(ilt(x, 0)):
                if CTX_branch(ieq(x, T.RANGES[t][0])):
                    raise PathPanic("abs overflow")
                return isub(0, x, t)
            return x

        @mk("unsigned_abs")
        def _(it, a, c):
            x = deref(a[0])
            return isub(0, x, "i128") if CTX_branch(ilt(x, 0)) else x

        @mk("pow")
        def _(it, a, c):
            r = 1
            for _ in range(iconc(a[1])):
                r = imul(r, a[0], "i128")
                if CTX_branch(bor(ilt(r, T.RANGES[t][0]), ilt(T.RANGES[t][1], r))):
                    raise PathPanic("pow overflow")
            return r

        def wrapping(nm, f):
            MODELS[f"{t}::wrapping_{nm}"] = lambda it, a, c: f(a[0], a[1], t)

            def chk(it, a, c):
                w = f(a[0], a[1], "i128")
                ok = band(ile(T.RANGES[t][0], w), ile(w, T.RANGES[t][1]))
                return Some(w) if CTX_branch(ok) else None_()
            MODELS[f"{t}::checked_{nm}"] = chk

            def sat(it, a, c):
                w = f(a[0], a[1], "i128")
                if CTX_branch(ilt(w, T.RANGES[t][0])):
                    return T.RANGES[t][0]
                return T.RANGES[t][1] if CTX_branch(ilt(T.RANGES[t][1], w)) else w
            MODELS[f"{t}::saturating_{nm}"] = sat

            def ovf(it, a, c):
                w = f(a[0], a[1], "i128")
                bad = CTX_branch(bor(ilt(w, T.RANGES[t][0]), ilt(T.RANGES[t][1], w)))
                return tup(f(a[0], a[1], t), bad)
            MODELS[f"{t}::overflowing_{nm}"] = ovf
        wrapping("add", iadd)
        wrapping("sub", isub)
        wrapping("mul", imul)

        @mk("div_ceil")
        def _(it, a, c):
            if CTX_branch(ieq(a[1], 0)):
                raise PathPanic("division by zero")
            return idivmod_floor(iadd(a[0], isub(a[1], 1, "i128"), "i128"), a[1])[0]

        @mk("rem_euclid")
        def _(it, a, c):
            return idivmod_floor(a[0], a[1])[1]

        @mk("is_power_of_two")
        def _(it, a, c):
            x = iconc(a[0])
            return x > 0 and x & (x - 1) == 0

        @mk("trailing_zeros")
        def _(it, a, c):
            x = iconc(a[0])
            return (x & -x).bit_length() - 1 if x else 64

        @mk("count_ones")
        def _(it, a, c):
            return bin(iconc(a[0])).count("1")
    _reg(_t)

@model("integer::gcd")
def _(it, a, c):
    """num::integer::gcd by Euclid's algorithm on magnitudes (an i32 result)"""
    x, y = a
    dty = c.dty if c.dty in T.RANGES else "i32"
    x = isub(0, x, "i128") if CTX_branch(ilt(x, 0)) else x
    y = isub(0, y, "i128") if CTX_branch(ilt(y, 0)) else y
    for _ in range(80):
        if CTX_branch(ieq(y, 0)):
            return wrap(ipoly(x), *ibounds(x), dty) if isinstance(x, SI) else wrap(x, 0, 0, dty)
        x, y = y, idivmod_floor(x, y)[1]
    raise Inconclusive("gcd")

@model("integer::lcm")
def _(it, a, c):
    x, y = a
    x0 = CTX_branch(ieq(x, 0))
    y0 = CTX_branch(ieq(y, 0))
    if x0 and y0:
        return 0
    g = MODELS["integer::gcd"](it, a, c)
    q = idiv(y, g, "i64")
    r = imul(x, q, "i128")
    r = isub(0, r, "i128") if CTX_branch(ilt(r, 0)) else r
    if CTX_branch(bor(ilt(r, T.RANGES["i32"][0]), ilt(T.RANGES["i32"][1], r))):
        raise PathPanic("lcm overflow")
    return r

# ------------------------------------------------------------------ strings and chars
def u8len(c):
    if isinstance(c, int):
        return 1 if c < 0x80 else 2 if c < 0x800 else 3 if c < 0x10000 else 4
    if c.hi < 0x80:
        return 1
    for n, lim in ((1, 0x80), (2, 0x800), (3, 0x10000)):
        if CTX_branch(ilt(c, lim)):
            return n
    return 4

@model("str::len", "String::len", "PlSmallStr::len")
def _(it, a, c):
    return sum(u8len(x) for x in deref(a[0]).c)

@model("str::chars")
def _(it, a, c):
    return ListIt(list(deref(a[0]).c))

@model("str::char_indices")
def _(it, a, c):
    out = []
    p = 0
    for x in deref(a[0]).c:
        out.append(tup(p, x))
        p += u8len(x)
    return ListIt(out)

@model("str::as_bytes", "str::bytes", "str::into_bytes", "String::as_bytes", "String::into_bytes")
def _(it, a, c):
    out = []
    for x in deref(a[0]).c:
        if isinstance(x, int):
            out.extend(chr(x).encode())
        elif u8len(x) == 1:
            out.append(x)
        else:
            raise Unsupported("bytes of a symbolic non-ASCII character")
    v = VecV(out)
    if c.key.endswith("bytes") and "as_" not in c.key and "into" not in c.key:
        return ListIt(out)
    return SliceV(out) if "as_bytes" in c.key else v

def str_slice(v, r):
    offs = [0]
    for x in v.c:
        offs.append(offs[-1] + u8len(x))
    s, e = rng(r, offs[-1])
    if s not in offs or e not in offs:
        raise PathPanic("slice inside a character")
    return StrV(v.c[offs.index(s):offs.index(e)])

@model("str::is_char_boundary")
def _(it, a, c):
    v = deref(a[0])
    offs = [0]
    for x in v.c:
        offs.append(offs[-1] + u8len(x))
    return iconc(a[1]) in offs

@model("str::get")
def _(it, a, c):
    try:
        return Some(str_slice(deref(a[0]), a[1]))
    except PathPanic:
        return None_()

@model("str::split_at")
def _(it, a, c):
    v = deref(a[0])
    k = iconc(a[1])
    n = sum(u8len(x) for x in v.c)
    return tup(str_slice(v, StructV("Range", [0, k])), str_slice(v, StructV("Range", [k, n])))

@model("String::push_str")
def _(it, a, c):
    deref(a[0]).c.extend(deref(a[1]).c)
    return UNIT

@model("String::push")
def _(it, a, c):
    deref(a[0]).c.append(a[1])
    return UNIT

@model("String::new", "String::with_capacity")
def _(it, a, c):
    return StrV([])

def _isin(x, *rngs):
    from . import ctx
    return ctx.CTX.branch_whole(bor(*[band(ile(lo, x), ile(x, hi)) for lo, hi in rngs]))

def _conc_char(x):
    if isinstance(x, int):
        return chr(x)
    return None

def char_pred(name, pyf, ascii_ranges):
    def f(it, a, c):
        x = deref(a[0])
        if isinstance(x, int):
            return pyf(chr(x))
        if x.hi < 128:
            return _isin(x, *ascii_ranges)
        raise Unsupported(f"char::{name} of a symbolic non-ASCII character")
    for t in ("char", "u8", "methods"):
        MODELS[f"{t}::{name}"] = f

_U, _L, _D = (65, 90), (97, 122), (48, 57)
char_pred("is_alphanumeric", lambda s: s.isalnum(), [_U, _L, _D])
char_pred("is_alphabetic", lambda s: s.isalpha(), [_U, _L])
char_pred("is_numeric", lambda s: s.isnumeric(), [_D])
char_pred("is_uppercase", lambda s: s.isupper(), [_U])
char_pred("is_lowercase", lambda s: s.islower(), [_L])
_WS = [(9, 13), (32, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029), (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)]
def _ws(it, a, c):
    x = deref(a[0])
    if isinstance(x, int):
        return any(p <= x <= q for p, q in _WS)
    return _isin(x, *[r for r in _WS if r[0] <= x.hi])
for t in ("char", "u8", "methods"):
    MODELS[f"{t}::is_whitespace"] = _ws
for t in ("char", "u8", "methods"):
    MODELS[f"{t}::is_ascii"] = lambda it, a, c: ile(deref(a[0]), 127)
char_pred("is_ascii_digit", lambda s: s in "0123456789", [_D])
char_pred("is_ascii_alphabetic", lambda s: s.isascii() and s.isalpha(), [_U, _L])
char_pred("is_ascii_alphanumeric", lambda s: s.isascii() and s.isalnum(), [_U, _L, _D])
char_pred("is_ascii_uppercase", lambda s: s.isascii() and s.isupper(), [_U])
char_pred("is_ascii_lowercase", lambda s: s.isascii() and s.islower(), [_L])
char_pred("is_ascii_punctuation", lambda s: s.isascii() and s.isprintable() and not s.isalnum() and s != " ", [(33, 47), (58, 64), (91, 96), (123, 126)])

@model("str::is_ascii")
def _(it, a, c):
    return band(True, *[ile(x, 127) for x in deref(a[0]).c])

@model("char::to_digit", "methods::to_digit")
def _(it, a, c):
    x = a[0]
    if iconc(a[1]) != 10:
        raise Unsupported("radix")
    if CTX_branch(_isin(x, _D)):
        return Some(isub(x, 48, "u32"))
    return None_()

def _lower(x, up):
    if isinstance(x, int):
        s = chr(x).upper() if up else chr(x).lower()
        return [ord(q) for q in s]
    if x.hi >= 128:
        raise Unsupported("case of a symbolic non-ASCII character")
    lo, hi, d = (97, 122, -32) if up else (65, 90, 32)
    if CTX_branch(band(ile(lo, x), ile(x, hi))):
        return [si(ipoly(x) + Poly.const(d), x.lo + d if x.lo + d > 0 else 0, x.hi + d)]
    return [x]

@model("str::to_lowercase", "str::to_ascii_lowercase")
def _(it, a, c):
    v = deref(a[0])
    s = v.concrete()
    if s is not None:
        return StrV(s.lower())
    return StrV([y for x in v.c for y in _lower(x, False)])

@model("str::to_uppercase", "str::to_ascii_uppercase")
def _(it, a, c):
    v = deref(a[0])
    s = v.concrete()
    if s is not None:
        return StrV(s.upper())
    return StrV([y for x in v.c for y in _lower(x, True)])

@model("str::trim", "str::trim_start", "str::trim_end")
def _(it, a, c):
    cs = list(deref(a[0]).c)
    ws = MODELS["char::is_whitespace"]
    if c.key != "str::trim_end":
        while cs and CTX_branch(ws(it, [cs[0]], c)):
            cs.pop(0)
    if c.key != "str::trim_start":
        while cs and CTX_branch(ws(it, [cs[-1]], c)):
            cs.pop()
    return StrV(cs)

@model("str::split_whitespace", "str::split_ascii_whitespace")
def _(it, a, c):
    ws = MODELS["char::is_whitespace"]
    out, cur = [], []
    for x in deref(a[0]).c:
        if CTX_branch(ws(it, [x], c)):
            if cur:
                out.append(StrV(cur))
            cur = []
        else:
            cur.append(x)
    if cur:
        out.append(StrV(cur))
    return ListIt(out)

@model("str::starts_with", "str::ends_with", "str::contains")
def _(it, a, c):
    v, w = deref(a[0]), deref(a[1])
    if isinstance(w, (int, SI)):
        w = StrV([w])
    if not isinstance(w, StrV):
        raise Unsupported("str pattern")
    n, m = len(v.c), len(w.c)
    if m > n:
        return False
    if c.key.endswith("starts_with"):
        return StrV(v.c[:m]).eq_sym(w)
    if c.key.endswith("ends_with"):
        return StrV(v.c[n - m:]).eq_sym(w)
    return bor(*[StrV(v.c[i:i + m]).eq_sym(w) for i in range(n - m + 1)])

@model("str::strip_prefix", "str::strip_suffix")
def _(it, a, c):
    v, w = deref(a[0]), deref(a[1])
    n, m = len(v.c), len(w.c)
    if m > n:
        return None_()
    pre = c.key.endswith("prefix")
    if CTX_branch(StrV(v.c[:m] if pre else v.c[n - m:]).eq_sym(w)):
        return Some(StrV(v.c[m:] if pre else v.c[:n - m]))
    return None_()

@model("str::parse")
def _(it, a, c):
    s = deref(a[0]).concrete()
    if s is None:
        # only the outcome "is it a number" matters for symbolic text: digits only
        cs = deref(a[0]).c
        if cs and CTX_branch(band(*[_isin(x, _D) for x in cs])):
            return Ok(ZERO)
        if "f64" in (c.dty or ""):
            for w, v in (("inf", PINF), ("nan", NAN), ("infinity", PINF)):
                if len(cs) == len(w) and CTX_branch(band(*[bor(ieq(x, ord(y)), ieq(x, ord(y.upper()))) for x, y in zip(cs, w)])):
                    return Ok(v)
        return Err(Opaque("parse error"))
    try:
        if "_" in s:
            raise ValueError
        if re.search(r"Result<\w*\b[iu](8|16|32|64|128|size)\b", c.dty or ""):
            return Ok(int(s))
        v = float(s)
        return Ok(NAN if v != v else PINF if v == float("inf") else NINF if v == -float("inf") else fl(v))
    except ValueError:
        return Err(Opaque("parse error"))

def fmt_value(v):
    v = deref(v)
    if isinstance(v, EnumV) and v.name == "Cow":
        v = deref(v.f[0])
    if isinstance(v, StrV):
        return list(v.c)
    if isinstance(v, int) and not isinstance(v, bool):
        return [ord(x) for x in str(v)]
    return None

class FmtArgs:
    """format_args!: its text (code points) where the arguments are text or concrete integers"""
    byref = True
    def __init__(self, text):
        self.text = text

@model("Argument::none")
def _(it, a, c):
    return VecV([])

@model("Argument::new_display", "Argument::new_debug")
def _(it, a, c):
    return FmtArgs(fmt_value(a[0]) if c.key.endswith("display") else None)

@model("Arguments::new_v1", "Arguments::new_const")
def _(it, a, c):
    ps = [fmt_value(p) for p in items(a[0])]
    xs = [getattr(deref(x), "text", None) for x in items(a[1])] if len(a) > 1 else []
    if any(p is None for p in ps + xs):
        return FmtArgs(None)
    return FmtArgs([y for i, p in enumerate(ps) for y in p + (xs[i] if i < len(xs) else [])])

@model("fmt::format", "hint::must_use", "__private::must_use", "Formatter::debug_struct_field2_finish", "_print")
def _(it, a, c):
    if c.key == "fmt::format":
        t = getattr(deref(a[0]), "text", None)
        return StrV("<formatted>") if t is None else StrV(list(t))
    if c.key.endswith("must_use"):
        return a[0]
    return Opaque("fmt")

@model("Write::write_fmt")
def _(it, a, c):
    t = getattr(deref(a[1]), "text", None)
    if t is None:
        raise Unsupported(f"write_fmt {deref(a[1])}")
    deref(a[0]).c.extend(t)
    return Ok(UNIT)

# ------------------------------------------------------------------ hash containers
class SetV:
    byref = True

    def __init__(self, d=None):
        self.d = d or []

    def has(self, it, x):
        x = deref(x)
        for y in self.d:
            if truth(val_eq(it, x, deref(y))):
                return True
        return False

    def insert(self, it, x):
        if self.has(it, x):
            return False
        self.d.append(x)
        return True

    def iter_sym(self, ref):
        return ListIt(any_order([Ref(self.d, i) for i in range(len(self.d))])) if ref else ListIt(any_order(self.d))

    def clone_sym(self):
        return SetV([clone(x) for x in self.d])

class MapV:
    byref = True

    def __init__(self):
        self.k = []
        self.v = []

    def find(self, it, x):
        x = deref(x)
        for i, y in enumerate(self.k):
            if truth(val_eq(it, x, deref(y))):
                return i
        return -1

    def put(self, it, k, v):
        i = self.find(it, k)
        if i >= 0:
            o = self.v[i]
            self.v[i] = v
            return Some(o)
        self.k.append(k)
        self.v.append(v)
        return None_()

    def iter_sym(self, ref):
        if ref:
            return ListIt(any_order([tup(Ref(self.k, i), Ref(self.v, i)) for i in range(len(self.k))]))
        return ListIt(any_order([tup(a, b) for a, b in zip(self.k, self.v)]))

@model("HashSet::new", "HashSet::with_capacity", "HashSet::with_capacity_and_hasher", "HashSet::with_hasher")
def _(it, a, c):
    return SetV()

@model("HashSet::len")
def _(it, a, c):
    return len(deref(a[0]).d)

@model("HashSet::is_empty")
def _(it, a, c):
    return not deref(a[0]).d

@model("HashSet::insert")
def _(it, a, c):
    return deref(a[0]).insert(it, a[1])

@model("HashSet::contains")
def _(it, a, c):
    return deref(a[0]).has(it, a[1])

@model("HashSet::remove")
def _(it, a, c):
    s = deref(a[0])
    for i, y in enumerate(s.d):
        if truth(val_eq(it, a[1], y)):
            s.d.pop(i)
            return True
    return False

@model("HashSet::iter")
def _(it, a, c):
    return deref(a[0]).iter_sym(True)

@model("HashSet::intersection", "HashSet::difference", "HashSet::union", "HashSet::symmetric_difference")
def _(it, a, c):
    s, t = deref(a[0]), deref(a[1])
    k = c.key.split("::")[1]
    if k == "intersection":
        idx = [i for i, x in enumerate(s.d) if t.has(it, x)]
    elif k == "difference":
        idx = [i for i, x in enumerate(s.d) if not t.has(it, x)]
    elif k == "symmetric_difference":
        return ListIt([Ref(s.d, i) for i, x in enumerate(s.d) if not t.has(it, x)] + [Ref(t.d, i) for i, x in enumerate(t.d) if not s.has(it, x)])
    else:
        return ListIt([Ref(s.d, i) for i in range(len(s.d))] + [Ref(t.d, i) for i, x in enumerate(t.d) if not s.has(it, x)])
    return ListIt([Ref(s.d, i) for i in idx])

@model("HashMap::new", "HashMap::with_capacity", "HashMap::with_capacity_and_hasher", "BTreeMap::new")
def _(it, a, c):
    return MapV()

@model("HashMap::get", "HashMap::get_mut", "BTreeMap::get")
def _(it, a, c):
    m = deref(a[0])
    i = m.find(it, a[1])
    return Some(Ref(m.v, i)) if i >= 0 else None_()

@model("HashMap::contains_key")
def _(it, a, c):
    return deref(a[0]).find(it, a[1]) >= 0

@model("HashMap::insert", "BTreeMap::insert")
def _(it, a, c):
    return deref(a[0]).put(it, a[1], a[2])

@model("HashMap::len", "BTreeMap::len")
def _(it, a, c):
    return len(deref(a[0]).k)

@model("HashMap::iter", "BTreeMap::iter")
def _(it, a, c):
    return deref(a[0]).iter_sym(True)

@model("HashMap::values")
def _(it, a, c):
    m = deref(a[0])
    return ListIt([Ref(m.v, i) for i in range(len(m.v))])

@model("HashMap::keys")
def _(it, a, c):
    m = deref(a[0])
    return ListIt([Ref(m.k, i) for i in range(len(m.k))])

@model("HashMap::entry", "BTreeMap::entry")
def _(it, a, c):
    m = deref(a[0])
    i = m.find(it, a[1])
    return StructV("Entry", [m, i, a[1]])

@model("Entry::or_insert", "Entry::or_insert_with", "Entry::or_default")
def _(it, a, c):
    m, i, k = a[0].f
    if i < 0:
        m.k.append(k)
        m.v.append(a[1] if c.key.endswith("or_insert") else it.call_value(a[1], []) if c.key.endswith("with") else 0)
        i = len(m.k) - 1
    return Ref(m.v, i)

@model("Entry::and_modify")
def _(it, a, c):
    m, i, k = a[0].f
    if i >= 0:
        it.call_value(a[1], [Ref(m.v, i)])
    return a[0]

# ------------------------------------------------------------------ function values, panics
@model("Fn::call", "FnMut::call_mut", "FnOnce::call_once")
def _(it, a, c):
    args = a[1]
    return it.call_value(a[0], list(args.f) if isinstance(args, StructV) else [] if args == () else [args])

@model("panicking::panic", "panicking::panic_fmt", "panic_fmt", "panic", "panicking::panic_bounds_check", "panicking::assert_failed", "rt::begin_panic", "panicking::unreachable_display", "option::unwrap_failed", "panicking::panic_explicit")
def _(it, a, c):
    raise PathPanic("panic: " + repr(a[:1]))

@model("ThreadPool::install")
def _(it, a, c):
    return it.call_value(a[1], [])

@model("ThreadPool::current_num_threads", "rayon::current_num_threads", "*::current_num_threads")
def _(it, a, c):
    return it.threads

@model("ThreadPool::join", "rayon::join")
def _(it, a, c):
    x = it.call_value(a[-2], [])
    return tup(x, it.call_value(a[-1], []))

@model("Par::rayon", "Par::Seq")
def _(it, a, c):
    return Opaque("par")

@model("Any::type_id")
def _(it, a, c):
    return 0

@model("Ulps::eq", "Ulps::<f64>::eq")
def _(it, a, c):
    """approx: equal up to a few units in the last place; exact numbers are equal or not"""
    return feq(fl(deref(a[1])), fl(deref(a[2])))

@model("Ulps::default", "Ulps::<f64>::default")
def _(it, a, c):
    return StructV("Ulps", {})
