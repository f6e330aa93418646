"""Models of the dense matrix types (faer, ndarray) the linear-algebra code is written with.

A matrix is a view (buffer, offset, shape, strides) exactly as in the libraries, so that slicing, transposition,
aliasing and raw-parts constructors are executed, and products, sums and factorisation based solves are exact:
`solve`/`inverse` of a factorisation of a square matrix return the exact solution when the matrix is regular and
unconstrained values when it is singular.
"""
import numpy as np
from . import ctx as C, term as T, mir, plops, plx
from .term import *
from .ctx import *
from .interp import *
from .models_std import ListIt, It, STOP, items, into_it, CONV, rng
from .models_np import NpArr, nparr, obj_array
from . import models_polars as MP
from .models_polars import res, perr

class Buf:
    """a heap buffer reached through raw pointers"""
    __slots__ = ("d",)
    def __init__(self, d):
        self.d = d
    def __getitem__(self, i):
        if not 0 <= i < len(self.d):
            raise PathPanic("out of bounds read through a raw pointer")
        return self.d[i]
    def __setitem__(self, i, x):
        if not 0 <= i < len(self.d):
            raise PathPanic("out of bounds write through a raw pointer")
        self.d[i] = x
    def __len__(self):
        return len(self.d)

class MatV:
    byref = True
    owned = False
    def __init__(self, d, off, nr, nc, rs, cs):
        self.d, self.off, self.nr, self.nc, self.rs, self.cs = d, off, nr, nc, rs, cs
    def at(self, i, j):
        return self.off + i * self.rs + j * self.cs
    def get(self, i, j):
        return self.d[self.at(i, j)]
    def rows(self):
        return [[self.get(i, j) for j in range(self.nc)] for i in range(self.nr)]
    def view(self, r0, r1, c0, c1):
        return MatV(self.d, self.at(r0, c0), r1 - r0, c1 - c0, self.rs, self.cs)
    def T(self):
        return MatV(self.d, self.off, self.nc, self.nr, self.cs, self.rs)
    def clone_sym(self):
        return mat(self.rows(), self.nr, self.nc)
    def arith_sym(self, it, op, x, y):
        return arith(it, op, x, y)
    def neg_sym(self, it):
        return mat([[fneg(v) for v in r] for r in self.rows()], self.nr, self.nc)
    def __repr__(self):
        return f"Mat{self.rows()}"
    def eq_sym(self, o):
        raise Unsupported("matrix comparison")
    def index_sym(self, it, k):
        k = k.f
        return Ref(self.d, self.at(chk(k[0], self.nr), chk(k[1], self.nc)))

class VecM:
    """a row or column view"""
    byref = True
    def __init__(self, d, off, n, st, row):
        self.d, self.off, self.n, self.st, self.row = d, off, n, st, row
    def vals(self):
        return [self.d[self.off + i * self.st] for i in range(self.n)]
    def refs(self):
        return [Ref(self.d, self.off + i * self.st) for i in range(self.n)]
    def iter_sym(self, by_ref):
        return ListIt(self.refs())
    def as_mat(self):
        return MatV(self.d, self.off, 1 if self.row else self.n, self.n if self.row else 1, 0 if self.row else self.st, self.st if self.row else 0)
    def clone_sym(self):
        return VecM(self.vals(), 0, self.n, 1, self.row)
    def arith_sym(self, it, op, x, y):
        return arith(it, op, x, y)
    def index_sym(self, it, k):
        return Ref(self.d, self.off + self.st * chk(k, self.n))
    def __repr__(self):
        return f"{'Row' if self.row else 'Col'}{self.vals()}"

class DiagM:
    byref = True
    def __init__(self, vals):
        self.v = vals
    def arith_sym(self, it, op, x, y):
        return arith(it, op, x, y)
    def clone_sym(self):
        return DiagM(list(self.v))

def mat(rows, nr=None, nc=None):
    """owned, column major"""
    nr = len(rows) if nr is None else nr
    nc = (len(rows[0]) if rows else 0) if nc is None else nc
    d = [rows[i][j] for j in range(nc) for i in range(nr)]
    return MatV(d, 0, nr, nc, 1, nr)

def chk(k, n):
    if isinstance(k, SI):
        if CTX_branch(bor(ilt(k, 0), bnot(ilt(k, n)))):
            raise PathPanic("matrix index out of bounds")
        k = iconc(k)
    if not 0 <= k < n:
        raise PathPanic("matrix index out of bounds")
    return k

def CTX_branch(b):
    return C.CTX.branch(b)

def variant(v):
    v = deref(v)
    return getattr(v, "var", None) or getattr(v, "name", None) or str(v)

def mv(v):
    v = deref(v)
    if isinstance(v, VecM):
        return v.as_mat()
    if not isinstance(v, MatV):
        raise Unsupported(f"matrix expected, got {type(v).__name__}")
    return v

def vecm(v):
    v = deref(v)
    if not isinstance(v, VecM):
        raise Unsupported(f"matrix row or column expected, got {type(v).__name__}")
    return v

def dot(xs, ys):
    acc = ZERO
    for x, y in zip(xs, ys):
        acc = fadd(acc, fmul(x, y))
    return acc

def matmul(A, B):
    if A.nc != B.nr:
        raise PathPanic("matrix product: dimensions do not agree")
    ra, cb = A.rows(), B.T().rows()
    return mat([[dot(r, c) for c in cb] for r in ra], A.nr, B.nc)

def arith(it, op, x, y):
    x, y = deref(x), deref(y)
    if op == "Mul":
        if isinstance(x, DiagM) and isinstance(y, DiagM):
            if len(x.v) != len(y.v):
                raise PathPanic("diagonal product: dimensions do not agree")
            return DiagM([fmul(p, q) for p, q in zip(x.v, y.v)])
        if isinstance(x, DiagM):
            y = mv(y)
            if len(x.v) != y.nr:
                raise PathPanic("diagonal product: dimensions do not agree")
            return mat([[fmul(x.v[i], v) for v in r] for i, r in enumerate(y.rows())], y.nr, y.nc)
        if isinstance(y, DiagM):
            x = mv(x)
            if len(y.v) != x.nc:
                raise PathPanic("diagonal product: dimensions do not agree")
            return mat([[fmul(v, y.v[j]) for j, v in enumerate(r)] for r in x.rows()], x.nr, x.nc)
        if isinstance(x, VecM) and isinstance(y, VecM) and x.row and not y.row:
            if x.n != y.n:
                raise PathPanic("inner product: dimensions do not agree")
            return dot(x.vals(), y.vals())
        if isinstance(x, (MatV, VecM)) and isinstance(y, (MatV, VecM)):
            r = matmul(mv(x), mv(y))
            if isinstance(y, VecM) and not y.row:
                return VecM(r.d, 0, r.nr, 1, False)
            if isinstance(x, VecM) and x.row:
                return VecM(r.d, 0, r.nc, 1, True)
            return r
        if is_float(fl_or(x)):
            x, y = y, x
        k = fl_or(y)
        A = mv(x)
        return mat([[fmul(v, k) for v in r] for r in A.rows()], A.nr, A.nc)
    if op in ("Add", "Sub"):
        f = fadd if op == "Add" else fsub
        if isinstance(x, VecM) and isinstance(y, VecM):
            if x.n != y.n:
                raise PathPanic("vector sum: dimensions do not agree")
            return VecM([f(p, q) for p, q in zip(x.vals(), y.vals())], 0, x.n, 1, x.row)
        A, B = mv(x), mv(y)
        if (A.nr, A.nc) != (B.nr, B.nc):
            raise PathPanic("matrix sum: dimensions do not agree")
        return mat([[f(p, q) for p, q in zip(r, s)] for r, s in zip(A.rows(), B.rows())], A.nr, A.nc)
    raise Unsupported(f"matrix {op}")

def fl_or(v):
    v = deref(v)
    if isinstance(v, EnumV) or isinstance(v, StructV):     # faer::Scale(x)
        v = deref(v.f[0])
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return fl(v)
    return v

# ------------------------------------------------------------------ exact solves
def det(M):
    n = len(M)
    if n == 0:
        return ONE
    if n == 1:
        return M[0][0]
    if n == 2:
        return fsub(fmul(M[0][0], M[1][1]), fmul(M[0][1], M[1][0]))
    acc = ZERO
    for j in range(n):
        if isinstance(M[0][j], Poly) and not M[0][j].t:
            continue
        t = fmul(M[0][j], det([r[:j] + r[j + 1:] for r in M[1:]]))
        acc = fadd(acc, t) if j % 2 == 0 else fsub(acc, t)
    return acc

def adj(M):
    n = len(M)
    return [[(lambda m: m if (i + j) % 2 == 0 else fneg(m))(det([r[:i] + r[i + 1:] for k, r in enumerate(M) if k != j])) for j in range(n)] for i in range(n)]

def lindiv(a, d):
    """a/d for a non-zero determinant d"""
    return quot(a, d)

def solve(M, B):
    """exact solution of M X = B as rows; unconstrained values for singular M"""
    n = len(M)
    nc = len(B[0]) if B else 0
    if any(isinstance(v, FSpec) for r in M for v in r):
        return [[NAN] * nc for _ in range(n)]
    d = det(M)
    if (d.is_const() and not d.cval()) or (not d.is_const() and C.CTX.branch(cmp0(d, "eq0"))):
        return [[MP.undef() for _ in range(nc)] for _ in range(n)]
    A = adj(M)
    out = []
    for i in range(n):
        row = []
        for j in range(nc):
            num = dot(A[i], [B[k][j] for k in range(n)])
            row.append(NAN if isinstance(num, FSpec) else lindiv(num, d))
        out.append(row)
    return out

class Fact:
    """a factorisation of a square matrix"""
    byref = True
    def __init__(self, kind, M):
        self.kind, self.M = kind, M

def square(m):
    m = mv(m)
    if m.nr != m.nc:
        raise Unsupported("factorisation of a rectangular matrix")
    return m.rows()

@model("Mat::col_piv_qr", "MatRef::col_piv_qr", "Mat::full_piv_lu", "Mat::partial_piv_lu", "Mat::qr", "MatRef::partial_piv_lu", "MatRef::qr")
def _(it, a, c):
    return Fact(c.key, square(a[0]))

@model("Mat::llt", "MatRef::llt")
def _(it, a, c):
    return Ok(Fact("llt", square(a[0])))

@model("Mat::thin_svd", "MatRef::thin_svd", "Mat::svd")
def _(it, a, c):
    return Ok(Fact("svd", square(a[0])))

@model("svd::svd_scratch", "svd_scratch", "MemBuffer::new", "MemStack::new", "prelude::default", "default", "Spec::default")
def _(it, a, c):
    return UNIT

@model("svd::svd", "svd")
def _(it, a, c):
    """thin singular value decomposition: the columns of V are orthonormal eigenvectors of M'M, S the roots of its eigenvalues, descending"""
    M = mv(a[0])
    S, U, V = deref(a[1]).v, a[2], a[3]
    k = min(M.nr, M.nc)
    if variant(U) != "None":
        raise Unsupported("left singular vectors")
    if len(S.vals() if isinstance(S, VecM) else S) != k:
        raise PathPanic("svd: S has the wrong length")
    G = matmul(M.T(), M)
    R = G.rows()
    if any(isinstance(x, FSpec) for r in R for x in r):
        return Err(Opaque("SvdError"))
    l, W = eig_sym(R)
    for i in range(k):
        S.d[S.off + i * S.st] = fsqrt(l[i])
    if variant(V) != "None":
        V = mv(V.f[0])
        if V.nr != M.nc or V.nc != k:
            raise PathPanic("svd: V has the wrong shape")
        for i in range(k):
            for j in range(M.nc):
                V.d[V.at(j, i)] = W[i][j]
    return Ok(UNIT)

@model("Solve::solve")
def _(it, a, c):
    B = mv(a[1])
    M = deref(a[0]).M
    if len(M) != B.nr:
        raise PathPanic("solve: dimensions do not agree")
    return mat(solve(M, B.rows()), len(M), B.nc)

@model("DenseSolveCore::inverse")
def _(it, a, c):
    M = deref(a[0]).M
    n = len(M)
    return mat(solve(M, [[ONE if i == j else ZERO for j in range(n)] for i in range(n)]), n, n)

def eig_sym(M):
    """(values descending, orthonormal vectors) of a symmetric positive semi-definite matrix of order 1 or 2"""
    n = len(M)
    if n == 1:
        return [M[0][0]], [[ONE]]
    if n > 2 and not any(M[i][j].t for i in range(n) for j in range(n) if i != j):
        # diagonal: sort the diagonal
        o = []
        for i in range(n):
            k = len(o)
            while k > 0 and C.CTX.branch(flt(M[o[k - 1]][o[k - 1]], M[i][i])):
                k -= 1
            o.insert(k, i)
        return [M[i][i] for i in o], [[ONE if j == i else ZERO for j in range(n)] for i in o]
    if n != 2:
        raise Unsupported("singular values of a matrix of order > 2")
    a, b, d = M[0][0], M[0][1], M[1][1]
    if (b - M[1][0]).t:
        raise Unsupported("singular values of an asymmetric matrix")
    br = C.CTX.branch
    if br(cmp0(b, "eq0")):
        if br(flt(a, d)):
            return [d, a], [[ZERO, ONE], [ONE, ZERO]]
        return [a, d], [[ONE, ZERO], [ZERO, ONE]]
    R = fsqrt(fadd(fmul(fsub(a, d), fsub(a, d)), fmul(fl(4), fmul(b, b))))
    h = Poly.const(Fraction(1, 2))
    l1, l2 = fmul(h, fadd(fadd(a, d), R)), fmul(h, fsub(fadd(a, d), R))
    if hasattr(C.CTX, "solver"):        # eigenvalues of a positive semi-definite matrix
        C.CTX.assume(bnot(flt(l2, ZERO)))
        C.CTX.assume(flt(ZERO, l1))
    V = []
    for l in (l1, l2):
        x, y = b, fsub(l, a)
        N = fsqrt(fadd(fmul(x, x), fmul(y, y)))
        V.append([fdiv(x, N), fdiv(y, N)])
    return [l1, l2], V

def svd_of(v):
    v = deref(v)
    if not hasattr(v, "eig"):
        v.eig = eig_sym(v.M)
    return v.eig

@model("Svd::S")
def _(it, a, c):
    return DiagM(list(svd_of(a[0])[0]))

@model("Svd::U", "Svd::V")
def _(it, a, c):
    _, V = svd_of(a[0])
    n = len(V)
    return mat([[V[j][i] for j in range(n)] for i in range(n)], n, n)

# ------------------------------------------------------------------ constructors
@model("Mat::new")
def _(it, a, c):
    return mat([], 0, 0)

@model("Mat::with_capacity")
def _(it, a, c):
    return mat([], 0, 0)

@model("Mat::zeros")
def _(it, a, c):
    n, m = iconc(a[0]), iconc(a[1])
    return mat([[ZERO] * m for _ in range(n)], n, m)

@model("Mat::ones")
def _(it, a, c):
    n, m = iconc(a[0]), iconc(a[1])
    return mat([[ONE] * m for _ in range(n)], n, m)

@model("Mat::identity")
def _(it, a, c):
    n, m = iconc(a[0]), iconc(a[1])
    return mat([[ONE if i == j else ZERO for j in range(m)] for i in range(n)], n, m)

@model("Mat::full")
def _(it, a, c):
    n, m = iconc(a[0]), iconc(a[1])
    return mat([[deref(a[2])] * m for _ in range(n)], n, m)

@model("Mat::from_fn")
def _(it, a, c):
    n, m = iconc(a[0]), iconc(a[1])
    cols = [[deref(it.call_value(a[2], [i, j])) for i in range(n)] for j in range(m)]
    return mat([[cols[j][i] for j in range(m)] for i in range(n)], n, m)

@model("Col::from_fn")
def _(it, a, c):
    n = iconc(a[0])
    return VecM([deref(it.call_value(a[1], [i])) for i in range(n)], 0, n, 1, False)

@model("Row::from_fn")
def _(it, a, c):
    n = iconc(a[0])
    return VecM([deref(it.call_value(a[1], [i])) for i in range(n)], 0, n, 1, True)

@model("Col::zeros")
def _(it, a, c):
    n = iconc(a[0])
    return VecM([ZERO] * n, 0, n, 1, False)

def raw(v):
    """(buffer, offset, length) behind a slice"""
    v = deref(v)
    if isinstance(v, VecV):
        return v.d, 0, len(v.d)
    if isinstance(v, SliceV):
        return v.d, v.o, v.n
    raise Unsupported("slice expected")

@model("MatRef::from_row_major_slice", "MatRef::from_column_major_slice", "MatMut::from_row_major_slice_mut", "MatMut::from_column_major_slice_mut")
def _(it, a, c):
    d, o, n = raw(a[0])
    nr, nc = iconc(a[1]), iconc(a[2])
    if nr * nc != n:
        raise PathPanic("matrix from slice: length does not agree with the shape")
    return MatV(d, o, nr, nc, nc, 1) if "row" in c.key else MatV(d, o, nr, nc, 1, nr)

@model("ColRef::from_slice", "RowRef::from_slice")
def _(it, a, c):
    d, o, n = raw(a[0])
    return VecM(d, o, n, 1, c.key.startswith("Row"))

@model("MatRef::from_raw_parts", "MatMut::from_raw_parts_mut")
def _(it, a, c):
    p = a[0]
    if not isinstance(p, Ref):
        raise Unsupported("raw parts")
    return MatV(p.o, p.k, *[iconc(x) for x in a[1:5]])

@model("faer::concat_impl", "concat_impl")
def _(it, a, c):
    rows = []
    for blk in items(a[0]):
        ms = [mv(x.f[0]) if isinstance(deref(x), StructV) else mv(x) for x in map(deref, items(blk))]
        if len({m.nr for m in ms}) > 1:
            raise PathPanic("concat: row counts do not agree")
        for i in range(ms[0].nr):
            rows.append([m.get(i, j) for m in ms for j in range(m.nc)])
        nc = sum(m.nc for m in ms)
    if any(len(r) != nc for r in rows):
        raise PathPanic("concat: column counts do not agree")
    return mat(rows, len(rows), nc)

@model("MatRef::__canonicalize")
def _(it, a, c):
    return StructV("tuple", [mv(a[0]), EnumV("Conj", "No", [])])

# ------------------------------------------------------------------ views
@model("Mat::as_ref", "MatRef::as_ref", "MatMut::as_ref", "Mat::as_mut", "MatMut::as_mut", "MatMut::rb", "MatMut::rb_mut", "MatMut::into_const", "Reborrow::rb", "ReborrowMut::rb_mut", "Mat::as_dyn_stride", "MatRef::as_dyn_stride")
def _(it, a, c):
    m = mv(a[0])
    return MatV(m.d, m.off, m.nr, m.nc, m.rs, m.cs)

@model("Mat::to_owned", "MatRef::to_owned", "MatMut::to_owned", "Mat::clone", "MatRef::cloned")
def _(it, a, c):
    return mv(a[0]).clone_sym()

@model("Mat::transpose", "MatRef::transpose", "MatMut::transpose")
def _(it, a, c):
    return mv(a[0]).T()

for _t in ("Mat", "MatRef", "MatMut", "ArrayBase"):
    MODELS[f"{_t}::nrows"] = lambda it, a, c: nd(a[0]).nr
    MODELS[f"{_t}::ncols"] = lambda it, a, c: nd(a[0]).nc
for _t in ("Mat", "MatRef", "MatMut"):
    MODELS[f"{_t}::shape"] = lambda it, a, c: StructV("tuple", [mv(a[0]).nr, mv(a[0]).nc])
    MODELS[f"{_t}::row_stride"] = lambda it, a, c: mv(a[0]).rs
    MODELS[f"{_t}::col_stride"] = lambda it, a, c: mv(a[0]).cs
    MODELS[f"{_t}::as_ptr"] = lambda it, a, c: Ref(mv(a[0]).d, mv(a[0]).off)
MODELS["Mat::as_ptr_mut"] = MODELS["Mat::as_ptr"]
for _t in ("Col", "ColRef", "ColMut", "Row", "RowRef", "RowMut"):
    for _n in ("nrows", "ncols", "len"):
        def _mkl(t, n):
            def f(it, a, c):
                v = vecm(a[0])
                if n == "len":
                    return v.n
                return v.n if (n == "ncols") == v.row else 1
            return f
        MODELS[f"{_t}::{_n}"] = _mkl(_t, _n)

def pos(r, n):
    """index or range -> (kind, start, end)"""
    r = deref(r)
    if isinstance(r, (int, SI)) and not isinstance(r, bool):
        k = chk(r, n)
        return "i", k, k + 1
    if isinstance(r, StructV) or isinstance(r, EnumV) or r is UNIT:
        s, e = rng(r, n)
        return "r", s, e
    if isinstance(r, Opaque) or str(r).find("RangeFull") >= 0:
        return "r", 0, n
    raise Unsupported(f"matrix range {r!r}")

@model("Mat::get", "MatRef::get", "MatMut::get", "Mat::get_unchecked", "MatRef::get_unchecked", "MatMut::get_unchecked", "Mat::get_mut", "MatMut::get_mut", "Mat::get_mut_unchecked", "MatMut::get_mut_unchecked")
def _(it, a, c):
    m = mv(a[0])
    ki, r0, r1 = pos(a[1], m.nr)
    kj, c0, c1 = pos(a[2], m.nc)
    if ki == "i" and kj == "i":
        return Ref(m.d, m.at(r0, c0))
    if ki == "i":
        return VecM(m.d, m.at(r0, c0), c1 - c0, m.cs, True)
    if kj == "i":
        return VecM(m.d, m.at(r0, c0), r1 - r0, m.rs, False)
    return m.view(r0, r1, c0, c1)

@model("MatRef::get_r", "Mat::get_r")
def _(it, a, c):
    m = mv(a[0])
    k, r0, r1 = pos(a[1], m.nr)
    return VecM(m.d, m.at(r0, 0), m.nc, m.cs, True) if k == "i" else m.view(r0, r1, 0, m.nc)

@model("Mat::row", "MatRef::row")
def _(it, a, c):
    m = mv(a[0])
    return VecM(m.d, m.at(chk(deref(a[1]), m.nr), 0), m.nc, m.cs, True)

@model("Mat::col", "MatRef::col", "Mat::col_mut", "MatMut::col_mut")
def _(it, a, c):
    m = mv(a[0])
    return VecM(m.d, m.at(0, chk(deref(a[1]), m.nc)), m.nr, m.rs, False)

@model("Mat::subrows", "MatRef::subrows")
def _(it, a, c):
    m = mv(a[0])
    s, n = iconc(a[1]), iconc(a[2])
    if s + n > m.nr:
        raise PathPanic("subrows out of bounds")
    return m.view(s, s + n, 0, m.nc)

@model("Mat::subcols", "MatRef::subcols")
def _(it, a, c):
    m = mv(a[0])
    s, n = iconc(a[1]), iconc(a[2])
    if s + n > m.nc:
        raise PathPanic("subcols out of bounds")
    return m.view(0, m.nr, s, s + n)

@model("Mat::col_as_slice", "Mat::col_as_slice_mut")
def _(it, a, c):
    m = mv(a[0])
    j = chk(deref(a[1]), m.nc)
    if m.rs != 1 and m.nr > 1:
        raise Unsupported("col_as_slice of a strided matrix")
    return SliceV(m.d, m.at(0, j), m.nr)

@model("Mat::col_iter", "MatRef::col_iter", "MatRef::par_col_iter")
def _(it, a, c):
    m = mv(a[0])
    return ListIt([VecM(m.d, m.at(0, j), m.nr, m.rs, False) for j in range(m.nc)])

@model("Mat::row_iter", "MatRef::row_iter")
def _(it, a, c):
    m = mv(a[0])
    return ListIt([VecM(m.d, m.at(i, 0), m.nc, m.cs, True) for i in range(m.nr)])

@model("ColRef::iter", "RowRef::iter", "Col::iter", "Row::iter")
def _(it, a, c):
    return ListIt(vecm(a[0]).refs())

@model("ColRef::as_mat", "RowRef::as_mat", "Col::as_mat", "Row::as_mat", "Col::as_ref", "ColRef::as_ref")
def _(it, a, c):
    v = vecm(a[0])
    return v.as_mat() if c.key.endswith("as_mat") else VecM(v.d, v.off, v.n, v.st, v.row)

@model("ColRef::as_diagonal", "Col::as_diagonal", "RowRef::as_diagonal", "Col::into_diagonal")
def _(it, a, c):
    return DiagM(vecm(a[0]).vals())

@model("Col::as_diagonal_mut", "ColMut::as_diagonal_mut")
def _(it, a, c):
    return DiagM(vecm(a[0]))

@model("ColMut::from_slice_mut", "ColRef::from_slice")
def _(it, a, c):
    v = deref(a[0])
    return VecM(v.d, v.o if isinstance(v, SliceV) else 0, len(v.d) if not isinstance(v, SliceV) else v.n, 1, False)

@model("DiagRef::column_vector", "Diag::column_vector", "DiagMut::column_vector")
def _(it, a, c):
    v = deref(a[0]).v
    return VecM(v, 0, len(v), 1, False)

@model("ColRef::get", "Col::get", "RowRef::get", "Row::get", "ColRef::get_unchecked", "RowRef::get_unchecked")
def _(it, a, c):
    v = vecm(a[0])
    return Ref(v.d, v.off + v.st * chk(deref(a[1]), v.n))

@model("ColRef::to_owned", "RowRef::to_owned", "Col::to_owned")
def _(it, a, c):
    return vecm(a[0]).clone_sym()

@model("ColRef::transpose", "RowRef::transpose", "Col::transpose", "Row::transpose")
def _(it, a, c):
    v = vecm(a[0])
    return VecM(v.d, v.off, v.n, v.st, not v.row)

# ------------------------------------------------------------------ reductions
def allvals(v):
    v = deref(v)
    return v.vals() if isinstance(v, VecM) else [x for r in mv(v).rows() for x in r]

for _t in ("Mat", "MatRef", "ColRef", "Col", "RowRef", "Row"):
    def _sum(it, a, c):
        acc = ZERO
        for x in allvals(a[0]):
            acc = fadd(acc, x)
        return acc
    MODELS[f"{_t}::sum"] = _sum
    MODELS[f"{_t}::squared_norm_l2"] = lambda it, a, c: dot(allvals(a[0]), allvals(a[0]))
    MODELS[f"{_t}::norm_l2"] = lambda it, a, c: fsqrt(dot(allvals(a[0]), allvals(a[0])))

@model("math_utils::is_nan", "faer_traits::math_utils::is_nan")
def _(it, a, c):
    return C.is_nan(deref(a[0]))

@model("Par::rayon")
def _(it, a, c):
    return EnumV("Par", "Rayon", [0])

@model("matmul::matmul")
def _(it, a, c):
    dst, A, B = mv(a[0]), mv(a[2]), mv(a[3])
    alpha = deref(a[4])
    if A.nc != B.nr or dst.nr != A.nr or dst.nc != B.nc:
        raise PathPanic("matmul: dimensions do not agree")
    # the libraries forbid an output aliasing an input; they are distinct buffers in safe code
    P = matmul(A, B)
    add = variant(a[1]) == "Add"
    for i in range(dst.nr):
        for j in range(dst.nc):
            v = fmul(alpha, P.get(i, j))
            dst.d[dst.at(i, j)] = fadd(dst.get(i, j), v) if add else v
    return UNIT

# ------------------------------------------------------------------ ndarray
def nd(v):
    """MatV of an ndarray or faer value"""
    v = deref(v)
    if isinstance(v, NpArr):
        return np_mat(v.a)
    return mv(v)

def np_mat(a):
    if a.ndim != 2:
        raise Unsupported("2-d array expected")
    b = a.base
    if b is None or not isinstance(b, np.ndarray):
        b = a
    isz = a.itemsize
    if b is a:
        lo = a
    st = [s // isz for s in a.strides]
    flat = np.lib.stride_tricks
    root = a
    while isinstance(root.base, np.ndarray):
        root = root.base
    off = (a.__array_interface__["data"][0] - root.__array_interface__["data"][0]) // isz
    buf = list(root.ravel(order="K"))
    return MatV(Buf(buf), off, a.shape[0], a.shape[1], st[0], st[1])

@model("PyReadonlyArray::as_array")
def _(it, a, c):
    return np_mat(nparr(a[0])) if nparr(a[0]).ndim == 2 else SliceV(list(nparr(a[0])))

@model("DataFrame::to_ndarray")
def _(it, a, c):
    fr = deref(a[0]).fr
    order = variant(a[1])
    gen = c.path.gens[-1] if c.path.gens else "Float64Type"
    dt = "f32" if "32" in str(gen) else "f64"
    cols = []
    for s in fr.cols.values():
        if s.dt == "str":
            return perr("conversion of a string column")
        s = plops.cast(s, dt, strict=True) if s.dt != dt else s
        cols.append([NAN if v is None else v for v in s.vals])
    n, m = fr.n, len(cols)
    if order == "Fortran":
        return Ok(MatV([v for x in cols for v in x], 0, n, m, 1, n))
    return Ok(MatV([cols[j][i] for i in range(n) for j in range(m)], 0, n, m, m, 1))

@model("ArrayBase::as_ptr")
def _(it, a, c):
    m = nd(a[0])
    d = m.d if isinstance(m.d, Buf) else Buf(m.d)
    return Ref(d, m.off)

@model("ArrayBase::strides")
def _(it, a, c):
    m = nd(a[0])
    return SliceV([m.rs, m.cs])

@model("ArrayBase::len")
def _(it, a, c):
    m = nd(a[0])
    return m.nr * m.nc

@model("ArrayBase::view", "ArrayBase::to_owned", "ArrayBase::view_mut")
def _(it, a, c):
    m = nd(a[0])
    return m.clone_sym() if c.key.endswith("owned") else m

@model("ArrayBase::remove_axis", "ArrayBase::index_axis_move")
def _(it, a, c):
    m = nd(a[0])
    d = deref(a[1])
    k = iconc(deref(d.f[0]) if isinstance(d, StructV) else d)
    i = chk(iconc(a[2]), (m.nr, m.nc)[k]) if len(a) > 2 else 0
    if (m.nr, m.nc)[k] == 0:
        raise PathPanic("remove_axis of an empty axis")
    return VecV([m.get(i, j) for j in range(m.nc)] if k == 0 else [m.get(j, i) for j in range(m.nr)], True)

@model("ArrayBase::map_inplace", "ArrayBase::mapv_inplace")
def _(it, a, c):
    v = deref(a[0])
    if isinstance(v, MatV):
        refs = [Ref(v.d, v.at(i, j)) for i in range(v.nr) for j in range(v.nc)]
    else:
        refs = [Ref(v.d, i) for i in range(len(v.d))]
    for r in refs:
        if "mapv" in c.key:
            r.o[r.k] = it.call_value(a[1], [r.o[r.k]])
        else:
            it.call_value(a[1], [r])
    return UNIT

@model("ArrayBase::as_slice", "ArrayBase::into_raw_vec")
def _(it, a, c):
    v = deref(a[0])
    if isinstance(v, MatV):
        if v.cs != 1 or (v.rs != v.nc and v.nr > 1):
            return None_()
        v = VecV([x for r in v.rows() for x in r], True)
    return v if "raw" in c.key else Some(v)

@model("ShapeBuilder::strides")
def _(it, a, c):
    return StructV("StrideShape", [deref(a[0]), deref(a[1])])

@model("ArrayBase::from_shape_ptr")
def _(it, a, c):
    sh = deref(a[0])
    p = a[1]
    (nr, nc), (rs, cs) = [[iconc(x) for x in deref(t).f] for t in sh.f]
    return MatV(p.o, p.k, nr, nc, rs, cs)

def _to_np(self):
    return obj_array([v for r in self.rows() for v in r], (self.nr, self.nc))
MatV.to_np = _to_np

@model("SliceNextDim::next_in_dim", "SliceNextDim::next_out_dim")
def _(it, a, c):
    return UNIT

@model("SliceInfo::new_unchecked", "SliceInfo::new")
def _(it, a, c):
    return a[0]

CONV["SliceInfoElem"] = lambda it, v, c: v

@model("ArrayBase::slice", "ArrayBase::slice_mut", "ArrayBase::slice_move")
def _(it, a, c):
    m = nd(a[0])
    sl = items(a[1])
    out = []
    for r, n in zip(sl, (m.nr, m.nc)):
        r = deref(r)
        if isinstance(r, (int, SI)):
            out.append((chk(r, n), None))
            continue
        name = r.name if isinstance(r, StructV) else str(r)
        lo, hi = 0, n
        f = [iconc(deref(x)) for x in r.f] if isinstance(r, StructV) else []
        f = [x + n if x < 0 else x for x in f]
        if "RangeFrom" in name:
            lo = f[0]
        elif "RangeTo" in name and "Inclusive" not in name:
            hi = f[0]
        elif "RangeFull" in name:
            pass
        elif name.endswith("Range"):
            lo, hi = f
        else:
            raise Unsupported(f"ndarray slice {name}")
        if not (lo <= hi <= n):
            raise PathPanic("ndarray slice out of bounds")
        out.append((lo, hi))
    (r0, r1), (c0, c1) = out
    if r1 is None and c1 is None:
        raise Unsupported("ndarray slice by indices")
    if r1 is None:
        return VecM(m.d, m.at(r0, c0), c1 - c0, m.cs, True)
    if c1 is None:
        return VecM(m.d, m.at(r0, c0), r1 - r0, m.rs, False)
    return m.view(r0, r1, c0, c1)

@model("IntoFaer::into_faer", "IntoNdarray::into_ndarray")
def _(it, a, c):
    m = nd(a[0])
    cand = it.prog.trait_impls.get(tuple(c.key.split("::")))
    if not cand or len(cand) != 1:
        raise Unsupported(f"implementations of {c.key}")
    f = cand[0][-1]
    return it.run(f, [m], {"T": "f64"})
