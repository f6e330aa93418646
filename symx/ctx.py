"""Path exploration by re-execution, solver queries, and the operations on symbolic reals
that need them (division, square root, ...)."""
import math, time, os
from fractions import Fraction
import z3
from . import term as T
from .term import *

class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.time = 0.0
        self.paths = 0
        self.proved = 0
        self.fns = set()
        self.stubs = set()
        self.assumes = set()

STATS = Stats()

class Violation(Exception):
    def __init__(self, label, ctx, model, got=None, want=None):
        super().__init__(label)
        self.label = label
        self.ctx = ctx
        self.model = model
        self.got = got
        self.want = want

class Inconclusive(Exception):
    pass

class Infeasible(Exception):
    """the current path's condition is unsatisfiable"""

CTX = None

def ctx():
    return CTX

ALLS = frozenset((-1, 0, 1))
REL = {"lt0": frozenset((-1,)), "le0": frozenset((-1, 0)), "eq0": frozenset((0,))}
FLIP = {-1: 1, 0: 0, 1: -1}
# functions modelled as uninterpreted, with python evaluators for replay
def _digamma(x):
    import scipy.special as s
    return float(s.digamma(x))
def _gamma(x):
    return math.gamma(x)
def _scipy(f):
    def g(*a):
        import scipy.stats as st
        return float(f(st, *a))
    return g
PYFN = {
    # tail probabilities of the reference distributions (scipy's in replays)
    "tsf": _scipy(lambda st, x, df: st.t.sf(x, df)), "fsf": _scipy(lambda st, x, a, b: st.f.sf(x, a, b)),
    "gsf": _scipy(lambda st, x, a, r: st.gamma.sf(x, a, scale=1.0 / r)), "nsf": _scipy(lambda st, x, m, s: st.norm.sf(x, m, s)),
    "tppf": _scipy(lambda st, q, df: st.t.ppf(q, df)),
    "ln": math.log, "exp": math.exp, "log2": math.log2, "log10": math.log10, "log1p": math.log1p,
    "sin": math.sin, "cos": math.cos, "tan": math.tan, "atan2": math.atan2, "asin": math.asin, "acos": math.acos, "atan": math.atan,
    "sinh": math.sinh, "cosh": math.cosh, "tanh": math.tanh, "pow": math.pow, "exp2": lambda x: 2.0 ** x,
    "next_up": lambda x: math.nextafter(x, math.inf), "next_down": lambda x: math.nextafter(x, -math.inf),
    "gamma": _gamma, "digamma": _digamma, "cbrt": lambda x: math.copysign(abs(x) ** (1 / 3), x),
}

def ground(p):
    """no free variable"""
    for m in p.t:
        for a, _ in m:
            a = T.ATOMS[a]
            if a.kind not in ("quot", "sqrt", "abs", "fn"):
                return False
            if not all(ground(x) for x in a.args if isinstance(x, Poly)):
                return False
    return True

def atom_eval(a, env, memo):
    v = memo.get(a.id)
    if v is not None:
        return v
    k = a.kind
    if k == "var":
        v = env.get(a.name, 0.0)
    elif k == "quot":
        v = peval(a.args[0], env, memo) / peval(a.args[1], env, memo)
    elif k == "sqrt":
        v = math.sqrt(max(0.0, peval(a.args[0], env, memo)))
    elif k == "abs":
        v = abs(peval(a.args[0], env, memo))
    elif k == "floor":
        v = math.floor(peval(a.args[0], env, memo))
    elif k == "idiv":
        x, y = peval(a.args[0], env, memo), peval(a.args[1], env, memo)
        v = int(x) // int(y)
    elif k == "wrap":
        x = int(peval(a.args[0], env, memo))
        lo, hi = a.args[1], a.args[2]
        v = (x - lo) % (hi - lo + 1) + lo
    elif k == "ite":
        v = peval(a.args[1] if beval(a.args[0], env, memo) else a.args[2], env, memo)
    elif k == "fn":
        f = PYFN.get(a.args[0])
        if f is None:
            from . import special
            f = special.FN[a.args[0]]
        v = f(*[peval(x, env, memo) for x in a.args[1:]])
    else:
        raise KeyError(k)
    memo[a.id] = v
    return v

def peval(p, env, memo=None):
    memo = {} if memo is None else memo
    s = 0.0
    for m, c in p.t.items():
        x = 1
        for a, e in m:
            x = x * atom_eval(T.ATOMS[a], env, memo) ** e
        s = s + (float(c) * x if m else float(c))
    return s

def beval(b, env, memo=None):
    memo = {} if memo is None else memo
    if not isinstance(b, SBool):
        return bool(b)
    if b.k == "cmp":
        v = peval(b.a[0], env, memo)
        if T.NEAR is not None and abs(v) < 1e-9:
            T.NEAR()
        return v < 0 if b.a[1] == "lt0" else v <= 0 if b.a[1] == "le0" else v == 0
    if b.k == "not":
        return not beval(b.a[0], env, memo)
    if b.k == "and":
        return all(beval(x, env, memo) for x in b.a)
    if b.k == "or":
        return any(beval(x, env, memo) for x in b.a)
    return bool(env.get(b.a[0], False))

def veval(v, env, memo=None):
    """evaluate a value structure numerically under an assignment of the input variables"""
    memo = {} if memo is None else memo
    if isinstance(v, Poly):
        return peval(v, env, memo)
    if isinstance(v, FSpec):
        return float(v.k)
    if isinstance(v, SI):
        return int(round(peval(v.p, env, memo)))
    if isinstance(v, SBool):
        return beval(v, env, memo)
    if isinstance(v, (list, tuple)):
        return [veval(x, env, memo) for x in v]
    if isinstance(v, dict):
        return {k: veval(x, env, memo) for k, x in v.items()}
    if isinstance(v, Fraction):
        return float(v)
    return v

Q_MS = int(os.environ.get("SYMX_QMS", "3000"))
P_MS = int(os.environ.get("SYMX_PMS", "20000"))

class Ctx:
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.decs = []          # (value, other_feasible)
        self.known = {}
        self.whole = {}
        self.kb = {}
        self.facts = []         # z3 formulas: path condition + assumptions
        self.solver = z3.Solver()
        self.solver.set("timeout", Q_MS)
        self.defined = set()
        self.vars = {}          # name -> atom (inputs of this path)
        self.bools = set()
        self.model = None
        self.inputs = {}
        self.log = []
        self.maxdec = 4000
        self.mono = False       # add monotonicity axioms for ln/exp
        self.deadline = None
        self.zdiv_assume = False
        self.notes = []

    # -------------------------------------------------------------- inputs
    def real(self, name, lo=None, hi=None):
        p = T.var(name)
        self.vars[name] = p
        if lo is not None:
            self.assume(cmp0(Poly.const(lo) - p, "le0"), None)
        if hi is not None:
            self.assume(cmp0(p - Poly.const(hi), "le0"), None)
        return p

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        p = T.var(name, True)
        self.vars[name] = p
        self.assume(cmp0(Poly.const(lo) - p, "le0"), None)
        self.assume(cmp0(p - Poly.const(hi), "le0"), None)
        return SI(p, lo, hi)

    def bool(self, name):
        self.bools.add(name)
        return bvar(name)

    # -------------------------------------------------------------- facts
    def define(self, p):
        """assert the definitions of all atoms of p (transitively)"""
        for a in p.atoms():
            if a not in self.defined:
                self.defined.add(a)
                self._define_atom(T.ATOMS[a])

    def _fact(self, z):
        self.facts.append(z)
        self.solver.add(z)

    def _define_atom(self, a):
        k = a.kind
        z = a.z
        if k == "var":
            return
        for x in a.args:
            if isinstance(x, Poly):
                self.define(x)
        if k == "quot":
            self._fact(z * a.args[1].z3() == a.args[0].z3())
            self._fact(a.args[1].z3() != 0)
        elif k == "sqrt":
            self._fact(z >= 0)
            self._fact(z * z == a.args[0].z3())
        elif k == "abs":
            x = a.args[0].z3()
            self._fact(z >= 0)
            self._fact(z3.Or(z == x, z == -x))
        elif k == "floor":
            x = a.args[0].z3()
            self._fact(z3.And(z3.ToReal(z) <= x, x < z3.ToReal(z) + 1))
        elif k == "idiv":
            x, y = a.args[0].z3(), a.args[1].z3()
            self._fact(z3.And(z * y <= x, x < z * y + y))
        elif k == "wrap":
            lo, hi = a.args[1], a.args[2]
            kk = z3.Int(f"{a.name}.k")
            self._fact(z3.And(z >= lo, z <= hi, z == a.args[0].z3() - kk * (hi - lo + 1)))
        elif k == "ite":
            self.define_bool(a.args[0])
            c = bz3(a.args[0])
            self._fact(z3.Implies(c, z == a.args[1].z3()))
            self._fact(z3.Implies(z3.Not(c), z == a.args[2].z3()))
        elif k == "fn":
            self._fn_axioms(a)

    def _fn_axioms(self, a):
        name, args = a.args[0], a.args[1:]
        z = a.z
        if all(x.is_const() for x in args):
            try:
                v = PYFN[name](*[float(x.cval()) for x in args])
                if math.isfinite(v):
                    e = abs(v) * 1e-11 if name in ("exp", "nsf", "gsf", "tsf", "fsf") and v > 1e-290 else max(1e-12, abs(v) * 1e-12)
                    self._fact(z >= z3.RealVal(str(Fraction(v - e))))
                    self._fact(z <= z3.RealVal(str(Fraction(v + e))))
            except (KeyError, ValueError, OverflowError):
                pass
        elif name in ("exp", "ln", "gsf", "nsf", "tsf", "fsf") and all(ground(x) for x in args):
            # a constant expression: enclosed from its double value
            try:
                v = PYFN[name](*[float(peval(x, {})) for x in args])
                if math.isfinite(v):
                    e = abs(v) * 1e-11 if name != "ln" and v > 1e-290 else max(1e-12, abs(v) * 1e-11)
                    self._fact(z >= z3.RealVal(str(Fraction(v - e))))
                    self._fact(z <= z3.RealVal(str(Fraction(v + e))))
            except (KeyError, ValueError, OverflowError, ZeroDivisionError):
                pass
        elif name == "ln" or name == "log2" or name == "log10":
            x = args[0].z3()
            self._fact(z3.And((x > 1) == (z > 0), (x == 1) == (z == 0)))
        elif name == "exp" or name == "exp2":
            x = args[0].z3()
            self._fact(z > 0)
            self._fact(z3.And((x > 0) == (z > 1), (x == 0) == (z == 1)))
        elif name == "cosh":
            self._fact(z >= 1)
        elif name in ("tsf", "fsf", "gsf", "nsf", "tanh"):
            self._fact(z3.And(z >= (-1 if name == "tanh" else 0), z <= 1))
        if self.mono and name in ("ln", "exp"):
            for b in list(self.defined):
                o = T.ATOMS[b]
                if o.kind == "fn" and o is not a and o.args[0] == name:
                    self._fact((args[0].z3() < o.args[1].z3()) == (z < o.z))
                    self._fact((args[0].z3() > o.args[1].z3()) == (z > o.z))

    def define_bool(self, b):
        if isinstance(b, SBool):
            if b.k == "var":
                self.bools.add(b.a[0])
            for p in b.polys():
                self.define(p)

    def assume(self, b, why=""):
        if why:
            STATS.assumes.add(why)
        if b is True:
            return
        if b is False:
            raise Infeasible()
        self.define_bool(b)
        self._learn(b, True)
        self._fact(bz3(b))
        self.model = None

    def _learn(self, b, val):
        if b.k == "not":
            return self._learn(b.a[0], not val) if isinstance(b.a[0], SBool) else None
        if b.k == "cmp":
            q, c = b.a[0].canon()
            R = REL[b.a[1]]
            if c < 0:
                R = frozenset(FLIP[s] for s in R)
            if not val:
                R = ALLS - R
            self.known[q] = self.known.get(q, ALLS) & R
        elif b.k == "and" and val:
            for x in b.a:
                if isinstance(x, SBool):
                    self._learn(x, True)
        elif b.k == "or" and not val:
            for x in b.a:
                if isinstance(x, SBool):
                    self._learn(x, False)
        elif b.k == "var":
            self.kb[b.a[0]] = val

    # -------------------------------------------------------------- solver
    def check(self, *extra, ms=None):
        t = time.time()
        if self.deadline and t > self.deadline:
            raise Inconclusive("time budget of the obligation is used up")
        STATS.queries += 1
        s = self.solver
        if ms is not None:
            s.set("timeout", ms)
        s.push()
        for e in extra:
            s.add(e)
        r = s.check()
        m = s.model() if r == z3.sat else None
        s.pop()
        if ms is not None:
            s.set("timeout", Q_MS)
        if r == z3.unknown:
            s2 = z3.Tactic("qfnra-nlsat").solver() if not self._mixed() else z3.Solver()
            s2.set("timeout", ms or Q_MS)
            for f in self.facts:
                s2.add(f)
            for e in extra:
                s2.add(e)
            try:
                r = s2.check()
                m = s2.model() if r == z3.sat else None
            except z3.Z3Exception:
                r = z3.unknown
        dt = time.time() - t
        STATS.time += dt
        if r == z3.sat:
            STATS.sat += 1
        elif r == z3.unsat:
            STATS.unsat += 1
        else:
            STATS.unknown += 1
        if dt > 2 and os.environ.get("SYMX_DEBUG"):
            print("SLOW", round(dt, 1), r, [str(e)[:300] for e in extra], len(self.facts))
        return r, m

    def _mixed(self):
        return any(T.ATOMS[a].isint for a in self.defined) or bool(self.bools)

    def branch_whole(self, b):
        """truth value of a small formula over integers on this path, decided as one question"""
        if not isinstance(b, SBool):
            return bool(b)
        def z(b):
            if not isinstance(b, SBool):
                return z3.BoolVal(bool(b))
            if b.k == "cmp":
                self.define(b.a[0])
                return b.z3()
            if b.k == "not":
                return z3.Not(z(b.a[0]))
            if b.k in ("and", "or"):
                return (z3.And if b.k == "and" else z3.Or)(*[z(x) for x in b.a])
            raise Unsupported("branch_whole")
        f = z(b)
        k = f.sexpr()
        v = self.whole.get(k)
        if v is None:
            v = self.whole[k] = self._decide(f, z3.Not(f))
        return v

    def branch(self, b):
        """truth value of b on this path; forks when both are possible"""
        if not isinstance(b, SBool):
            return bool(b)
        k = b.k
        if k == "not":
            return not self.branch(b.a[0])
        if k == "and":
            for x in b.a:
                if not self.branch(x):
                    return False
            return True
        if k == "or":
            for x in b.a:
                if self.branch(x):
                    return True
            return False
        if k == "var":
            v = self.kb.get(b.a[0])
            if v is not None:
                return v
            self.bools.add(b.a[0])
            z = z3.Bool(b.a[0])
            v = self._decide(z, z3.Not(z))
            self.kb[b.a[0]] = v
            return v
        p, rel = b.a
        q, c = p.canon()
        R = REL[rel]
        if c < 0:
            R = frozenset(FLIP[s] for s in R)
        kn = self.known.get(q, ALLS)
        yes, no = kn & R, kn - R
        if not yes:
            return False
        if not no:
            return True
        if q.nonneg_syntactic() and -1 in kn:
            self.define(q)
            self.known[q] = kn = kn - {-1}
            yes, no = kn & R, kn - R
            if not yes:
                return False
            if not no:
                return True
        k2 = self._signs(q)
        if not k2 >= kn:
            self.define(q)
            self.known[q] = kn = kn & k2
            if not kn:
                raise Infeasible()
            yes, no = kn & R, kn - R
            if not yes:
                return False
            if not no:
                return True
        if len(q.t) == 1:
            (m,) = q.t
            if len(m) == 1 and T.ATOMS[m[0][0]].kind == "sqrt":
                # sqrt(x) = 0 iff x = 0
                z = self.branch(cmp0(T.ATOMS[m[0][0]].args[0], "eq0"))
                self.known[q] = kn & frozenset((0,) if z else (1,))
                return bool(self.known[q] & R)
        n = self._cleared(q)
        if n is not None:
            # a form that separates yes from no (signs outside `kn` cannot occur)
            if 0 in yes and 0 in kn and len(yes) == 1:
                t = cmp0(n, "eq0")
            elif yes >= {-1, 1} & kn and 0 not in yes:
                t = bnot(cmp0(n, "eq0"))
            elif yes == {-1}:
                t = cmp0(n, "lt0")
            elif yes == {1}:
                t = cmp0(-n, "lt0")
            elif yes == {-1, 0}:
                t = cmp0(n, "le0")
            else:
                t = cmp0(-n, "le0")
            v = self.branch(t)
            self.known[q] = yes if v else no
            return v
        self.define(q)
        qz = q.z3()
        v = self._decide(self._in(qz, yes), self._in(qz, no))
        self.known[q] = yes if v else no
        return v

    def _signs(self, p, depth=0):
        """signs p can have as far as is known without asking the solver"""
        if p.is_const():
            c = p.cval()
            return frozenset((0 if c == 0 else 1 if c > 0 else -1,))
        q, c = p.canon()
        S = self.known.get(q, ALLS)
        if q.nonneg_syntactic():
            S = S - {-1}
        if len(S) > 1 and depth < 8 and len(q.t) <= 40:
            tot = frozenset((0,))
            for m, k in q.t.items():
                ms = frozenset((1 if k > 0 else -1,))
                for a, e in m:
                    as_ = self._asigns(a, depth + 1, q)
                    if e % 2 == 0:
                        as_ = frozenset(x * x for x in as_)
                    ms = frozenset(x * y for x in ms for y in as_)
                tot = frozenset(z for x in tot for y in ms for z in ((x,) if y == 0 else (y,) if x == 0 or x == y else (-1, 0, 1)))
                if len(tot) == 3:
                    break
            S = S & tot
        if len(S) > 1 and depth < 8:
            fs = T.PRODS.get(q)
            if fs is not None:
                k2 = frozenset(a * b for a in self._signs(fs[0], depth + 1) for b in self._signs(fs[1], depth + 1))
                if fs[2] < 0:
                    k2 = frozenset(FLIP[x] for x in k2)
                S = S & k2
        return frozenset(FLIP[s] for s in S) if c < 0 else S

    def _asigns(self, aid, depth, skip=None):
        a = T.ATOMS[aid]
        p = Poly({((aid, 1),): Fraction(1)})
        S = self.known.get(p, ALLS)
        k = a.kind
        if k == "sqrt":
            S = S & self._signs(a.args[0], depth) & {0, 1}
        elif k == "abs":
            S = S & frozenset(x * x for x in self._signs(a.args[0], depth))
        elif k == "quot":
            S = S & frozenset(x * y for x in self._signs(a.args[0], depth) for y in self._signs(a.args[1], depth) if y)
        elif k == "fn" and a.args[0] in ("exp", "exp2", "cosh"):
            S = S & {1}
        return S

    def _cleared(self, q):
        """a polynomial without quotients that has the sign of q, or None"""
        if not any(T.ATOMS[a].kind == "quot" for a in q.atoms()):
            return None
        p = q
        for _ in range(40):
            qs = [a for a in p.atoms() if T.ATOMS[a].kind == "quot"]
            if not qs:
                break
            a = max(qs)
            num, den = T.ATOMS[a].args
            if not den.is_const():
                self.known.setdefault(den.canon()[0], ALLS)
                dq = den.canon()[0]
                self.known[dq] = self.known[dq] - {0}
                if not self.known[dq]:
                    raise Infeasible()
            deg = max((dict(m).get(a, 0) for m in p.t), default=0)
            S = self._signs(den)
            neg = False
            if S == {1} or deg % 2 == 0:
                up = deg
            elif S == {-1}:
                up, neg = deg, True
            else:
                up = deg + 1
            dp, np_ = [ONE], [ONE]
            for _ in range(up):
                dp.append(dp[-1] * den)
                np_.append(np_[-1] * num)
            byd = {}
            for m, c in p.t.items():
                d = dict(m).get(a, 0)
                rest = tuple(x for x in m if x[0] != a)
                byd.setdefault(d, {})
                byd[d][rest] = byd[d].get(rest, 0) + c
            acc = ZERO
            for d, t in byd.items():
                acc = acc + Poly(t) * np_[d] * dp[up - d]
            p = -acc if neg else acc
            if len(p.t) > 600:
                return None
        if len(p.t) > max(60, 12 * len(q.t)):
            return None
        return p

    @staticmethod
    def _in(z, S):
        if S == {-1}:
            return z < 0
        if S == {0}:
            return z == 0
        if S == {1}:
            return z > 0
        if S == {-1, 0}:
            return z <= 0
        if S == {0, 1}:
            return z >= 0
        return z != 0

    def _decide(self, zt, zf):
        i = len(self.decs)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.decs.append((v, False))
            self._fact(zt if v else zf)
            self.model = None
            return v
        if i > self.maxdec:
            raise Inconclusive("too many decisions on one path")
        mt = None
        if self.model is not None:
            e = self.model.eval(zt, model_completion=True)
            if z3.is_true(e):
                mt = True
            elif z3.is_false(e):
                mt = False
        if mt is None:
            rt, m = self.check(zt)
            if rt != z3.unsat:
                ok_t, model_t = True, m
                ok_f, model_f = None, None
            else:
                ok_t, model_t, ok_f, model_f = False, None, None, None
        elif mt:
            ok_t, model_t, ok_f, model_f = True, self.model, None, None
        else:
            ok_t, model_t, ok_f, model_f = None, None, True, self.model
        if ok_t is None:
            r, m = self.check(zt)
            ok_t, model_t = r != z3.unsat, m
        if ok_f is None:
            r, m = self.check(zf)
            ok_f, model_f = r != z3.unsat, m
        if not ok_t and not ok_f:
            raise Infeasible()
        v = ok_t
        both = ok_t and ok_f
        self.decs.append((v, both))
        self._fact(zt if v else zf)
        self.model = model_t if v else model_f
        return v

    def choose(self, n, name):
        """a nondeterministic choice in range(n)"""
        for i in range(n - 1):
            if self.branch(self.bool(f"{name}={i}")):
                self.inputs.setdefault("choices", {})[name] = i
                return i
        self.inputs.setdefault("choices", {})[name] = n - 1
        return n - 1

    # -------------------------------------------------------------- proving
    def prove(self, b, label, got=None, want=None):
        if not isinstance(b, SBool):
            if b:
                STATS.queries += 1
                STATS.unsat += 1
                STATS.proved += 1
                return
            r, m = self.nice_model()
            if r == z3.unsat:
                STATS.proved += 1
                return
            if m is None:
                raise Inconclusive(f"{label}: violated on a path whose feasibility is undecided")
            raise Violation(label, self, m, got, want)
        self.define_bool(b)
        neg = z3.Not(bz3(b))
        r, m = self.check(neg, ms=min(P_MS, 3000))
        if r == z3.unknown:
            e = self.guess(lambda e, memo: not beval(b, e, memo))
            if e is not None:
                raise Violation(label, self, e, got, want)
            r, m = self.check(neg, ms=P_MS)
        if r == z3.unsat:
            STATS.proved += 1
            return
        if r == z3.unknown:
            m = self.hunt(neg)
            if m is None:
                raise Inconclusive(f"{label}: solver answered unknown")
        r2, m2 = self.nice_model(neg)
        raise Violation(label, self, m2 if m2 is not None else m, got, want)

    def hunt(self, *extra):
        """look for a model with small integer inputs (makes nonlinear queries easy)"""
        vs = [p for p in self.vars.values()]
        for lim in (3, 10):
            cons = []
            for p in vs:
                z = p.z3()
                if z.sort() == z3.RealSort():
                    cons.append(z3.Or(*[z == i for i in range(-lim, lim + 1)]))
            s = z3.Solver()
            s.set("timeout", Q_MS * 2)
            s.add(*self.facts)
            s.add(*extra)
            s.add(*cons)
            STATS.queries += 1
            t = time.time()
            r = s.check()
            STATS.time += time.time() - t
            if r == z3.sat:
                STATS.sat += 1
                return s.model()
        return None

    def guess(self, bad, tries=300):
        """inputs of this path (candidates only; the replay decides) on which bad(env) holds"""
        import random
        rnd = random.Random(len(self.decs) * 7919 + len(self.facts))
        base = None
        m = self.model
        if m is None:
            r, m = self.check(ms=1000)
        if m is not None:
            base = self.env(m)
        names = list(self.vars)
        rn = [n for n in names if not T.ATOMS[next(iter(self.vars[n].atoms()))].isint]
        bools = {n: bool(self.kb.get(n, base.get(n, False) if base else False)) for n in self.bools}
        order = sorted(rn, key=lambda n: base[n]) if base else rn
        for k in range(tries):
            if k == 0:
                if base is None:
                    continue
                e = dict(base)
            else:
                e = dict(base) if base else {n: 0 for n in names}
                mode = k % 4
                if mode == 0:
                    for n in rn:
                        if rnd.random() < 0.5:
                            e[n] = float(rnd.randint(-6, 6)) / rnd.choice((1, 2))
                elif mode == 1:
                    vs = sorted(float(rnd.randint(-12, 12)) / 2 for _ in rn)
                    for n, v in zip(order, vs):
                        e[n] = v
                elif mode == 2:
                    vs = sorted(float(rnd.randint(1, 12)) / 2 for _ in rn)
                    for n, v in zip(order, vs):
                        e[n] = v
                else:
                    for n in rn:
                        v = float(rnd.randint(1, 12)) / 2
                        e[n] = -v if base and base[n] < 0 else v
            e.update(bools)
            memo = {}
            try:
                ok = True
                for q, S in self.known.items():
                    v = peval(q, e, memo)
                    sg = 0 if abs(v) < 1e-9 else 1 if v > 0 else -1
                    if sg not in S:
                        ok = False
                        break
                if ok and bad(e, memo):
                    return e
            except (ArithmeticError, ValueError, KeyError, ImportError, T.Unsupported, RecursionError):
                continue
        return None

    def nice_model(self, *extra):
        vs = [p.z3() for p in self.vars.values()]
        dens = []
        for a in self.defined:
            at = T.ATOMS[a]
            if at.kind == "quot":
                d = at.args[1].z3()
                dens.append(z3.Or(d >= 1, d <= -1) if not at.args[1].is_int() else z3.BoolVal(True))
        box = [z3.And(v >= -60, v <= 60) for v in vs if v.sort() == z3.RealSort()]
        for cons in (box + dens, box, []):
            r, m = self.check(*extra, *cons)
            if r == z3.sat:
                return r, m
            if r == z3.unsat and not cons:
                return r, None
        return r, None

    def prove_eq(self, got, want, label, tol=None):
        """floats (IEEE special values included), ints, bools, None, lists, dicts, strings"""
        if type(got).__name__ == "Lst":
            got = got.v
        if type(want).__name__ == "Lst":
            want = want.v
        bad = lambda: self.prove(False, label, got, want)
        if isinstance(got, (list, tuple)) or isinstance(want, (list, tuple)):
            if not (isinstance(got, (list, tuple)) and isinstance(want, (list, tuple))) or len(got) != len(want):
                return bad()
            for i, (g, w) in enumerate(zip(got, want)):
                self.prove_eq(g, w, f"{label}[{i}]", tol)
            return
        if isinstance(got, dict) or isinstance(want, dict):
            if not (isinstance(got, dict) and isinstance(want, dict)):
                return bad()
            for k, w in want.items():
                if k not in got:
                    return self.prove(False, f"{label}.{k}", got, want)
                self.prove_eq(got[k], w, f"{label}.{k}", tol)
            return
        if got is None or want is None:
            return self.prove(got is None and want is None, label, got, want)
        if isinstance(want, float):
            want = fl(want)
        if isinstance(got, float):
            got = fl(got)
        if isinstance(got, FSpec) or isinstance(want, FSpec):
            return self.prove(isinstance(got, FSpec) and isinstance(want, FSpec) and got.k == want.k, label, got, want)
        if isinstance(got, (Poly, SI, int, bool)) and isinstance(want, (Poly, SI, int, bool)) and not (isinstance(got, bool) or isinstance(want, bool)):
            g = got if isinstance(got, Poly) else ipoly(got)
            w = want if isinstance(want, Poly) else ipoly(want)
            return self.prove_poly0(g - w, label, got, want)
        if isinstance(got, (bool, SBool)) and isinstance(want, (bool, SBool, int)):
            if not isinstance(got, SBool) and not isinstance(want, SBool):
                return self.prove(bool(got) == bool(want), label, got, want)
            if not isinstance(got, SBool):
                return self.prove(want if got else bnot(want), label, got, want)
            if not isinstance(want, SBool):
                return self.prove(got if want else bnot(got), label, got, want)
            return self.prove(bor(band(got, want), band(bnot(got), bnot(want))), label, got, want)
        if hasattr(got, "eq_sym"):
            return self.prove(got.eq_sym(want), label, got, want)
        if hasattr(want, "eq_sym"):
            return self.prove(want.eq_sym(got), label, got, want)
        return self.prove(got == want, label, got, want)

    def prove_poly0(self, d, label, got=None, want=None):
        """d == 0 on this path"""
        if not d.t:
            STATS.queries += 1
            STATS.unsat += 1
            STATS.proved += 1
            return
        if d.is_const():
            return self.prove(False, label, got, want)
        self.define(d)
        try:
            num = clear(d)
        except Unsupported:
            num = d
        if not num.t:
            STATS.queries += 1
            STATS.unsat += 1
            STATS.proved += 1
            return
        if num.is_const():
            return self.prove(False, label, got, want)
        self.define(num)
        q, _ = num.canon()
        if self.known.get(q) == frozenset((0,)):
            STATS.queries += 1
            STATS.unsat += 1
            STATS.proved += 1
            return
        # strengthened query first: a model with a visible difference
        dz = d.z3()
        nz = q.z3()
        r, m = self.check(nz != 0, ms=min(P_MS, 1500))
        if r == z3.unsat:
            STATS.proved += 1
            return
        if r == z3.unknown:
            def bad(e, memo):
                v = peval(d, e, memo)
                return math.isfinite(v) and abs(v) > 1e-3
            e = self.guess(bad)
            if e is not None:
                raise Violation(label, self, e, got, want)
            r, m = self.check(nz != 0, ms=P_MS)
            if r == z3.unsat:
                STATS.proved += 1
                return
        if r == z3.unknown:
            r, m = self.check(dz != 0, ms=P_MS)
            if r == z3.unsat:
                STATS.proved += 1
                return
            if r == z3.unknown:
                m = self.hunt(z3.Or(dz > z3.RealVal("1/100"), dz < z3.RealVal("-1/100")))
                if m is None:
                    raise Inconclusive(f"{label}: solver answered unknown")
        for thr in ("1/10", "1/1000"):
            r2, m2 = self.nice_model(z3.Or(dz > z3.RealVal(thr), dz < z3.RealVal("-" + thr)))
            if r2 == z3.sat:
                raise Violation(label, self, m2, got, want)
        raise Violation(label, self, m, got, want)

    # -------------------------------------------------------------- model -> numbers
    def env(self, model):
        if isinstance(model, dict):
            return dict(model)
        out = {}
        for n, p in self.vars.items():
            z = p.z3()
            v = model.eval(z, model_completion=True)
            if z3.is_int_value(v):
                out[n] = v.as_long()
            elif z3.is_rational_value(v):
                out[n] = float(v.as_fraction())
            elif z3.is_algebraic_value(v):
                out[n] = float(v.approx(30).as_fraction())
            else:
                out[n] = 0.0
        for n in self.bools:
            out[n] = z3.is_true(model.eval(z3.Bool(n), model_completion=True))
        return out

def clear(p):
    """multiply out quotient atoms (their denominators are non-zero)"""
    while True:
        qs = [a for a in p.atoms() if T.ATOMS[a].kind == "quot"]
        if not qs:
            return p
        a = max(qs)
        num, den = T.ATOMS[a].args
        deg = max((dict(m).get(a, 0) for m in p.t), default=0)
        dp = [ONE]
        np_ = [ONE]
        for _ in range(deg):
            dp.append(dp[-1] * den)
            np_.append(np_[-1] * num)
        acc = ZERO
        byd = {}
        for m, c in p.t.items():
            d = dict(m).get(a, 0)
            rest = tuple(x for x in m if x[0] != a)
            byd.setdefault(d, {})
            byd[d][rest] = byd[d].get(rest, 0) + c
        for d, t in byd.items():
            acc = acc + Poly(t) * np_[d] * dp[deg - d]
        p = acc

# --------------------------------------------------------------------------- float operations
def _sgn(p):
    """sign of a finite value: forks"""
    c = CTX
    if c.branch(cmp0(p, "eq0")):
        return 0
    return -1 if c.branch(cmp0(p, "lt0")) else 1

def sgn(v):
    if isinstance(v, Poly):
        return _sgn(v)
    return 1 if v is PINF else -1

def fadd(a, b):
    if isinstance(a, Poly) and isinstance(b, Poly):
        return a + b
    if a is NAN or b is NAN:
        return NAN
    if isinstance(a, Poly):
        return b
    if isinstance(b, Poly):
        return a
    return a if a is b else NAN

def fneg(a):
    if isinstance(a, Poly):
        return -a
    return {"nan": NAN, "inf": NINF, "-inf": PINF}[a.k]

def fsub(a, b):
    return fadd(a, fneg(b))

def fmul(a, b):
    if isinstance(a, Poly) and isinstance(b, Poly):
        r = a * b
        if (len(a.t) > 1 or len(b.t) > 1) and r.t and not a.is_const() and not b.is_const():
            q, c = r.canon()
            T.PRODS.setdefault(q, (a, b, c))
        return r
    if a is NAN or b is NAN:
        return NAN
    sa, sb = sgn(a), sgn(b)
    if sa * sb == 0:
        return NAN
    return PINF if sa * sb > 0 else NINF

def _polydiv(a, b):
    """exact quotient a/b of polynomials, or None"""
    if len(b.t) > 8 or len(a.t) > 200:
        if len(b.t) != len(a.t):
            return None
    lm, lc = b.lead()
    lmd = dict(lm)
    q = ZERO
    r = a
    for _ in range(60):
        if not r.t:
            return q
        rm, rc = r.lead()
        rd = dict(rm)
        ok = True
        for x, e in lmd.items():
            if rd.get(x, 0) < e:
                return None
            rd[x] -= e
        t = Poly({tuple(sorted((x, e) for x, e in rd.items() if e)): rc / lc})
        q = q + t
        r = r - t * b
    return None

def quot(a, b):
    """a/b for b known non-zero"""
    if not a.t:
        return ZERO
    if b.is_const():
        return a.scale(1 / b.cval())
    qa, ca = a.canon()
    qb, cb = b.canon()
    k = ca / cb
    if qa == qb:
        return Poly.const(k)
    # x / (n/d)  ->  x*d/n
    if len(qb.t) == 1:
        (m,) = qb.t
        for at, e in m:
            if T.ATOMS[at].kind == "quot" and e == 1:
                n, d = T.ATOMS[at].args
                rest = tuple(x for x in m if x[0] != at)
                return quot(qa * d, n * Poly({rest: Fraction(1)})).scale(k)
    if len(qa.t) == 1:
        (m,) = qa.t
        for at, e in m:
            if T.ATOMS[at].kind == "quot" and e == 1:
                n, d = T.ATOMS[at].args
                rest = tuple(x for x in m if x[0] != at)
                return quot(n * Poly({rest: Fraction(1)}), d * qb).scale(k)
    # common monomial factor
    common = None
    for p in (qa, qb):
        for m in p.t:
            d = dict(m)
            common = d if common is None else {x: min(e, d[x]) for x, e in common.items() if x in d}
            if not common:
                break
        if not common:
            break
    if common:
        def strip(p):
            out = {}
            for m, c in p.t.items():
                out[tuple(sorted((x, e - common.get(x, 0)) for x, e in m if e - common.get(x, 0)))] = c
            return Poly(out)
        return quot(strip(qa), strip(qb)).scale(k)
    d = _polydiv(qa, qb)
    if d is not None:
        return d.scale(k)
    at = T._mk_atom("quot", (qa, qb), False, ("quot", qa.key(), qb.key()))
    return Poly({((at.id, 1),): k})

def fdiv(a, b):
    if a is NAN or b is NAN:
        return NAN
    if isinstance(b, FSpec):
        return ZERO if isinstance(a, Poly) else NAN
    if isinstance(a, FSpec):
        s = _sgn(b)
        # x/0 takes the sign of +0 (signed zeros are outside the model)
        return a if s >= 0 else fneg(a)
    if b.is_const() and b.cval():
        return a.scale(1 / b.cval())
    if CTX.branch(cmp0(b, "eq0")):
        s = _sgn(a)
        return NAN if s == 0 else PINF if s > 0 else NINF
    return quot(a, b)

def fabs(a):
    if isinstance(a, FSpec):
        return NAN if a is NAN else PINF
    if a.is_const():
        return Poly.const(abs(a.cval()))
    q, c = a.canon()
    k = abs(c)
    kn = CTX.known.get(q, ALLS) if CTX else ALLS
    if q.nonneg_syntactic() or -1 not in kn:
        return q.scale(k)
    if 1 not in kn:
        return q.scale(-k)
    at = T._mk_atom("abs", (q,), False, ("abs", q.key()))
    return Poly({((at.id, 1),): k})

def _isqrt(fr):
    n, d = fr.numerator, fr.denominator
    a, b = math.isqrt(n), math.isqrt(d)
    return Fraction(a, b) if a * a == n and b * b == d else None

def fsqrt(a):
    if isinstance(a, FSpec):
        return PINF if a is PINF else NAN
    if a.is_const():
        c = a.cval()
        if c < 0:
            return NAN
        r = _isqrt(c)
        if r is not None:
            return Poly.const(r)
        at = T._mk_atom("sqrt", (a,), False, ("sqrt", a.key()))
        return Poly.atom(at)
    if not a.nonneg_syntactic() and CTX.branch(cmp0(a, "lt0")):
        return NAN
    q, c = a.canon()
    k = Fraction(1)
    if c > 0:
        r = _isqrt(c)
        if r is not None:
            k, a = r, q
    # a single even monomial
    if len(a.t) == 1:
        (m,) = a.t
        if a.t[m] == 1 and all(e % 2 == 0 for _, e in m):
            return fabs(Poly({tuple((x, e // 2) for x, e in m): k}))
    at = T._mk_atom("sqrt", (a,), False, ("sqrt", a.key()))
    return Poly({((at.id, 1),): k})

def ffn(name, *args):
    """uninterpreted real function of finite arguments"""
    if any(isinstance(x, FSpec) for x in args):
        raise Unsupported(f"{name} of a special value")
    if len(args) == 1 and name in ("cosh", "cos", "sin", "tan", "tanh", "sinh", "atan", "asin"):
        if not args[0].t:
            return T.ONE if name in ("cosh", "cos") else T.ZERO
        if args[0].canon()[1] < 0:
            r = ffn(name, -args[0])
            return r if name in ("cosh", "cos") else -r
    at = T._mk_atom("fn", (name,) + tuple(args), False, ("fn", name) + tuple(x.key() for x in args))
    return Poly.atom(at)

def fln(a):
    if isinstance(a, FSpec):
        return PINF if a is PINF else NAN
    if a.is_const():
        c = a.cval()
        if c < 0:
            return NAN
        if c == 0:
            return NINF
        if c == 1:
            return ZERO
        return ffn("ln", a)
    s = _sgn(a)
    if s < 0:
        return NAN
    if s == 0:
        return NINF
    if len(a.t) == 1:
        (m,) = a.t
        if a.t[m] == 1 and len(m) == 1 and m[0][1] == 1:
            at = T.ATOMS[m[0][0]]
            if at.kind == "fn" and at.args[0] == "exp":
                return at.args[1]
    return ffn("ln", a)

def _explog(a):
    """exp of a sum of (half) integer multiples of logarithms as a product of powers"""
    r = ONE
    for m, c in sorted(a.t.items()):
        if len(m) != 1 or m[0][1] != 1 or (2 * c).denominator != 1:
            return None
        at = T.ATOMS[m[0][0]]
        if at.kind != "fn" or at.args[0] != "ln":
            return None
        y, n = at.args[1], int(2 * c)
        f = fpowi(y, n // 2)
        if n % 2:
            f = fmul(f, fsqrt(y))
        r = fmul(r, f)
    return r

def fexp(a):
    if isinstance(a, FSpec):
        return NAN if a is NAN else PINF if a is PINF else ZERO
    if not a.t:
        return ONE
    if len(a.t) == 1:
        (m,) = a.t
        if a.t[m] == 1 and len(m) == 1 and m[0][1] == 1:
            at = T.ATOMS[m[0][0]]
            if at.kind == "fn" and at.args[0] == "ln":
                return at.args[1]
    if getattr(CTX, "explog", False):
        r = _explog(a)
        if r is not None:
            return r
    q, c = a.canon()
    if c == -1:  # exp(-x) = 1/exp(x)
        return quot(ONE, fexp(q))
    return ffn("exp", a)

def fpowi(a, n):
    if isinstance(a, FSpec):
        if n == 0:
            return ONE
        if a is NAN:
            return NAN
        if n < 0:
            return ZERO
        return PINF if (a is PINF or n % 2 == 0) else NINF
    if n < 0:
        return fdiv(ONE, fpowi(a, -n))
    r = ONE
    for _ in range(n):
        r = r * a
    return r

def fpow(a, b):
    if isinstance(b, Poly) and b.is_const():
        c = b.cval()
        if c.denominator == 1 and abs(c) <= 12:
            return fpowi(a, int(c))
        if c == Fraction(1, 2):
            return fsqrt(a)
        if c == Fraction(-1, 2):
            return fdiv(ONE, fsqrt(a))
    if isinstance(a, Poly) and isinstance(b, Poly):
        if a.is_const() and a.cval() == 1:
            return ONE
        s = _sgn(a)
        if s < 0:
            raise Unsupported("pow of a negative base")
        if s == 0:
            sb = _sgn(b)
            return ONE if sb == 0 else ZERO if sb > 0 else PINF
        return ffn("pow", a, b)
    raise Unsupported("pow of special values")

def fmax(a, b):
    """f64::max / polars max: ignores NaN"""
    if a is NAN:
        return b
    if b is NAN:
        return a
    return a if CTX.branch(fle(b, a)) else b

def fmin(a, b):
    if a is NAN:
        return b
    if b is NAN:
        return a
    return a if CTX.branch(fle(a, b)) else b

def fmaxs(a, b):
    """max of finite values without forking"""
    return (a + b + fabs(a - b)).scale(Fraction(1, 2))

def fmins(a, b):
    return (a + b - fabs(a - b)).scale(Fraction(1, 2))

def ffloor(a):
    if isinstance(a, FSpec):
        return a
    if a.is_const():
        return Poly.const(math.floor(a.cval()))
    if a.is_int():
        return a
    at = T._mk_atom("floor", (a,), True, ("floor", a.key()))
    return Poly.atom(at)

def ftrunc(a):
    if isinstance(a, FSpec):
        return a
    if a.is_const():
        return Poly.const(math.trunc(a.cval()))
    if a.is_int():
        return a
    if CTX.branch(cmp0(a, "lt0")):
        return -ffloor(-a)
    return ffloor(a)

def is_nan(v):
    return v is NAN

def is_finite(v):
    return isinstance(v, Poly)

# --------------------------------------------------------------------------- integer operations
def wrap(p, lo, hi, ty):
    """machine value of type ty for mathematical value p in [lo,hi]"""
    tlo, thi = RANGES[ty]
    if isinstance(p, int):
        if tlo <= p <= thi:
            return p
        return (p - tlo) % (thi - tlo + 1) + tlo
    if tlo <= lo and hi <= thi:
        return si(p, lo, hi)
    inr = band(cmp0(Poly.const(tlo) - p, "le0"), cmp0(p - Poly.const(thi), "le0"))
    if CTX.branch(inr):
        return si(p, max(lo, tlo), min(hi, thi))
    if p.is_const():
        c = int(p.cval())
        return (c - tlo) % (thi - tlo + 1) + tlo
    at = T._mk_atom("wrap", (p, tlo, thi), True, ("wrap", p.key(), tlo, thi))
    CTX.define(Poly.atom(at))
    return SI(Poly.atom(at), tlo, thi)

def iadd(a, b, ty):
    if isinstance(a, int) and isinstance(b, int):
        return wrap(a + b, 0, 0, ty)
    (la, ha), (lb, hb) = ibounds(a), ibounds(b)
    return wrap(ipoly(a) + ipoly(b), la + lb, ha + hb, ty)

def isub(a, b, ty):
    if isinstance(a, int) and isinstance(b, int):
        return wrap(a - b, 0, 0, ty)
    (la, ha), (lb, hb) = ibounds(a), ibounds(b)
    return wrap(ipoly(a) - ipoly(b), la - hb, ha - lb, ty)

def imul(a, b, ty):
    if isinstance(a, int) and isinstance(b, int):
        return wrap(a * b, 0, 0, ty)
    (la, ha), (lb, hb) = ibounds(a), ibounds(b)
    c = [la * lb, la * hb, ha * lb, ha * hb]
    return wrap(ipoly(a) * ipoly(b), min(c), max(c), ty)

def _iconcrete(v):
    """the concrete value of v if the path pins it, else None"""
    if isinstance(v, int):
        return v
    if isinstance(v, SI) and v.p.is_const():
        return int(v.p.cval())
    return None

def idivmod_floor(a, b):
    """mathematical floor division for b > 0"""
    if isinstance(a, int) and isinstance(b, int):
        return a // b, a % b
    pa, pb = ipoly(a), ipoly(b)
    (la, ha), (lb, hb) = ibounds(a), ibounds(b)
    at = T._mk_atom("idiv", (pa, pb), True, ("idiv", pa.key(), pb.key()))
    q = Poly.atom(at)
    CTX.define(q)
    lb = max(lb, 1)
    cs = [la // lb, la // hb, ha // lb, ha // hb]
    return si(q, min(cs), max(cs)), si(pa - q * pb, 0, hb - 1)

def idiv(a, b, ty):
    """truncating division; caller has checked b != 0"""
    if isinstance(a, int) and isinstance(b, int):
        q = abs(a) // abs(b)
        return wrap(q if (a >= 0) == (b >= 0) else -q, 0, 0, ty)
    na = ibounds(a)[0] < 0 and CTX.branch(ilt(a, 0))
    nb = ibounds(b)[0] < 0 and CTX.branch(ilt(b, 0))
    x = _neg(a) if na else a
    y = _neg(b) if nb else b
    q, _ = idivmod_floor(x, y)
    q = q if na == nb else _neg(q)
    return wrap(ipoly(q), *ibounds(q), ty) if isinstance(q, SI) else wrap(q, 0, 0, ty)

def irem(a, b, ty):
    if isinstance(a, int) and isinstance(b, int):
        r = abs(a) % abs(b)
        return r if a >= 0 else -r
    na = ibounds(a)[0] < 0 and CTX.branch(ilt(a, 0))
    nb = ibounds(b)[0] < 0 and CTX.branch(ilt(b, 0))
    x = _neg(a) if na else a
    y = _neg(b) if nb else b
    _, r = idivmod_floor(x, y)
    return _neg(r) if na else r

def _neg(v):
    if isinstance(v, int):
        return -v
    return SI(-v.p, -v.hi, -v.lo)

def iconc(v, cap=64):
    """force a symbolic integer to a concrete value by forking"""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    lo, hi = v.lo, v.hi
    n = 0
    while True:
        # ask the solver for a feasible value, then fork on it
        m = CTX.model
        if m is None:
            r, m = CTX.check()
            if r == z3.unsat:
                raise Infeasible()
            if m is None:
                raise Inconclusive("cannot concretise an index")
        CTX.define(v.p)
        x = m.eval(v.p.z3(), model_completion=True)
        # deterministic re-execution: try values in increasing order when the range is small
        if hi - lo <= cap:
            for k in range(lo, hi + 1):
                if CTX.branch(ieq(v, k)):
                    return k
            raise Infeasible()
        raise Unsupported("symbolic index over a large range")

def any_order(xs):
    """a collection polars / the standard library returns in no particular order: every other evaluation is reversed"""
    k = getattr(CTX, "orders", 0)
    if k is None:       # the caller compares results of two evaluations
        return list(xs)
    CTX.orders = k = k + 1
    return list(xs) if k % 2 else list(xs)[::-1]
