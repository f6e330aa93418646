"""Symbolic interpreter for MIR."""
import re, os, copy as _copy
from fractions import Fraction
from . import mir, ctx as C, term as T
from .term import *
from .ctx import *

UNIT = ()

class StructV:
    __slots__ = ("name", "f", "names")

    def __init__(self, name, f, names=None):
        self.name = name
        self.f = f
        self.names = names

    def __repr__(self):
        return f"{self.name}{self.f}"

class EnumV:
    __slots__ = ("name", "var", "f")

    def __init__(self, name, var, f):
        self.name = name
        self.var = var
        self.f = f

    def __repr__(self):
        return f"{self.var}{self.f}"

def tup(*xs):
    return StructV("tuple", list(xs))

def Some(x):
    return EnumV("Option", "Some", [x])

def None_():
    return EnumV("Option", "None", [])

def Ok(x):
    return EnumV("Result", "Ok", [x])

def Err(x):
    return EnumV("Result", "Err", [x])

class VecV:
    """Vec<T>, [T; N], Box<[T]>"""
    __slots__ = ("d", "arr")

    def __init__(self, d, arr=False):
        self.d = d
        self.arr = arr

    def __repr__(self):
        return f"Vec{self.d}"

class SliceV:
    __slots__ = ("d", "o", "n")

    def __init__(self, d, o=0, n=None):
        self.d = d
        self.o = o
        self.n = len(d) - o if n is None else n

    def items(self):
        return self.d[self.o:self.o + self.n]

    def __repr__(self):
        return f"Slice{self.items()}"

class Ref:
    __slots__ = ("o", "k")

    def __init__(self, o, k):
        self.o = o
        self.k = k

    def get(self):
        return self.o[self.k]

    def set(self, v):
        self.o[self.k] = v

    def __repr__(self):
        return f"&{self.o[self.k]!r}"

class BoxV:
    __slots__ = ("c",)

    def __init__(self, v):
        self.c = [v]

class StrV:
    """&str / String / PlSmallStr: list of code points (int or SI)"""
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = [ord(x) for x in c] if isinstance(c, str) else c

    def __repr__(self):
        try:
            return '"' + "".join(chr(x) for x in self.c) + '"'
        except TypeError:
            return f"Str{self.c}"

    def concrete(self):
        if all(isinstance(x, int) for x in self.c):
            return "".join(chr(x) for x in self.c)
        return None

    def eq_sym(self, o):
        if isinstance(o, str):
            o = StrV(o)
        if not isinstance(o, StrV):
            return False
        if len(self.c) != len(o.c):
            return False
        return band(*[ieq(a, b) for a, b in zip(self.c, o.c)])

class Closure:
    __slots__ = ("name", "f", "env", "by")      # by: the function whose body makes it

    def __init__(self, name, f, env=None, by=None):
        self.by = by
        self.name = name
        self.f = f
        self.env = env

class FnItem:
    __slots__ = ("path", "env")

    def __init__(self, path, env=None):
        self.path = path
        self.env = env

class PyFn:
    """a python callable used as a Rust function value"""
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn

class Opaque:
    """a value the model does not look into"""
    __slots__ = ("k", "a")

    def __init__(self, k, *a):
        self.k = k
        self.a = a

    def __repr__(self):
        return f"<{self.k}>"

def deref(v):
    while True:
        if isinstance(v, Ref):
            v = v.o[v.k]
        elif isinstance(v, BoxV):
            v = v.c[0]
        else:
            return v

def clone(v):
    """deep copy of owned data"""
    if isinstance(v, StructV):
        return StructV(v.name, [clone(x) for x in v.f], v.names)
    if isinstance(v, EnumV):
        return EnumV(v.name, v.var, [clone(x) for x in v.f])
    if isinstance(v, VecV):
        return VecV([clone(x) for x in v.d], v.arr)
    if isinstance(v, BoxV):
        return BoxV(clone(v.c[0]))
    if isinstance(v, StrV):
        return StrV(list(v.c))
    if hasattr(v, "clone_sym"):
        return v.clone_sym()
    return v

def copyval(v):
    if isinstance(v, (StructV, EnumV)) or (isinstance(v, VecV) and v.arr):
        return clone(v)
    return v

STD_DISC = {"None": 0, "Some": 1, "Ok": 0, "Err": 1, "Continue": 0, "Break": 1, "Less": -1, "Equal": 0, "Greater": 1,
            "Borrowed": 0, "Owned": 1, "Included": 0, "Excluded": 1, "Unbounded": 2}

MODELS = {}

def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco

class Call:
    """what a model sees of the call site"""
    __slots__ = ("path", "env", "key", "dty")

    def __init__(self, path, env, key, dty=None):
        self.path = path
        self.env = env
        self.key = key
        self.dty = dty

class Frame:
    __slots__ = ("fn", "locals", "env")

    def __init__(self, fn, n, env):
        self.fn = fn
        self.locals = [None] * n
        self.env = env

NUMT = {"u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"}

class Program:
    """the crate: MIR + what has to be read from the sources (impl headers, enum variant order, generics)"""

    def __init__(self, mir_text, root):
        self.root = root
        self.crate = mir.Crate(mir_text)
        self.src = {}
        self.trait_impls = {}   # (trait, method) -> [(selfty, fn)]
        self.inherent = {}      # (type, method) -> [(selfty, fn)]
        self.free = {}          # last segment -> [fn]
        self.closures = {}
        self.twins = {}          # closures written once in a macro and expanded per type share a span
        self.enums = {}
        self.structs = {}
        self.default_methods = {}
        self._generics = {}
        self._scan_src()
        self._index()

    def sources(self):
        """(path, text) of the crate's files"""
        if not hasattr(self, "_srcs"):
            self._srcs = list(self._sources())
        return self._srcs

    def _sources(self):
        for d, _, fs in sorted(os.walk(os.path.join(self.root, "src"))):
            for f in sorted(fs):
                if f.endswith(".rs"):
                    yield f, open(os.path.join(d, f)).read()

    def read(self, rel):
        s = self.src.get(rel)
        if s is None:
            with open(os.path.join(self.root, rel)) as f:
                s = f.read().split("\n")
            self.src[rel] = s
        return s

    def _scan_src(self):
        for d, _, fs in os.walk(os.path.join(self.root, "src")):
            for fn in fs:
                if fn.endswith(".rs"):
                    rel = os.path.relpath(os.path.join(d, fn), self.root)
                    txt = "\n".join(self.read(rel))
                    txt = re.sub(r"//[^\n]*", "", txt)
                    for m in re.finditer(r"\benum\s+(\w+)[^{;]*\{", txt):
                        body = self._braces(txt, m.end() - 1)
                        vs = []
                        for part in mir.split_top(re.sub(r"#\[[^\]]*\]", "", body)):
                            mm = re.match(r"\s*(\w+)", part)
                            if mm:
                                vs.append(mm.group(1))
                        self.enums[m.group(1)] = vs
                    for m in re.finditer(r"\bstruct\s+(\w+)[^{;(]*\{", txt):
                        body = self._braces(txt, m.end() - 1)
                        fs_ = []
                        for part in mir.split_top(re.sub(r"#\[[^\]]*\]", "", body)):
                            mm = re.match(r"\s*(?:pub(?:\([^)]*\))?\s+)?(\w+)\s*:\s*(.*)", part, re.S)
                            if mm:
                                fs_.append((mm.group(1), mm.group(2).strip()))
                        self.structs[m.group(1)] = fs_

    @staticmethod
    def _braces(txt, i):
        d = 0
        j = i
        while True:
            if txt[j] == "{":
                d += 1
            elif txt[j] == "}":
                d -= 1
                if d == 0:
                    return txt[i + 1:j]
            j += 1

    IMPL_RE = re.compile(r"<impl at ([^:>]+):(\d+):(\d+): \d+:\d+>")

    def impl_header(self, rel, line, col):
        src = self.read(rel)
        t = src[line - 1][col - 1:]
        k = line
        while "{" not in t and k < len(src):
            t += " " + re.sub(r"//.*", "", src[k])
            k += 1
        return t[:t.index("{")] if "{" in t else t

    def _index(self):
        hdr = {}
        for name, f in self.crate.fns.items():
            ms = list(self.IMPL_RE.finditer(name))
            if "::{closure#" in name:
                m = re.search(r"\{closure@[^}]*\}", f.header)
                if m:
                    self.closures[m.group(0)] = f
                    self.twins.setdefault(m.group(0), []).append(f)
                continue
            if ms:
                m = ms[-1]
                method = name[m.end():].lstrip(":")
                key = (m.group(1), int(m.group(2)), int(m.group(3)))
                if key not in hdr:
                    try:
                        hdr[key] = self.impl_header(*key)
                    except (OSError, IndexError, ValueError):
                        hdr[key] = ""
                h = hdr[key].strip()
                if not h.startswith("impl") and not h.startswith("unsafe impl"):
                    self.trait_impls.setdefault((h.split()[0] if h else "", method), []).append(("derive", f))
                    continue
                h = re.sub(r"^unsafe ", "", h)[4:].strip()
                if h.startswith("<"):
                    d = 0
                    for i, c in enumerate(h):
                        if c == "<":
                            d += 1
                        elif c == ">" and h[i - 1] not in "-=":
                            d -= 1
                            if d == 0:
                                break
                    f.info["impl_gens"] = h[1:i]
                    h = h[i + 1:].strip()
                h = re.split(r"\bwhere\b", h)[0].strip()
                k = mir.top_find(h, " for ")
                if k >= 0:
                    tr, ty = h[:k].strip(), h[k + 5:].strip()
                    f.info["trait"] = tr
                    if ty.startswith("$"):
                        # written by a macro: one function per type, told apart by the type of self
                        for g in self.crate.dups.get(name, [f]):
                            m1 = re.search(r"\(_1: &?(?:'\w+ )?(?:mut )?(.*)$", g.header)
                            if not m1:
                                continue
                            t1 = m1.group(1)
                            d = 0
                            for i, ch in enumerate(t1):
                                if ch in "<(":
                                    d += 1
                                elif (ch == ">" and t1[i - 1] not in "-=") or (ch == ")" and d):
                                    d -= 1
                                elif ch in ",)" and d == 0:
                                    t1 = t1[:i]
                                    break
                            g.info["self"], g.info["trait"] = t1, tr
                            self.trait_impls.setdefault((mir.base_name(tr), method), []).append((t1, g))
                        continue
                    f.info["self"] = ty
                    self.trait_impls.setdefault((mir.base_name(tr), method), []).append((ty, f))
                else:
                    f.info["self"] = h
                    self.inherent.setdefault((mir.base_name(h), method), []).append((h, f))
                continue
            segs = mir.split_path(name)
            self.free.setdefault(segs[-1], []).append((segs, f))

    def fn_generics(self, f):
        """names of the type parameters of a free function / method, from the source"""
        g = self._generics.get(f.name)
        if g is None:
            last = mir.split_path(f.name)[-1]
            g = []
            for rel, lines in self.src.items():
                txt = "\n".join(lines)
                m = re.search(r"\bfn\s+" + re.escape(last) + r"\s*<", txt)
                if m:
                    i = m.end() - 1
                    d = 0
                    j = i
                    while True:
                        if txt[j] == "<":
                            d += 1
                        elif txt[j] == ">" and txt[j - 1] not in "-=":
                            d -= 1
                            if d == 0:
                                break
                        j += 1
                    for p in mir.split_top(txt[i + 1:j]):
                        p = p.strip()
                        if p and not p.startswith("'"):
                            g.append(re.match(r"(?:const\s+)?(\w+)", p).group(1))
                    break
            self._generics[f.name] = g
        return g

    def find_free(self, segs):
        """crate function for a (possibly trimmed) path"""
        c = self.free.get(segs[-1])
        if not c:
            return None
        best = [f for s, f in c if s[-len(segs):] == segs]
        if not best:
            # the path in the call may be longer than the printed name
            best = [f for s, f in c if segs[-len(s):] == s]
        return best[0] if best else None

class Interp:
    def __init__(self, prog, threads=1, fuel=400000):
        self.prog = prog
        self.threads = threads
        self.fuel = fuel
        self.depth = 0
        self.opts = {}

    # ---------------------------------------------------------------- entry
    def call_named(self, name, args, env=None):
        f = self.prog.crate.fns.get(name) or self.prog.find_free(name.split("::"))
        if f is None:
            raise Unsupported(f"no function {name} in the MIR of the crate")
        return self.run(f, args, env or {})

    def run(self, f, args, env):
        f.parse()
        STATS.fns.add(f.name)
        self.depth += 1
        if self.depth > 120:
            raise Inconclusive("recursion too deep")
        fr = Frame(f, f.nlocals, env)
        for i, a in zip(f.params, args):
            fr.locals[i] = a
        for i, t in f.zst:
            fr.locals[i] = Closure(t, [], env, fr.fn.name)
        if len(f.params) != len(args):
            raise Unsupported(f"arity of {f.name}: {len(f.params)} vs {len(args)}")
        b = 0
        try:
            while True:
                nb = None
                for st in mir.get_block(f, b):
                    self.fuel -= 1
                    if self.fuel < 0:
                        raise Inconclusive("step budget of the path is used up")
                    k = st[0]
                    if k == "assign":
                        v = self.rvalue(fr, st[2], st[1])
                        self.store(fr, st[1], v)
                    elif k == "call":
                        v = self.call(fr, st)
                        if st[4] is None:
                            raise PathPanic(f"diverging call {st[2]}")
                        self.store(fr, st[1], v)
                        nb = st[4]
                    elif k == "goto":
                        nb = st[1]
                    elif k == "switch":
                        nb = self.switch(fr, st)
                    elif k == "assert":
                        v = self.operand(fr, st[1])
                        if CTX_branch(v) != st[2]:
                            raise PathPanic("assertion: " + st[3])
                        nb = st[4]
                    elif k == "return":
                        r = fr.locals[0]
                        return UNIT if r is None and f.ret == "()" else r
                    elif k == "nop":
                        pass
                    elif k == "unreachable":
                        raise Infeasible()
                    elif k == "setdisc":
                        raise Unsupported("SetDiscriminant")
                    else:
                        raise Unsupported(f"statement {st}")
                if nb is None:
                    raise Unsupported("block without successor")
                b = nb
        finally:
            self.depth -= 1

    # ---------------------------------------------------------------- places
    def place_slot(self, fr, p):
        o, k = fr.locals, p[0]
        for pr in p[1]:
            t = pr[0]
            if t == "deref":
                v = o[k]
                if isinstance(v, Ref):
                    o, k = v.o, v.k
                elif isinstance(v, BoxV):
                    o, k = v.c, 0
                else:
                    o, k = [v], 0
            elif t == "field":
                v = o[k]
                if isinstance(v, (StructV, EnumV)):
                    while len(v.f) <= pr[1]:
                        v.f.append(None)
                    o, k = v.f, pr[1]
                elif isinstance(v, Closure):
                    o, k = v.f, pr[1]
                elif isinstance(v, BoxV):
                    o, k = [v], 0          # Box internals: stay on the box
                elif ("NonNull" in pr[2] or "*const" in pr[2] or "Unique" in pr[2]) and (isinstance(v, Ref) or hasattr(v, "vals")):
                    o, k = [v], 0
                elif v is None and o is fr.locals:
                    # field-wise initialisation of an aggregate
                    o[k] = StructV("init", [])
                    while len(o[k].f) <= pr[1]:
                        o[k].f.append(None)
                    o, k = o[k].f, pr[1]
                elif hasattr(v, "field_sym"):
                    o, k = v.field_sym(pr[1]), 0
                else:
                    raise Unsupported(f"field {pr[1]} ({pr[2]}) of {type(v).__name__} in {fr.fn.name}")
            elif t == "downcast":
                pass
            elif t == "index":
                i = fr.locals[pr[1]]
                v = o[k]
                if isinstance(i, FM):
                    v = deref(v)
                    d, off, n = (v.d, v.o, v.n) if isinstance(v, SliceV) else (v.d, 0, len(v.d))
                    if not all(isinstance(x, int) for x in d):
                        raise Unsupported("a table of symbolic values indexed by a character")
                    o, k = [i.map(lambda j: d[off + j] if 0 <= j < n else None)], 0
                    continue
                if not isinstance(i, int):
                    i = iconc(i)
                if isinstance(v, Ref):
                    v = deref(v)
                if isinstance(v, VecV):
                    o, k = v.d, i
                elif isinstance(v, SliceV):
                    o, k = v.d, v.o + i
                else:
                    raise Unsupported(f"index into {type(v).__name__}")
            elif t == "cindex":
                v = deref(o[k])
                if isinstance(v, SliceV):
                    o, k = v.d, (v.o + v.n - pr[1]) if pr[2] else v.o + pr[1]
                elif isinstance(v, VecV):
                    o, k = v.d, (len(v.d) - pr[1]) if pr[2] else pr[1]
                else:
                    raise Unsupported("const index")
            elif t == "sub":
                v = deref(o[k])
                if isinstance(v, VecV):
                    v = SliceV(v.d)
                a = pr[1]
                e = v.n - pr[2] if pr[3] or pr[2] == 0 else pr[2]
                o, k = [SliceV(v.d, v.o + a, e - a)], 0
            else:
                raise Unsupported(str(pr))
        return o, k

    def load(self, fr, p):
        o, k = self.place_slot(fr, p)
        try:
            return o[k]
        except IndexError:
            raise PathPanic("index out of bounds")

    def store(self, fr, p, v):
        o, k = self.place_slot(fr, p)
        o[k] = v

    def place_ty(self, fr, p):
        ty = fr.fn.locals.get(p[0], "?")
        for pr in p[1]:
            if pr[0] == "field":
                ty = pr[2]
            elif pr[0] == "deref":
                ty = strip_ref(ty)
            elif pr[0] in ("index", "cindex"):
                ty = elem_ty(ty)
        return ty

    def operand_ty(self, fr, op):
        if op[0] == "const":
            c = op[1]
            return c[2] if c[0] == "int" else {"bool": "bool", "char": "char", "float": "f64"}.get(c[0], "?")
        return self.place_ty(fr, op[1])

    # ---------------------------------------------------------------- operands
    def operand(self, fr, op):
        k = op[0]
        if k == "move":
            return self.load(fr, op[1])
        if k == "copy":
            return copyval(self.load(fr, op[1]))
        return self.const(fr, op[1])

    def const(self, fr, c):
        k = c[0]
        if k in ("int", "bool", "char"):
            return c[1]
        if k == "float":
            return fl(c[1])
        if k == "str":
            return StrV(c[1])
        if k == "unit":
            return UNIT
        if k == "bstr":
            v = VecV([ord(x) for x in c[1]], True)
            return Ref([v], 0)
        if k == "zst":
            t = c[1]
            if t.startswith("{closure@"):
                return Closure(t, [], fr.env, fr.fn.name)
            return Opaque("zst", t)
        return self.const_path(fr, c[1])

    def const_path(self, fr, s):
        v = CONSTS.get(re.sub(r"<impl (f64|f32|[iu]\w+)>", r"\1", s).replace("core::", "").replace("std::", ""), NotImplemented)
        if v is not NotImplemented:
            return v() if callable(v) else v
        f = self.prog.crate.consts.get(s)
        if f is None:
            segs = mir.split_path(s)
            cands = []
            for n, g in self.prog.crate.consts.items():
                ns = mir.split_path(n)
                if ns[-1] == segs[-1] and (ns == segs[-len(ns):] or segs == ns[-len(segs):]):
                    cands.append(g)
            if not cands and "promoted[" in s:
                # Type::<..>::method::promoted[0] : find through the impl tables
                m = re.match(r"(.*)::(promoted\[\d+\])$", s)
                path = mir.parse_path(m.group(1))
                g = self.resolve(path, fr, [])
                if isinstance(g, mir.Fn):
                    cands = [self.prog.crate.consts[g.name + "::" + m.group(2)]]
            if cands:
                f = cands[0]
        if f is not None:
            return self.run(f, [], fr.env)
        if s.startswith("{alloc"):
            m = re.match(r"\{(alloc\d+): (.*)\}$", s)
            n = self.prog.crate.allocs.get(m.group(1)) if m else None
            if n is not None:
                v = self.static(n)
                return v if isinstance(v, Opaque) else Ref([v], 0)
            return self.static(m.group(2)) if m else Opaque("alloc", s)
        p = mir.parse_path(s)
        if "{" in s and not p.qself and "<impl" not in s:
            return Opaque("const", s)
        last = p.segs[-1][0]
        if last in ("None",) or (last in STD_DISC and len(p.segs) > 1):
            return EnumV(p.segs[-2][0] if len(p.segs) > 1 else "", last, [])
        if len(p.segs) > 1 and p.segs[-2][0] in self.prog.enums and last in self.prog.enums[p.segs[-2][0]]:
            return EnumV(p.segs[-2][0], last, [])
        # static references / function items
        if s.isupper() or (last.isupper() and len(last) > 1):
            return self.static(s)
        if last[:1].isupper() and not p.qself:
            return EnumV(p.segs[-2][0] if len(p.segs) > 1 else last, last, []) if len(p.segs) > 1 else StructV(last, [])
        return FnItem(p, fr.env)

    def static(self, s):
        last = re.split(r"[ :<&]", s)[-1]
        for n, g in self.prog.crate.consts.items():
            if mir.split_path(n)[-1] == last and last:
                if n not in STATICS:
                    STATICS[n] = self.run(g, [], {})
                return STATICS[n]
        return Opaque("static", s)

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, fr, r, dst):
        k = r[0]
        if k == "use":
            return self.operand(fr, r[1])
        if k == "ref":
            p = r[1]
            # &*x of a reference/slice is x itself
            if p[1] and p[1][-1] == ("deref",):
                base = self.load(fr, (p[0], p[1][:-1]))
                if isinstance(base, BoxV):
                    return Ref(base.c, 0)
                return base
            o, kk = self.place_slot(fr, p)
            if p[1] and p[1][-1][0] == "sub":
                return o[kk]
            return Ref(o, kk)
        if k == "bin":
            return self.binop(fr, r, dst)
        if k == "un":
            v = self.operand(fr, r[2])
            if r[1] == "PtrMetadata":
                return self.length(v)
            if r[1] == "Not":
                if isinstance(v, (bool, SBool)):
                    return bnot(v)
                ty = self.operand_ty(fr, r[2])
                ty = self.subst(ty, fr.env)
                if isinstance(v, int) and ty in T.RANGES:
                    return ~v if ty[0] == "i" else T.RANGES[ty][1] - v
                raise Unsupported("Not of " + str(v))
            if r[1] == "Neg":
                if is_float(v):
                    return fneg(v)
                ty = self.subst(self.operand_ty(fr, r[2]), fr.env)
                return isub(0, v, ty)
        if k == "len":
            return self.length(self.load(fr, r[1]))
        if k == "disc":
            return self.discriminant(self.load(fr, r[1]))
        if k == "cast":
            return self.cast(fr, r)
        if k == "tuple":
            if not r[1]:
                return UNIT
            return StructV("tuple", [self.operand(fr, x) for x in r[1]])
        if k == "array":
            return VecV([self.operand(fr, x) for x in r[1]], True)
        if k == "repeat":
            v = self.operand(fr, r[1])
            n = r[2]
            m = re.match(r"^(\d+)(_usize)?$", n)
            if not m:
                n = self.const(fr, mir.parse_const(n.replace("const ", "")))
            else:
                n = int(m.group(1))
            return VecV([clone(v) for _ in range(n)], True)
        if k == "closure":
            return Closure(r[1], [self.operand(fr, x) for x in r[2]], fr.env, fr.fn.name)
        if k == "struct":
            p = r[1]
            vals = [self.operand(fr, x) for _, x in r[2]]
            last = p.segs[-1][0]
            if len(p.segs) > 1 and p.segs[-2][0] in self.prog.enums and last in self.prog.enums[p.segs[-2][0]]:
                return EnumV(p.segs[-2][0], last, vals)
            return StructV(last, vals, [n for n, _ in r[2]])
        if k == "variant":
            p = r[1]
            last = p.segs[-1][0]
            vals = [self.operand(fr, x) for x in r[2]]
            if len(p.segs) == 1:
                return StructV(last, vals)
            return EnumV(p.segs[-2][0], last, vals)
        if k == "shallowbox":
            return self.operand(fr, r[1])
        if k == "sizeof":
            return 8
        raise Unsupported(f"rvalue {r}")

    def length(self, v):
        v = deref(v)
        if isinstance(v, SliceV):
            return v.n
        if isinstance(v, VecV):
            return len(v.d)
        if isinstance(v, StrV):
            return len(v.c)
        raise Unsupported(f"length of {type(v).__name__}")

    def discriminant(self, v):
        v = deref(v)
        if isinstance(v, EnumV):
            base = v.name
            if base == "DataType":
                from .models_polars import DT_ORDER
                return DT_ORDER.index(v.var)
            if v.var in STD_DISC and base not in self.prog.enums:
                return STD_DISC[v.var]
            vs = self.prog.enums.get(base)
            if vs and v.var in vs:
                return vs.index(v.var)
            if v.var in STD_DISC:
                return STD_DISC[v.var]
            raise Unsupported(f"discriminant of {v.name}::{v.var}")
        raise Unsupported(f"discriminant of {type(v).__name__}")

    def switch(self, fr, st):
        v = self.operand(fr, st[1])
        if isinstance(v, SBool):
            v = 1 if C.CTX.branch(v) else 0
        elif isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            for k, b in st[2]:
                if k == v or (v < 0 and k in (v + 256, v + 2 ** 64, v + 2 ** 32)):
                    return b
            return st[3]
        if isinstance(v, SI):
            for k, b in st[2]:
                if v.lo < 0 and k > v.hi:
                    for w in (8, 16, 32, 64):
                        if v.lo <= k - 2 ** w <= v.hi:
                            k = k - 2 ** w
                            break
                if C.CTX.branch(ieq(v, k)):
                    return b
            return st[3]
        if isinstance(v, FM):
            for k, b in st[2]:
                if C.CTX.branch(v.cond(lambda x: x == k)):
                    return b
            return st[3]
        raise Unsupported(f"switch on {type(v).__name__}")

    CMP = {"Eq", "Ne", "Lt", "Le", "Gt", "Ge"}

    def binop(self, fr, r, dst):
        op = r[1]
        a = self.operand(fr, r[2])
        b = self.operand(fr, r[3])
        if op in self.CMP:
            return self.compare(op, a, b)
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            if op == "BitAnd":
                return band(a, b)
            if op == "BitOr":
                return bor(a, b)
            if op == "BitXor":
                return bor(band(a, bnot(b)), band(bnot(a), b))
        if is_float(a) or is_float(b):
            return FLOATOPS[op](a, b)
        ty = self.subst(self.place_ty(fr, dst), fr.env)
        if op.endswith("WithOverflow"):
            ty = self.subst(self.operand_ty(fr, r[2]), fr.env)
            base = op[:3]
            wide = {"Add": iadd, "Sub": isub, "Mul": imul}[base](a, b, "i128")
            lo, hi = T.RANGES[ty]
            ov = bor(ilt(wide, lo), ilt(hi, wide))
            if C.CTX.branch(ov):
                return tup({"Add": iadd, "Sub": isub, "Mul": imul}[base](a, b, ty), True)
            return tup(wide, False)
        if op == "Cmp":
            return ordering(self, a, b)
        return int_binop(op, a, b, ty)

    def compare(self, op, a, b):
        if isinstance(a, Ref) or isinstance(b, Ref):
            a, b = deref(a), deref(b)
        if is_float(a) and is_float(b):
            if op == "Eq":
                return feq(a, b)
            if op == "Ne":
                return bnot(feq(a, b))
            return {"Lt": lambda: flt(a, b), "Le": lambda: fle(a, b), "Gt": lambda: flt(b, a), "Ge": lambda: fle(b, a)}[op]()
        if isinstance(a, SBool) or isinstance(b, SBool):
            e = bor(band(a, b), band(bnot(a), bnot(b)))
            if op == "Eq":
                return e
            if op == "Ne":
                return bnot(e)
            if op == "Lt":
                return band(bnot(a), b)
            if op == "Gt":
                return band(a, bnot(b))
            if op == "Le":
                return bor(bnot(a), b)
            return bor(a, bnot(b))
        if isinstance(a, (int, SI)) and isinstance(b, (int, SI)):
            return {"Eq": lambda: ieq(a, b), "Ne": lambda: bnot(ieq(a, b)), "Lt": lambda: ilt(a, b), "Le": lambda: ile(a, b),
                    "Gt": lambda: ilt(b, a), "Ge": lambda: ile(b, a)}[op]()
        if isinstance(a, FM) and isinstance(b, int) or isinstance(b, FM) and isinstance(a, int):
            f = {"Eq": lambda x, y: x == y, "Ne": lambda x, y: x != y, "Lt": lambda x, y: x < y, "Le": lambda x, y: x <= y, "Gt": lambda x, y: x > y, "Ge": lambda x, y: x >= y}[op]
            return a.cond(lambda v: f(v, b)) if isinstance(a, FM) else b.cond(lambda v: f(a, v))
        raise Unsupported(f"compare {type(a).__name__} {type(b).__name__}")

    def cast(self, fr, r):
        v = self.operand(fr, r[1])
        ty, kind = self.subst(r[2], fr.env), r[3]
        if kind.startswith("IntToInt"):
            if isinstance(v, SBool):
                return 1 if C.CTX.branch(v) else 0
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, EnumV):
                return self.discriminant(v)
            if isinstance(v, FM):
                return v.map(lambda x: wrap(x, 0, 0, ty))
            if ty in T.RANGES:
                return wrap(ipoly(v), *ibounds(v), ty) if isinstance(v, SI) else wrap(v, 0, 0, ty)
            raise Unsupported("cast to " + ty)
        if kind.startswith("IntToFloat"):
            if isinstance(v, SBool):
                return ONE if C.CTX.branch(v) else ZERO
            return fl(v)
        if kind.startswith("FloatToFloat"):
            return v
        if kind.startswith("FloatToInt"):
            return float_to_int(v, ty)
        if "ClosureFnPointer" in kind or "ReifyFnPointer" in kind:
            return v
        if "Unsize" in kind:
            w = v
            if isinstance(w, Ref):
                x = deref(w)
                if isinstance(x, VecV) and x.arr:
                    return SliceV(x.d)
            if isinstance(w, BoxV) and isinstance(w.c[0], VecV):
                return w
            return v
        return v

    # ---------------------------------------------------------------- types
    def subst(self, ty, env):
        if ty in env:
            return env[ty]
        return ty

    # ---------------------------------------------------------------- calls
    def call(self, fr, st):
        callee = st[2]
        args = [self.operand(fr, a) for a in st[3]]
        if callee[0] == "dyn":
            return self.call_value(self.operand(fr, callee[1]), args)
        dty = self.place_ty(fr, st[1])
        return self.call_path(callee[1], args, fr.env, dty)

    def resolve(self, path, fr, args):
        """crate function for path or None"""
        prog = self.prog
        segs = [s[0] for s in path.segs]
        if path.qself is not None and path.trait is not None:
            tr = mir.base_name(path.trait)
            method = segs[-1]
            c = prog.trait_impls.get((tr, method))
            if c:
                qs = path.qself
                env = getattr(fr, "env", fr) if fr is not None else {}
                qs = self.subst(qs, env)
                qb = mir.base_name(qs)
                hits = [f for ty, f in c if mir.base_name(ty) == qb]
                if len(hits) > 1:
                    nw = lambda t: re.sub(r"\s|'\w+", "", t)
                    ex = [f for ty, f in c if nw(ty) == nw(qs)]
                    hits = ex or hits
                if len(hits) > 1:
                    ex = [f for ty, f in c if re.sub(r"\s|'\w+", "", ty).split("::")[-1] == re.sub(r"\s|'\w+", "", qs).split("::")[-1]]
                    hits = ex or hits
                if len(hits) > 1 and "<" in path.trait:
                    # several instances of a generic trait: the one with these trait arguments
                    nt = lambda t: re.sub(r"&?'\w+\s*|\s", "", t or "")
                    w = nt(self.subst(path.trait, env))
                    w = w[w.index("<"):]
                    ex = [f for f in hits if nt(f.info.get("trait", "")).endswith(w)]
                    hits = ex or hits
                if hits:
                    return hits[0]
                # generic self: decide on the runtime value
                if re.fullmatch(r"[A-Z]\w?|Self", qb) and args:
                    v = deref(args[0])
                    n = getattr(v, "name", None)
                    for ty, f in c:
                        if mir.base_name(ty) == n or (re.fullmatch(r"[A-Z]\w?", ty.strip()) and not isinstance(v, StructV)):
                            return f
                # blanket impl:  impl<T: ..> Trait for T
                for ty, f in c:
                    if re.fullmatch(r"[A-Z]\w?", ty.strip()):
                        return f
            # default method of a crate trait
            for key in ((tr, method),):
                c = prog.free.get(method)
                if c:
                    for s, f in c:
                        if len(s) >= 2 and s[-2].split("<")[0] == tr:
                            return f
            return None
        if path.qself is not None:
            c = prog.inherent.get((mir.base_name(path.qself), segs[-1]))
            return c[0][1] if c else None
        if len(segs) >= 2:
            ty = segs[-2]
            if ty.startswith("<impl "):
                ty = mir.base_name(ty[6:-1].split(" for ")[-1])
            c = prog.inherent.get((ty, segs[-1]))
            if c:
                if len(c) > 1:
                    g = path.segs[-2][1]
                    for h, f in c:
                        if g and h.split("<", 1)[-1].rstrip(">").strip() == ", ".join(g):
                            return f
                return c[0][1]
        f = prog.crate.fns.get(path.text)
        if f is not None:
            return f
        return prog.find_free(segs)

    def env_for(self, f, path, env, args):
        """bind type parameter names of a crate function"""
        new = {}
        gens = [self.subst(g, env) for g in path.gens if not g.startswith("'")]
        names = self.prog.fn_generics(f)
        for n, g in zip(names, gens):
            new[n] = g
        ig = f.info.get("impl_gens")
        if ig:
            ns = [re.match(r"(?:const\s+)?(\w+)", p.strip()).group(1) for p in mir.split_top(ig) if not p.strip().startswith("'")]
            tg = None
            if path.qself:
                m = re.search(r"<(.*)>\s*$", path.qself)
                tg = mir.split_top(m.group(1)) if m else None
            elif len(path.segs) >= 2:
                tg = path.segs[-2][1]
            if tg:
                tg = [self.subst(g, env) for g in tg if not g.startswith("'")]
                st = f.info.get("self", "")
                m = re.search(r"<(.*)>\s*$", st)
                sn = [x.strip() for x in mir.split_top(m.group(1))] if m else []
                sn = [x for x in sn if not x.startswith("'")]
                for n, g in zip(sn, tg):
                    if n in ns:
                        new[n] = g
        return new

    def path_keys(self, path):
        segs = [s[0] for s in path.segs]
        m = segs[-1]
        if path.qself is not None and path.trait is not None:
            return [f"{mir.base_name(path.trait)}::{m}"]
        if path.qself is not None:
            return [f"{mir.base_name(path.qself)}::{m}"]
        if len(segs) >= 2:
            t = segs[-2]
            if t.startswith("<impl "):
                inner = t[6:-1]
                if " for " in inner:
                    inner = inner.split(" for ")[-1]
                t = mir.base_name(inner)
            return [f"{t}::{m}", f"*::{m}"]
        return [m]

    def call_path(self, path, args, env, dty=None):
        keys = self.path_keys(path)
        # pinned models for crate functions (cuts) come first
        pin = self.opts.get("pins")
        if pin:
            for k in keys:
                if k in pin:
                    return pin[k](self, args, Call(path, env, k, dty))
        f = self.resolve(path, env, args)
        if f is not None:
            return self.run(f, args, self.env_for(f, path, env, args))
        for k in keys:
            g = MODELS.get(k)
            if g is not None:
                STATS.stubs.add(k)
                return g(self, args, Call(path, env, k, dty))
        raise Unsupported(f"no model for {path.text}  {keys}")

    def call_value(self, f, args):
        f = deref(f)
        if isinstance(f, Closure):
            fn = self.prog.closures.get(f.name)
            if fn is None:
                raise Unsupported("closure " + f.name)
            tw = self.prog.twins[f.name]
            if len(tw) > 1:
                own = [t for t in tw if f.by and t.name.startswith(f.by + "::{closure#") and "::" not in t.name[len(f.by) + 2:]]
                fn = own[0] if len(own) == 1 else pick_twin(own or tw, args) or fn
            fn.parse()
            ty = fn.locals[fn.params[0]]
            me = Ref([f], 0) if ty.startswith("&") else f
            return self.run(fn, [me] + list(args), f.env or {})
        if isinstance(f, FnItem):
            return self.call_path(f.path, list(args), f.env or {})
        if isinstance(f, PyFn):
            return f.fn(*args)
        raise Unsupported(f"call of {type(f).__name__}")

def pick_twin(fns, args):
    """of closures expanded per element type, the one for the type of the array arguments"""
    for a in args:
        a = deref(a)
        if isinstance(a, EnumV) and a.f:
            a = deref(a.f[0])
        d = getattr(a, "dt", None)
        if isinstance(d, str):
            for f in fns:
                if any(f"PrimitiveArray<{d}>" in l for l in f.lines):
                    return f
    return None

def CTX_branch(v):
    return C.CTX.branch(v) if isinstance(v, SBool) else bool(v)

def strip_ref(ty):
    ty = ty.strip()
    if ty.startswith("&"):
        ty = ty[1:].strip()
        m = re.match(r"'\w+ ", ty)
        if m:
            ty = ty[m.end():]
        if ty.startswith("mut "):
            ty = ty[4:]
        return ty
    for p in ("*const ", "*mut "):
        if ty.startswith(p):
            return ty[len(p):]
    m = re.match(r"(?:std::boxed::)?Box<(.*)>$", ty)
    if m:
        return m.group(1)
    return ty

def elem_ty(ty):
    ty = ty.strip()
    if ty.startswith("["):
        inner = ty[1:-1]
        i = mir.top_find(inner, "; ")
        return inner[:i] if i >= 0 else inner
    return "?"

FLOATOPS = {"Add": fadd, "Sub": fsub, "Mul": fmul, "Div": fdiv, "Rem": lambda a, b: frem(a, b)}

def frem(a, b):
    if not (isinstance(a, Poly) and isinstance(b, Poly)):
        raise Unsupported("float rem of special values")
    if C.CTX.branch(cmp0(b, "eq0")):
        return NAN
    q = ftrunc(quot(a, b))
    return a - q * b

def float_to_int(v, ty):
    lo, hi = T.RANGES[ty]
    if v is NAN:
        return 0
    if v is PINF:
        return hi
    if v is NINF:
        return lo
    if v.is_const():
        import math
        return max(lo, min(hi, math.trunc(v.cval())))
    t = ftrunc(v)
    if C.CTX.branch(cmp0(t - Poly.const(hi), "le0")):
        if C.CTX.branch(cmp0(Poly.const(lo) - t, "le0")):
            return si(t, lo, hi)
        return lo
    return hi

class FM:
    """an integer that is a table over one small symbolic integer (bit sets indexed by a character)"""
    __slots__ = ("b", "t")
    def __init__(self, b, t):
        self.b, self.t = b, t
    def cond(self, ok):
        """the table's value satisfies ok"""
        runs = []
        for k in sorted(self.t):
            if self.t[k] is not None and ok(self.t[k]):
                if runs and runs[-1][1] == k - 1:
                    runs[-1][1] = k
                else:
                    runs.append([k, k])
        return bor(False, *[band(ile(x, self.b), ile(self.b, y)) for x, y in runs])
    def map(self, f):
        return FM(self.b, {k: None if v is None else f(v) for k, v in self.t.items()})

def finmap(a):
    if isinstance(a, FM):
        return a
    lo = a.lo
    if lo < 0:
        if CTX_branch(ilt(a, 0)):
            return None
        lo = 0
    return FM(a, {k: k for k in range(lo, a.hi + 1)}) if a.hi - lo <= 128 else None

def fm_binop(op, a, b, ty):
    f = lambda x, y: int_binop(op, x, y, ty)
    if isinstance(a, int):
        b = finmap(b)
        return b and b.map(lambda v: f(a, v))
    a = finmap(a)
    if a is None or isinstance(b, int):
        return a and a.map(lambda v: f(v, b))
    b = finmap(b)
    if b is None or b.b.p != a.b.p:
        return None
    return FM(a.b, {k: None if v is None or b.t.get(k) is None else f(v, b.t[k]) for k, v in a.t.items()})

def int_binop(op, a, b, ty):
    if isinstance(a, (SI, FM)) and isinstance(b, (int, SI, FM)) or isinstance(b, (SI, FM)):
        if isinstance(a, FM) or isinstance(b, FM) or getattr(C.CTX, "finmap", False) and op.replace("Unchecked", "") in ("Shl", "Shr", "BitAnd", "BitOr", "BitXor"):
            r = fm_binop(op, a, b, ty)
            if r is not None:
                return r
            if isinstance(a, FM) or isinstance(b, FM):
                raise Unsupported("bit operation on two characters")
    if isinstance(a, SBool):
        a = int(CTX_branch(a))
    if isinstance(b, SBool):
        b = int(CTX_branch(b))
    if ty not in T.RANGES:
        ty = "usize" if ty in ("?", "") else ty
        if ty not in T.RANGES:
            raise Unsupported(f"integer op on type {ty}")
    op = op.replace("Unchecked", "")
    if op == "Add":
        return iadd(a, b, ty)
    if op == "Sub":
        return isub(a, b, ty)
    if op == "Mul":
        return imul(a, b, ty)
    if op in ("Div", "Rem"):
        if CTX_branch(ieq(b, 0)):
            raise PathPanic("division by zero")
        return idiv(a, b, ty) if op == "Div" else irem(a, b, ty)
    if isinstance(a, SI) and op in ("Shl", "Shr") and isinstance(b, int):
        if op == "Shl":
            return imul(a, 2 ** b, ty)
        return idivmod_floor(a, 2 ** b)[0]
    if isinstance(a, SI) and op == "BitAnd" and isinstance(b, int) and (b & (b + 1)) == 0 and a.lo >= 0:
        return idivmod_floor(a, b + 1)[1]
    if isinstance(a, SI) or isinstance(b, SI):
        a, b = iconc(a), iconc(b)
    if op == "BitAnd":
        return a & b
    if op == "BitOr":
        return a | b
    if op == "BitXor":
        return a ^ b
    if op == "Shl":
        w = T.RANGES[ty][1].bit_length() + (1 if ty[0] == "i" else 0)
        return wrap(a << (b % w), 0, 0, ty)
    if op == "Shr":
        w = T.RANGES[ty][1].bit_length() + (1 if ty[0] == "i" else 0)
        return a >> (b % w)
    raise Unsupported("binop " + op)

def ordering(it, a, b):
    """total comparison of values: Less / Equal / Greater"""
    if CTX_branch(it.compare("Lt", a, b)):
        return EnumV("Ordering", "Less", [])
    if CTX_branch(it.compare("Eq", a, b)):
        return EnumV("Ordering", "Equal", [])
    return EnumV("Ordering", "Greater", [])

import math as _m
CONSTS = {}
STATICS = {}
for _p in ("f64", "f32"):
    for _q in (f"{_p}", f"{_p}::{_p}"):
        CONSTS[f"{_q}::NAN"] = NAN
        CONSTS[f"{_q}::INFINITY"] = PINF
        CONSTS[f"{_q}::NEG_INFINITY"] = NINF
        CONSTS[f"{_q}::EPSILON"] = fl(2.0 ** -52 if _p == "f64" else 2.0 ** -23)
        CONSTS[f"{_q}::MAX"] = fl(1.7976931348623157e308 if _p == "f64" else 3.4028234663852886e38)
        CONSTS[f"{_q}::MIN"] = fl(-1.7976931348623157e308 if _p == "f64" else -3.4028234663852886e38)
        CONSTS[f"{_q}::MIN_POSITIVE"] = fl(2.2250738585072014e-308)
        for _n, _v in (("PI", _m.pi), ("E", _m.e), ("LN_2", _m.log(2)), ("SQRT_2", _m.sqrt(2)), ("FRAC_PI_2", _m.pi / 2), ("TAU", _m.tau), ("LN_10", _m.log(10)), ("FRAC_1_SQRT_2", _m.sqrt(.5))):
            CONSTS[f"{_q}::consts::{_n}"] = fl(_v)
for _t in list(T.RANGES):
    for _q in (_t, f"num::{_t}", f"{_t}::{_t}"):
        CONSTS[f"{_q}::MAX"] = T.RANGES[_t][1]
        CONSTS[f"{_q}::MIN"] = T.RANGES[_t][0]
