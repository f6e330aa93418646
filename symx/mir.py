"""Parser for rustc's textual MIR (-Zunpretty=mir)."""
import re, functools

class Fn:
    __slots__ = ("name", "header", "lines", "params", "ret", "locals", "blocks", "_parsed", "kind", "nlocals", "info", "zst")

    def __init__(self, name, header, lines, kind):
        self.name = name
        self.header = header
        self.lines = lines
        self.kind = kind
        self._parsed = False
        self.info = {}

    def parse(self):
        if not self._parsed:
            parse_body(self)
            self._parsed = True
            # closures without captures are never assigned
            self.zst = []
            for i, t in self.locals.items():
                if i not in self.params and t.startswith("{closure@") and t.endswith("}") and t.count("{") == t.count("}"):
                    if not any(re.match(rf"\s*\(*\*?_{i}(\.\d+: .*\))* = ", l) for l in self.lines):
                        self.zst.append((i, t))
        return self

class Crate:
    def __init__(self, text):
        self.fns = {}
        self.consts = {}
        self.impls = {}     # "<impl at file:l:c: l:c>" occurrences -> list of (fn name suffix)
        self.dups = {}
        self.allocs = {}
        cur = None
        buf = None
        for line in text.split("\n"):
            if cur is None:
                if line.startswith("fn ") or line.startswith("const ") or line.startswith("static "):
                    if line.endswith("{"):
                        cur = line
                        buf = []
                    elif line.endswith("}") and "{" in line:
                        pass
                elif line.startswith("alloc") and "(static: " in line:
                    self.allocs[line.split(" ", 1)[0]] = line.split("(static: ", 1)[1].split(",")[0].rstrip(")")
            elif line == "}":
                self._add(cur, buf)
                cur = None
            else:
                buf.append(line)

    def _add(self, header, buf):
        if header.startswith("fn "):
            h = header[3:]
            i = find_args_start(h)
            name = h[:i]
            f = Fn(name, header, buf, "fn")
            if name in self.fns:
                self.dups.setdefault(name, [self.fns[name]]).append(f)
            self.fns[name] = f
        else:
            h = header.split(" ", 1)[1]
            if h.startswith("mut "):
                h = h[4:]
            # name: type = {
            m = h.rfind(" = {")
            h2 = h[:m]
            i = top_find(h2, ": ")
            name = h2[:i]
            f = Fn(name, header, buf, "const")
            f.ret = h2[i + 2:]
            f.params = []
            self.consts[name] = f

def find_args_start(h):
    """index of the '(' that opens the parameter list of a fn header"""
    depth = 0
    i = 0
    while i < len(h):
        c = h[i]
        if c == "<":
            depth += 1
        elif c == ">" and h[i - 1] != "-" and h[i - 1] != "=":
            depth -= 1
        elif c == "(" and depth == 0:
            return i
        elif c == "{" and h.startswith("{closure#", i):
            i = h.index("}", i)
        i += 1
    raise ValueError(h)

def top_find(s, pat):
    depth = 0
    i = 0
    while i < len(s):
        c = s[i]
        if depth == 0 and s.startswith(pat, i):
            # "::" must not match ": "
            return i
        if c in "<([{":
            depth += 1
        elif c in ")]}" or (c == ">" and s[i - 1] not in "-="):
            depth -= 1
        i += 1
    return -1

def split_top(s, sep=","):
    """split at top-level separators, respecting brackets and string literals"""
    out = []
    depth = 0
    i = 0
    start = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i += 1
            while s[i] != '"':
                if s[i] == "\\":
                    i += 1
                i += 1
        elif c == "'" and i + 2 < n and (s[i + 2] == "'" or (s[i + 1] == "\\" and "'" in s[i + 2:i + 12])):
            if s[i + 1] == "\\":
                i = s.index("'", i + 3) if s[i + 2] == "'" else s.index("'", i + 2)
            else:
                i += 2
        elif c in "<([{":
            # '<' is always a bracket here (comparisons do not occur in MIR text)
            depth += 1
        elif c in ")]}":
            depth -= 1
        elif c == ">" and s[i - 1] not in "-=":
            depth -= 1
        elif c == sep and depth == 0:
            out.append(s[start:i].strip())
            start = i + 1
        i += 1
    last = s[start:].strip()
    if last:
        out.append(last)
    return out

LOCAL_RE = re.compile(r"^\s+let (?:mut )?_(\d+): (.*);$")

def parse_body(f):
    if f.kind == "fn":
        h = f.header[3:]
        i = find_args_start(h)
        # parameter list up to matching paren
        depth = 0
        j = i
        while True:
            c = h[j]
            if c in "([{<":
                depth += 1
            elif c in ")]}" or (c == ">" and h[j - 1] not in "-="):
                depth -= 1
                if depth == 0:
                    break
            j += 1
        ps = split_top(h[i + 1:j])
        f.params = []
        f.locals = {}
        for p in ps:
            m = re.match(r"_(\d+): (.*)$", p)
            f.params.append(int(m.group(1)))
            f.locals[int(m.group(1))] = m.group(2)
        r = h[j + 1:].strip()
        f.ret = r[3:-2].strip() if r.startswith("->") else "()"
    else:
        f.locals = {}
    f.locals[0] = f.ret
    f.blocks = {}
    cur = None
    capextra, capdone = [], None
    for line in f.lines:
        m = LOCAL_RE.match(line)
        if m:
            f.locals[int(m.group(1))] = m.group(2)
            continue
        s = line.strip()
        if cur is None:
            m = re.match(r"bb(\d+)(?: \(cleanup\))?: \{$", s)
            if m:
                cur = []
                f.blocks[int(m.group(1))] = cur
            continue
        if s == "}":
            cur = None
            continue
        if s.startswith("StorageDead") and cur and "= {closure@" in cur[-1] and cur[-1].endswith("};"):
            # captures of several fields of one variable: the dump names only the first; the temporaries
            # of the others die, in reverse order, before that of the last one listed
            m = re.search(r"(?:move|copy) _(\d+) \};$", cur[-1])
            d = int(s[len("StorageDead(_"):s.index(")")])
            if m and not capdone == len(cur):
                if d == int(m.group(1)):
                    ex = capextra
                    for e in ex[::-1]:
                        cur[-1] = cur[-1][:-3] + f", _x{e}: move _{e} }};"
                    capextra, capdone = [], len(cur)
                else:
                    capextra = capextra + [d]
        else:
            capextra, capdone = [], None
        if s.startswith("StorageLive") or s.startswith("StorageDead") or s.startswith("nop") or s.startswith("Coverage") or s.startswith("//") or not s:
            continue
        cur.append(s)
    # statements are parsed lazily, block by block
    f.nlocals = max(f.locals) + 1 if f.locals else 1
    for b in list(f.blocks):
        f.blocks[b] = (f.blocks[b], None)

def get_block(f, b):
    raw, parsed = f.blocks[b]
    if parsed is None:
        parsed = [parse_stmt(s) for s in raw]
        f.blocks[b] = (raw, parsed)
    return parsed

# ------------------------------------------------------------------------------ places
def parse_place(s):
    """-> (local, [proj...]); proj: ('deref',) ('field',i,ty) ('downcast',name) ('index',local) ('cindex',i,fromend) ('sub',a,b,fromend)"""
    s = s.strip()
    p, i = _place(s, 0)
    if i != len(s):
        raise ValueError(f"place {s!r} rest {s[i:]!r}")
    return p

def _place(s, i):
    if s[i] == "_":
        m = re.compile(r"_(\d+)").match(s, i)
        base = (int(m.group(1)), [])
        i = m.end()
    elif s[i] == "(":
        if s[i + 1] == "*":
            base, i = _place(s, i + 2)
            assert s[i] == ")", s
            i += 1
            base = (base[0], base[1] + [("deref",)])
        else:
            base, i = _place(s, i + 1)
            if s.startswith(" as ", i):
                # downcast:  (_1 as Variant)
                j = i + 4
                depth = 0
                while not (s[j] == ")" and depth == 0):
                    if s[j] in "([<{":
                        depth += 1
                    elif s[j] in ")]}" or (s[j] == ">" and s[j - 1] not in "-="):
                        depth -= 1
                    j += 1
                base = (base[0], base[1] + [("downcast", s[i + 4:j])])
                i = j + 1
            elif s[i] == ".":
                m = re.compile(r"\.(\d+): ").match(s, i)
                j = m.end()
                depth = 0
                st = j
                while not (s[j] == ")" and depth == 0):
                    if s[j] in "([<{":
                        depth += 1
                    elif s[j] in ")]}" or (s[j] == ">" and s[j - 1] not in "-="):
                        depth -= 1
                    j += 1
                base = (base[0], base[1] + [("field", int(m.group(1)), s[st:j])])
                i = j + 1
            elif s[i] == ")":
                i += 1
            else:
                raise ValueError(s)
    else:
        raise ValueError(s)
    while i < len(s) and s[i] == "[":
        j = s.index("]", i)
        x = s[i + 1:j]
        if x.startswith("_"):
            pr = ("index", int(x[1:]))
        elif " of " in x:
            k = int(x.split(" of ")[0])
            pr = ("cindex", abs(k), k < 0 or x.startswith("-"))
        elif ":" in x:
            a, b = x.split(":")
            fe = b.startswith("-")
            pr = ("sub", int(a), int(b.lstrip("-") or 0), fe)
        else:
            raise ValueError(s)
        base = (base[0], base[1] + [pr])
        i = j + 1
    return base, i

# ------------------------------------------------------------------------------ operands
INT_RE = re.compile(r"^(-?\d+)_([iu](?:8|16|32|64|128|size))$")
FLT_RE = re.compile(r"^(-?[0-9.]+(?:E[+-]?\d+)?)f(32|64)$")

def parse_operand(s):
    s = s.strip()
    if s.startswith("copy "):
        return ("copy", parse_place(s[5:]))
    if s.startswith("move "):
        return ("move", parse_place(s[5:]))
    if s.startswith("const "):
        return ("const", parse_const(s[6:].strip()))
    if s[:1] == "<" or s[:1].isalpha() or s[:1] == "_":
        return ("const", ("path", s))
    raise ValueError("operand " + s)

def unescape(s):
    out = []
    i = 0
    while i < len(s):
        c = s[i]
        if c == "\\":
            i += 1
            c = s[i]
            if c == "n":
                out.append("\n")
            elif c == "t":
                out.append("\t")
            elif c == "r":
                out.append("\r")
            elif c == "0":
                out.append("\0")
            elif c == "x":
                out.append(chr(int(s[i + 1:i + 3], 16)))
                i += 2
            elif c == "u":
                j = s.index("}", i)
                out.append(chr(int(s[i + 2:j], 16)))
                i = j
            else:
                out.append(c)
        else:
            out.append(c)
        i += 1
    return "".join(out)

def parse_const(c):
    m = INT_RE.match(c)
    if m:
        return ("int", int(m.group(1)), m.group(2))
    m = FLT_RE.match(c)
    if m:
        x = float(m.group(1))
        if m.group(2) == "32":
            import struct
            x = struct.unpack("f", struct.pack("f", x))[0]
        return ("float", x)
    if c in ("true", "false"):
        return ("bool", c == "true")
    if c == "()":
        return ("unit",)
    if c.startswith('b"'):
        return ("bstr", unescape(c[2:-1]))
    if c.startswith('"'):
        return ("str", unescape(c[1:-1]))
    if c.startswith("'"):
        return ("char", ord(unescape(c[1:-1])))
    if c.startswith("ZeroSized: "):
        return ("zst", c[11:])
    if re.match(r"^(\+Inf|-Inf|NaN)_?f(32|64)$", c):
        return ("float", float(c.split("f")[0].rstrip("_").replace("+", "").lower()) if "NaN" not in c else float("nan"))
    return ("path", c)

# ------------------------------------------------------------------------------ statements
BINOPS = {"Add", "Sub", "Mul", "Div", "Rem", "BitXor", "BitAnd", "BitOr", "Shl", "Shr", "Eq", "Lt", "Le", "Ne", "Ge", "Gt", "Cmp", "Offset",
          "AddUnchecked", "SubUnchecked", "MulUnchecked", "ShlUnchecked", "ShrUnchecked",
          "AddWithOverflow", "SubWithOverflow", "MulWithOverflow"}
UNOPS = {"Not", "Neg", "PtrMetadata"}

def mask(s):
    """replace string/char literal contents so that brackets inside them do not count"""
    if '"' not in s and "'" not in s:
        return s
    out = []
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"':
            out.append('"')
            i += 1
            while s[i] != '"':
                if s[i] == "\\":
                    out.append("_")
                    i += 1
                out.append("_")
                i += 1
            out.append('"')
        elif c == "'" and s.startswith("const '", i - 6):
            j = i + 1
            if s[j] == "\\":
                j += 2
                while s[j] != "'":
                    j += 1
            else:
                j += 1
            out.append("'" + "_" * (j - i - 1) + "'")
            i = j
        else:
            out.append(c)
        i += 1
    return "".join(out)

def match_back(m, j):
    """m[j] == ')' : index of the matching '('"""
    depth = 0
    while j >= 0:
        if m[j] == ")":
            depth += 1
        elif m[j] == "(":
            depth -= 1
            if depth == 0:
                return j
        j -= 1
    raise ValueError(m)

TARGET_RE = re.compile(r"bb(\d+)")

def parse_stmt(s):
    s = s.rstrip(";")
    if s == "return":
        return ("return",)
    if s == "unreachable":
        return ("unreachable",)
    if s == "resume" or s.startswith("terminate") or s.startswith("abort"):
        return ("resume",)
    if s.startswith("goto -> "):
        return ("goto", int(s[10:]))
    if s.startswith("switchInt("):
        m = mask(s)
        j = m.rindex(") -> [")
        op = parse_operand(s[10:j])
        arms = []
        other = None
        for a in s[j + 6:-1].split(", "):
            k, b = a.split(": bb")
            if k == "otherwise":
                other = int(b)
            else:
                arms.append((int(k), int(b)))
        return ("switch", op, arms, other)
    if s.startswith("drop("):
        t = TARGET_RE.search(s[s.rindex(") -> "):])
        return ("goto", int(t.group(1)))
    if s.startswith("assert("):
        m = mask(s)
        j = m.rindex(") -> [")
        t = TARGET_RE.search(s[j:])
        args = split_top(s[7:j])
        c = args[0]
        neg = c.startswith("!")
        return ("assert", parse_operand(c[1:] if neg else c), not neg, args[1] if len(args) > 1 else "", int(t.group(1)))
    if s.startswith("falseEdge") or s.startswith("falseUnwind"):
        t = TARGET_RE.search(s)
        return ("goto", int(t.group(1)))
    if s.startswith("PlaceMention") or s.startswith("FakeRead") or s.startswith("AscribeUserType") or s.startswith("Retag") or s.startswith("ConstEvalCounter") or s.startswith("Deinit"):
        return ("nop",)
    if s.startswith("discriminant("):
        j = s.index(") = ")
        return ("setdisc", parse_place(s[13:j]), int(s[j + 4:]))
    m = mask(s)
    k = m.find(" = ")
    if k < 0:
        return ("unsupported", s)
    dst = parse_place(s[:k])
    rhs = s[k + 3:]
    mr = m[k + 3:]
    # call?
    a = mr.rfind(") -> ")
    if a >= 0 and (mr[a + 5:].startswith("[return") or mr[a + 5:].startswith("unwind") or mr[a + 5:].startswith("bb")):
        o = match_back(mr, a)
        callee = rhs[:o]
        args = [parse_operand(x) for x in split_top(rhs[o + 1:a])]
        t = re.search(r"return: bb(\d+)", mr[a:])
        return ("call", dst, parse_callee(callee), args, int(t.group(1)) if t else None)
    return ("assign", dst, parse_rvalue(rhs, mr))

def parse_rvalue(s, m=None):
    m = m if m is not None else mask(s)
    if s.startswith("&"):
        r = s[1:]
        for pre in ("raw const ", "raw mut ", "mut ", "fake shallow ", "fake "):
            if r.startswith(pre):
                r = r[len(pre):]
                break
        return ("ref", parse_place(r))
    if s.startswith(("copy ", "move ", "const ")) or (m.endswith(")") and " as " in m and "PointerCoercion" in m):
        # cast?
        k = top_find(m, " as ")
        if k >= 0 and m.endswith(")"):
            # kind is the last parenthesised group
            o = match_back(m, len(m) - 1)
            if o > k and m[o - 1] == " ":
                return ("cast", parse_operand(s[:k]), s[k + 4:o].strip(), s[o + 1:-1])
        return ("use", parse_operand(s))
    h = re.match(r"^([A-Za-z]+)\(", s)
    if h and s.endswith(")"):
        op = h.group(1)
        inner = s[h.end():-1]
        if op in BINOPS:
            parts = split_top(inner)
            if len(parts) == 2 and all(x.startswith(("copy ", "move ", "const ")) for x in parts):
                return ("bin", op, parse_operand(parts[0]), parse_operand(parts[1]))
        if op in UNOPS and inner.startswith(("copy ", "move ", "const ")):
            return ("un", op, parse_operand(inner))
        if op == "Len":
            return ("len", parse_place(inner))
        if op == "SizeOf" or op == "AlignOf":
            return ("sizeof", inner)
        if op == "ShallowInitBox":
            return ("shallowbox", parse_operand(split_top(inner)[0]))
        if op == "CopyForDeref":
            return ("use", ("copy", parse_place(inner)))
    if s.startswith("discriminant("):
        return ("disc", parse_place(s[13:-1]))
    if s.startswith("deref_copy "):
        return ("use", ("copy", parse_place(s[11:])))
    if s.startswith("["):
        inner = s[1:-1]
        parts = split_top(inner, ";")
        if len(parts) == 2 and not inner.strip().startswith("["):
            return ("repeat", parse_operand(parts[0]), parts[1].strip())
        if len(parts) == 2:
            return ("repeat", parse_operand(parts[0]), parts[1].strip())
        return ("array", [parse_operand(x) for x in split_top(inner)])
    if s.startswith("("):
        return ("tuple", [parse_operand(x) for x in split_top(s[1:-1])])
    if s.startswith("{closure@"):
        j = s.index("}")
        name = s[:j + 1]
        rest = s[j + 1:].strip()
        ops = []
        if rest.startswith("{"):
            for x in split_top(rest[1:-1]):
                ops.append(parse_operand(x[top_find(x, ": ") + 2:]))
        return ("closure", name, ops)
    # struct literal  Path { a: op, .. }
    if s.endswith("}"):
        # find the matching '{'
        depth = 0
        j = len(m) - 1
        while True:
            if m[j] == "}":
                depth += 1
            elif m[j] == "{":
                depth -= 1
                if depth == 0:
                    break
            j -= 1
        name = s[:j].strip()
        flds = []
        for x in split_top(s[j + 1:-1]):
            i = top_find(x, ": ")
            flds.append((x[:i].strip(), parse_operand(x[i + 2:])))
        return ("struct", parse_path(name), flds)
    if s.endswith(")"):
        o = match_back(m, len(m) - 1)
        return ("variant", parse_path(s[:o]), [parse_operand(x) for x in split_top(s[o + 1:-1])])
    return ("variant", parse_path(s), [])

# ------------------------------------------------------------------------------ paths
class Path:
    """segs: list of (name, [generics]); qself: (type, trait) for <T as Trait>::..."""
    __slots__ = ("text", "qself", "trait", "segs", "key", "gens")

    def __repr__(self):
        return self.text

@functools.lru_cache(maxsize=None)
def split_path(s):
    out = []
    depth = 0
    i = 0
    st = 0
    while i < len(s):
        c = s[i]
        if c in "<([{":
            depth += 1
        elif c in ")]}" or (c == ">" and s[i - 1] not in "-="):
            depth -= 1
        elif depth == 0 and s.startswith("::", i):
            out.append(s[st:i])
            st = i + 2
            i += 1
        i += 1
    out.append(s[st:])
    return out

@functools.lru_cache(maxsize=None)
def parse_path(s):
    p = Path()
    p.text = s
    p.qself = p.trait = None
    rest = s
    if s.startswith("<"):
        # find matching >
        depth = 0
        i = 0
        while True:
            c = s[i]
            if c in "<([{":
                depth += 1
            elif c in ")]}" or (c == ">" and s[i - 1] not in "-="):
                depth -= 1
                if depth == 0:
                    break
            i += 1
        inner = s[1:i]
        k = top_find(inner, " as ")
        if k >= 0:
            p.qself, p.trait = inner[:k], inner[k + 4:]
        else:
            p.qself = inner
        rest = s[i + 1:]
        if rest.startswith("::"):
            rest = rest[2:]
    segs = []
    for x in split_path(rest):
        if x.startswith("<") and segs and not x.startswith("<impl"):
            segs[-1][1].extend(split_top(x[1:-1]))
        elif x:
            segs.append((x, []))
    p.segs = segs
    p.gens = segs[-1][1] if segs else []
    return p

parse_callee_cache = {}

def parse_callee(s):
    s = s.strip()
    if s.startswith(("copy ", "move ")):
        return ("dyn", parse_operand(s))
    return ("path", parse_path(s))

def base_name(ty):
    """std::vec::Vec<f64> -> Vec ; &[f64] -> slice ..."""
    ty = ty.strip()
    while ty.startswith("&"):
        ty = ty[1:].strip()
        if ty.startswith("'"):
            ty = ty.split(" ", 1)[1] if " " in ty else ty
        if ty.startswith("mut "):
            ty = ty[4:]
    if ty.startswith("["):
        return "array" if top_find(ty[1:-1], "; ") >= 0 else "slice"
    if ty.startswith("("):
        return "tuple"
    if ty.startswith("{closure"):
        return "closure"
    if ty.startswith("dyn "):
        ty = ty[4:]
    i = ty.find("<")
    if i >= 0:
        ty = ty[:i]
    return ty.rstrip(":").split("::")[-1]
