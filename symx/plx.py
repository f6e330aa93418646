"""Evaluation of polars expressions (the JSON form the real python code produces) on symbolic columns.
Plugin nodes are executed by the MIR interpreter on the crate's own functions."""
import json, math, pickle, re
from fractions import Fraction
from . import ctx as C, term as T, mir, plops
from .term import *
from .ctx import *
from .plops import *
from .plops import PolarsError
from .interp import StrV, StructV, EnumV, VecV, Some, None_, deref, Ref, SliceV

DT = {"Boolean": "bool", "String": "str", "Float64": "f64", "Float32": "f32", "Null": "null", "Int8": "i8", "Int16": "i16", "Int32": "i32", "Int64": "i64",
      "Int128": "i128", "UInt8": "u8", "UInt16": "u16", "UInt32": "u32", "UInt64": "u64"}
TD = {v: k for k, v in DT.items()}

def dtype(j):
    if isinstance(j, str):
        if j in DT:
            return DT[j]
        raise Unsupported("dtype " + j)
    if "List" in j:
        return ("list", dtype(j["List"]))
    if "Array" in j:
        return ("list", dtype(j["Array"][0]))
    if "Struct" in j:
        return ("struct", [(f["name"], dtype(f["dtype"])) for f in j["Struct"]])
    if "Categorical" in j:
        return "cat"
    raise Unsupported(f"dtype {j}")

class Frame:
    """a data frame of symbolic columns"""

    def __init__(self, cols, n=None):
        self.cols = dict(cols)
        self.n = n if n is not None else (len(next(iter(self.cols.values()))) if self.cols else 0)

    def take(self, idx):
        return Frame({k: c.w([c.vals[i] for i in idx]) for k, c in self.cols.items()}, len(idx))

    def __repr__(self):
        return "Frame" + repr(self.cols)

class Ev:
    def __init__(self, frame, it=None, sub=None, lit=None):
        self.frame = frame
        self.it = it            # MIR interpreter (for plugins)
        self.sub = sub or {}    # concrete number -> symbolic value
        self.lit = lit          # evaluates a Series literal node with the real polars
        self.elem = None
        self.peers = None       # in a grouped context: the evaluators of all groups
        self.pos = 0
        self.done = {}          # results of row-wise native functions, by node

    def split(self, idxs):
        """one evaluator per group"""
        out = [self.on(self.frame.take(idx)) for idx in idxs]
        for i, e in enumerate(out):
            e.peers, e.pos = out, i
        return out

    def on(self, frame):
        e = Ev(frame, self.it, self.sub, self.lit)
        e.elem = self.elem
        return e

    # ------------------------------------------------------------ names
    def name(self, n):
        if isinstance(n, str):
            return n.lower()
        (k, v), = n.items()
        if k == "Column":
            return v
        if k == "Alias":
            return v[1]
        if k == "Literal":
            if isinstance(v, dict) and "Series" in v and self.lit is not None:
                return self.lit({"Literal": v})[0].name
            return "literal"
        if k == "BinaryExpr":
            return self.name(v["left"])
        if k == "Ternary":
            return self.name(v["truthy"])
        if k == "Function":
            f = v["function"]
            if isinstance(f, dict) and "FfiPlugin" in f and f["FfiPlugin"]["symbol"] in ("@suffix", "@prefix", "@lower", "@upper"):
                w = f["FfiPlugin"]
                b, kw = self._root(v["input"][0]), pickle.loads(bytes(w["kwargs"])) if w["kwargs"] else {}
                return {"@suffix": lambda: b + kw["s"], "@prefix": lambda: kw["s"] + b, "@lower": b.lower, "@upper": b.upper}[w["symbol"]]()
            if isinstance(f, dict) and "StructExpr" in f and isinstance(f["StructExpr"], dict) and "FieldByName" in f["StructExpr"]:
                return f["StructExpr"]["FieldByName"]
            return self.name(v["input"][0])
        if k == "Agg":
            (a, w), = v.items()
            if isinstance(w, list):
                w = w[0]
            if isinstance(w, dict) and "expr" in w and "quantile" in w:
                w = w["expr"]
            if isinstance(w, dict) and "input" in w and "propagate_nans" in w:
                w = w["input"]
            return self.name(w)
        if k in ("Cast", "Sort", "SortBy", "Gather"):
            return self.name(v["expr"])
        if k in ("Filter", "Slice"):
            return self.name(v["input"])
        if k == "Window":
            return self.name(v["function"])
        if k == "Explode":
            return self.name(v)
        if k in ("KeepName",):
            return self.name(v)
        return "?"

    def _root(self, n):
        """name of the first column of the expression"""
        if isinstance(n, dict):
            if "Column" in n:
                return n["Column"]
            for k, v in n.items():
                r = self._root(v)
                if r is not None:
                    return r
        if isinstance(n, list):
            for v in n:
                r = self._root(v)
                if r is not None:
                    return r
        return None

    # ------------------------------------------------------------ expansion of multi-column selectors
    def expand(self, n):
        sel = self._find_sel(n)
        if sel is None:
            return [n]
        return [self._subst(n, c) for c in self._sel_names({sel[0]: sel[1]} if sel[0] != "Wildcard" else "Wildcard")]

    def _sel_names(self, s):
        """the columns a selector stands for"""
        names = list(self.frame.cols)
        if s == "Wildcard":
            return names
        (kind, v), = s.items()
        if kind == "Columns":
            for c in v:
                if c not in names:
                    raise PolarsError(f"column {c} not found")
            return list(v)
        if kind == "Regex" or kind == "Column":
            if v.startswith("^") and v.endswith("$"):
                return [c for c in names if re.search(v, c)]
            if v not in names:
                raise PolarsError(f"column {v} not found")
            return [v]
        if kind == "DtypeColumn":
            dts = []
            for x in v:
                if isinstance(x, dict) and "Categorical" in x:
                    dts.append("cat")
                    continue
                try:
                    dts.append(dtype(x))
                except Unsupported:
                    pass
            return [c for c in names if self.frame.cols[c].dt in dts]
        if kind == "Exclude":
            ex, dts = [], []
            for x in v[1]:
                if isinstance(x, dict) and "Dtype" in x:
                    dts.append(dtype(x["Dtype"]))
                else:
                    ex.append(x["Name"] if isinstance(x, dict) else x)
            return [c for c in self._sel_names(v[0]) if self.frame.cols[c].dt not in dts and not any(re.search(e, c) if e.startswith("^") and e.endswith("$") else e == c for e in ex)]
        if kind == "Root":
            return self._sel_names(v)
        if kind == "Selector":
            return self._sel_names(v)
        if kind in ("Add", "Sub", "InterSect", "Intersect", "ExclusiveOr"):
            a, b = (set(self._sel_names(x)) for x in v)
            r = {"Add": a | b, "Sub": a - b, "InterSect": a & b, "Intersect": a & b, "ExclusiveOr": a ^ b}[kind]
            return [c for c in names if c in r]
        raise Unsupported(f"selector {s}")

    def _find_sel(self, n):
        if n == "Wildcard":
            return ("Wildcard", None)
        if isinstance(n, dict):
            for k, v in n.items():
                if k == "Columns":
                    return (k, v)
                if k == "Exclude":
                    return (k, v)
                if k in ("DtypeColumn", "Selector"):
                    return (k, v)
                if k == "Column" and isinstance(v, str) and v.startswith("^") and v.endswith("$"):
                    return ("Regex", v)
                if k == "Literal":
                    continue
                if k == "Function" and "INPUT_WILDCARD_EXPANSION" in str(v["options"].get("flags", "")):
                    continue
                r = self._find_sel(v)
                if r:
                    return r
        if isinstance(n, list):
            for x in n:
                r = self._find_sel(x)
                if r:
                    return r
        return None

    def _subst(self, n, c):
        if n == "Wildcard":
            return {"Column": c}
        if isinstance(n, dict):
            if "Columns" in n or "Exclude" in n or "DtypeColumn" in n or "Selector" in n:
                return {"Column": c}
            if "Column" in n and isinstance(n["Column"], str) and n["Column"].startswith("^"):
                return {"Column": c}
            return {k: self._subst(v, c) if k != "Literal" else v for k, v in n.items()}
        if isinstance(n, list):
            return [self._subst(x, c) for x in n]
        return n

    # ------------------------------------------------------------ frames
    def select(self, nodes, keep=False):
        out = {}
        for n in nodes:
            for m in self.expand(n):
                c = self.ev(m)
                c = Col(self.name(m), concrete_dt(c.dt), [conv(v, c.dt, concrete_dt(c.dt)) for v in c.vals], c.scalar, c.ch)
                if c.name in out:
                    raise PolarsError(f"duplicate column {c.name}")
                out[c.name] = c
        if keep:
            n = self.frame.n
        else:
            ls = [len(c) for c in out.values() if not c.scalar]
            n = max(ls) if ls else 1
            if ls and min(ls) != n:
                if min(ls) == 1 and all(l in (1, n) for l in ls):
                    raise PolarsError("lengths")
                raise PolarsError(f"lengths {ls}")
        for k, c in out.items():
            if len(c) != n:
                if len(c) == 1 and c.scalar:
                    out[k] = Col(c.name, c.dt, c.vals * n)
                else:
                    raise PolarsError(f"column of length {len(c)} in a frame of height {n}")
        if keep:
            cols = dict(self.frame.cols)
            cols.update(out)
            return Frame(cols, n)
        return Frame(out, n)

    def filter(self, node):
        m = self.ev(node)
        n = self.frame.n
        mv = m.vals if len(m) == n else m.vals * n
        return self.frame.take([i for i in range(n) if mv[i] is not None and br(mv[i])])

    def group_by_agg(self, keys, aggs, ordered=False):
        kc = self.select(keys)
        kn = list(kc.cols)
        g = groups([tuple(kc.cols[k].vals[i] for k in kn) for i in range(self.frame.n)])
        if not ordered:
            g = any_order(g)
        cols = {k: [] for k in kn}
        dts = {}
        outs = {}
        rows = []
        for sub, (key, idx) in zip(self.split([idx for _, idx in g]), g):
            for k, v in zip(kn, key):
                cols[k].append(v)
            for a in aggs:
                for m in sub.expand(a):
                    c = sub.ev(m)
                    nm = self.name(m)
                    if nm in kn:
                        continue
                    dt = concrete_dt(c.dt)
                    if c.scalar:
                        v = conv(c.vals[0], c.dt, dt)
                    else:
                        v = Lst([conv(x, c.dt, dt) for x in c.vals], dt)
                        dt = ("list", dt)
                    outs.setdefault(nm, []).append(v)
                    if dts.get(nm) in (None, "null"):
                        dts[nm] = dt
        res = {k: Col(k, kc.cols[k].dt, cols[k]) for k in kn}
        if not g:
            for a in aggs:
                for m in self.expand(a):
                    res[self.name(m)] = Col(self.name(m), "f64", [])
        for nm, vs in outs.items():
            res[nm] = Col(nm, dts[nm], vs)
        return Frame(res, len(g))

    # ------------------------------------------------------------ expressions
    def ev(self, n):
        if isinstance(n, str):
            if n == "Len":
                return Col("len", "u32", [self.frame.n], True)
            raise Unsupported("expr " + n)
        (k, v), = n.items()
        f = getattr(self, "x_" + k, None)
        if f is None:
            raise Unsupported("expr " + k)
        return f(v)

    def x_Column(self, v):
        if v == "" and self.elem is not None:
            return self.elem
        c = self.frame.cols.get(v)
        if c is None:
            raise PolarsError(f"column {v} not found")
        return c

    def x_Sym(self, v):
        """a value supplied by the harness"""
        return v

    def x_Alias(self, v):
        c = self.ev(v[0])
        return Col(v[1], c.dt, c.vals, c.scalar, c.ch)

    def x_Literal(self, v):
        if not isinstance(v, dict):
            if v == "Null":
                return Col("literal", "null", [None], True)
            raise Unsupported(f"literal {v}")
        (k, w), = v.items()
        if k == "Dyn":
            (t, x), = w.items()
            if t == "Int":
                if x in self.sub:
                    s = self.sub[x]
                    return Col("literal", "dyn_f" if is_float(s) else "dyn_i", [s], True)
                return Col("literal", "dyn_i", [x], True)
            if t == "Float":
                if x is None:
                    return Col("literal", "dyn_f", [NAN], True)
                return Col("literal", "dyn_f", [self.sub[x] if x in self.sub else fl(x)], True)
            if t == "Str":
                return Col("literal", "str", [StrV(x)], True)
        if k == "Scalar":
            dt = dtype(w["dtype"])
            x = w["value"]
            if x == "Null":
                return Col("literal", dt, [None], True)
            if isinstance(x, dict):
                (t, y), = x.items()
                if t in ("StringOwned", "String"):
                    return Col("literal", "str", [self.sub[y] if y in self.sub else StrV(y)], True)
                if t == "Bool" or t == "Boolean":
                    return Col("literal", "bool", [y], True)
                if t.startswith("Float"):
                    return Col("literal", dt, [NAN if y is None else self.sub[y] if y in self.sub else fl(y)], True)
                if t.startswith(("Int", "UInt")):
                    return Col("literal", dt, [self.sub[y] if y in self.sub else y], True)
        if k in ("Float", "Float64", "Float32"):
            return Col("literal", "f32" if k == "Float32" else "f64", [fl(w) if w is not None else NAN], True)
        if k == "Boolean":
            return Col("literal", "bool", [w], True)
        if k == "Sym":
            return w
        if self.lit is None:
            raise Unsupported(f"literal {str(v)[:80]}")
        s, scalar = self.lit({"Literal": v})
        c = from_series(s, s.name if isinstance(v, dict) and "Series" in v else "literal", scalar)
        if self.sub:
            c.vals = [self._subst_lit(x, v) for x, v in zip(s.to_list(), c.vals)]
        return c

    def _subst_lit(self, x, v):
        if x is None or isinstance(x, bool):
            return v
        if isinstance(x, (int, float, str)):
            return self.sub.get(x, v)
        if isinstance(v, Lst):
            return Lst([self._subst_lit(a, b) for a, b in zip(x, v.v)], v.dt)
        if isinstance(x, dict) and isinstance(v, tuple):
            return tuple(self._subst_lit(a, b) for a, b in zip(x.values(), v))
        return v

    def x_BinaryExpr(self, v):
        return binary(v["op"], self.ev(v["left"]), self.ev(v["right"]))

    def x_Cast(self, v):
        return cast(self.ev(v["expr"]), dtype(v["dtype"]), v.get("options", "Strict") in ("Strict",))

    def x_Ternary(self, v):
        p, t, f = self.ev(v["predicate"]), self.ev(v["truthy"]), self.ev(v["falsy"])
        n, (pv, tv, fv) = bcast(p, t, f)
        dt = supertype(t.dt, f.dt)
        out = []
        for a, b, c in zip(pv, tv, fv):
            out.append(conv(b, t.dt, dt) if a is not None and br(a) else conv(c, f.dt, dt))
        return Col(t.name, dt, out, p.scalar and t.scalar and f.scalar)

    def x_Filter(self, v):
        c, m = self.ev(v["input"]), self.ev(v["by"])
        if len(c) != len(m):
            if len(m) == 1:
                b = m.vals[0]
                return c.w(list(c.vals) if b is not None and br(b) else [])
            raise PolarsError("filter lengths")
        return c.w([x for x, b in zip(c.vals, m.vals) if b is not None and br(b)])

    def x_Sort(self, v):
        c = self.ev(v["expr"])
        o = v["options"]
        return c.w([c.vals[i] for i in argsort(c.vals, o["descending"], o["nulls_last"])])

    def x_SortBy(self, v):
        c = self.ev(v["expr"])
        by = [self.ev(x) for x in v["by"]]
        o = v["sort_options"]
        d = o["descending"] * len(by) if len(o["descending"]) == 1 else o["descending"]
        nl = o["nulls_last"] * len(by) if len(o["nulls_last"]) == 1 else o["nulls_last"]
        return c.w([c.vals[i] for i in argsort_multi(by, d, nl)])

    def x_Gather(self, v):
        c, i = self.ev(v["expr"]), self.ev(v["idx"])
        out = []
        for k in i.vals:
            if k is None:
                out.append(None)
                continue
            k = iconc(k)
            if k < 0:
                k += len(c)
            if not 0 <= k < len(c):
                raise PolarsError("gather index out of bounds")
            out.append(c.vals[k])
        return c.w(out, scalar=bool(v.get("returns_scalar")))

    def x_Slice(self, v):
        c = self.ev(v["input"])
        o, l = self.ev(v["offset"]).vals[0], self.ev(v["length"]).vals[0]
        o = iconc(o)
        n = len(c)
        s = o if o >= 0 else n + o
        e = n if l is None else s + iconc(l)
        s, e = max(0, min(s, n)), max(0, min(e, n))
        return c.w(c.vals[s:e])

    def x_Explode(self, v):
        c = self.ev(v if not (isinstance(v, dict) and "input" in v) else v["input"])
        if not (isinstance(c.dt, tuple) and c.dt[0] == "list"):
            return c
        out = []
        for x in c.vals:
            if x is None or not x.v:
                out.append(None)
            else:
                out += x.v
        return c.w(out, c.dt[1])

    def x_KeepName(self, v):
        return self.ev(v)

    def x_Agg(self, v):
        (k, w), = v.items()
        if k == "Sum":
            return agg_sum(self.ev(w))
        if k == "Mean":
            return agg_mean(self.ev(w))
        if k == "Median":
            return agg_median(self.ev(w))
        if k in ("Min", "Max"):
            return agg_minmax(self.ev(w["input"]), k == "Max")
        if k == "Var":
            return agg_var(self.ev(w[0]), w[1])
        if k == "Std":
            return agg_std(self.ev(w[0]), w[1])
        if k == "Count":
            c = self.ev(w[0])
            return Col(c.name, "u32", [len(c) if w[1] else len(c) - c.nulls()], True)
        if k == "Quantile":
            q = self.ev(w["quantile"]).vals[0]
            if not q.is_const():
                if br(bor(flt(q, T.ZERO), flt(T.ONE, q))):
                    raise PolarsError("quantile should be between 0.0 and 1.0")
                return agg_quantile(self.ev(w["expr"]), q, w["method"])
            return agg_quantile(self.ev(w["expr"]), float(q.cval()), w["method"])
        if k == "Implode":
            c = self.ev(w)
            dt = concrete_dt(c.dt)
            return Col(c.name, ("list", dt), [Lst([conv(x, c.dt, dt) for x in c.vals], dt)], True)
        if k in ("First", "Last"):
            c = self.ev(w)
            return c.w([(c.vals[0] if k == "First" else c.vals[-1]) if c.vals else None], scalar=True)
        if k == "NUnique":
            c = self.ev(w)
            return Col(c.name, "u32", [len(unique_vals(c.vals))], True)
        raise Unsupported("agg " + k)

    def x_Window(self, v):
        keys = [self.ev(p) for p in v["partition_by"]]
        n = self.frame.n
        kv = [k.vals if len(k) == n else k.vals * n for k in keys]
        gs = groups([tuple(k[i] for k in kv) for i in range(n)])
        out = [None] * n
        dt = "null"
        nm = "?"
        for sub, (_, idx) in zip(self.split([idx for _, idx in gs]), gs):
            r = sub.ev(v["function"])
            nm = r.name
            dt = concrete_dt(r.dt) if dt == "null" else dt
            if r.scalar or (len(r) == 1 and len(idx) != 1):
                if not r.scalar:
                    raise PolarsError("over: length")
                for i in idx:
                    out[i] = conv(r.vals[0], r.dt, dt)
            else:
                if len(r) != len(idx):
                    raise PolarsError("over: lengths of the groups do not match")
                for i, x in zip(idx, r.vals):
                    out[i] = conv(x, r.dt, dt)
        return Col(nm, dt, out)

    # ------------------------------------------------------------ functions
    def x_Function(self, v):
        f = v["function"]
        if isinstance(f, str):
            k, w = f, None
        else:
            (k, w), = f.items()
        g = getattr(self, "f_" + k, None)
        if g is None:
            raise Unsupported(f"function {k} {w}")
        if k == "FfiPlugin":
            return g(v, w)
        ins = []
        for i in v["input"]:
            for m in self.expand(i):
                c = self.ev(m)
                if k == "AsStruct" or k == "FfiPlugin":
                    c = Col(self.name(m), c.dt, c.vals, c.scalar, c.ch)
                ins.append(c)
        return g(ins, w)

    def plugin_ins(self, v):
        ins = []
        for i in v["input"]:
            for m in self.expand(i):
                c = self.ev(m)
                dt = concrete_dt(c.dt)
                ins.append(Col(self.name(m), dt, [conv(x, c.dt, dt) for x in c.vals], c.scalar, c.ch))
        return ins

    def f_FfiPlugin(self, v, w):
        sym = w["symbol"]
        kw = pickle.loads(bytes(w["kwargs"])) if w["kwargs"] else None
        if sym.startswith("@"):
            return getattr(self, "s_" + sym[1:])(self.plugin_ins(v), kw)
        flags = v["options"]["flags"]
        scalar = "RETURNS_SCALAR" in flags
        if self.peers is not None and v["options"]["collect_groups"] == "ElementWise":
            # one call for the rows of all groups
            k = id(v)
            if k not in self.done:
                self.rowwise(v, sym, kw, scalar)
            return self.done[k]
        ins = self.plugin_ins(v)
        if self.peers is not None and "PASS_NAME_TO_APPLY" not in flags:
            ins = [Col("", c.dt, c.vals, c.scalar, c.ch) for c in ins]
        r = call_plugin(self.it, sym, ins, kw, self.sub)
        log = self.it.opts.get("schema")
        if log is not None:
            from .models_schema import declared
            log.append((sym, declared(self.it, sym, ins, kw, self.sub), r.dt))
        log = self.it.opts.get("lengths")
        if log is not None:
            log.append((sym, flags, max([len(c) for c in ins if not c.scalar], default=self.frame.n), len(r)))
        if scalar and self.peers is not None and len(r) != 1:
            raise PolarsError(f"{sym}: one value expected")
        r.scalar = scalar
        return r

    def rowwise(self, v, sym, kw, scalar):
        ins = [e.plugin_ins(v) for e in self.peers]
        ns = [max([len(c) for c in i if not c.scalar], default=1) for i in ins]
        cat = []
        for cs in zip(*ins):
            c = cs[0]
            if all(x.scalar for x in cs) and all(x.vals[0] is c.vals[0] for x in cs):
                cat.append(c)
            else:
                cat.append(Col(c.name, c.dt, [y for x, n in zip(cs, ns) for y in (list(x.vals) * n if len(x) == 1 and n != 1 else x.vals)]))
        r = call_plugin(self.it, sym, cat, kw, self.sub)
        if all(c.scalar for c in cat):
            for e in self.peers:
                e.done[id(v)] = Col(r.name, r.dt, r.vals, True)
            return
        if len(r) != sum(ns):
            raise PolarsError(f"{sym}: {len(r)} values for {sum(ns)} rows")
        o = 0
        for e, n in zip(self.peers, ns):
            e.done[id(v)] = Col(r.name, r.dt, r.vals[o:o + n], scalar)
            o += n

    # markers put in place of expression nodes polars cannot serialise
    def s_rechunk(self, ins, kw):
        c = ins[0]
        return Col(c.name, c.dt, c.vals, c.scalar, None)

    def s_append(self, ins, kw):
        a, b = ins
        if a.dt != b.dt:
            dt = plops.supertype(a.dt, b.dt)
            a, b = plops.cast(a, dt), plops.cast(b, dt)
        return Col(a.name, a.dt, list(a.vals) + list(b.vals), False, None)

    def s_product(self, ins, kw):
        c = ins[0]
        acc = T.ONE if c.dt in FLOATS else 1
        for x in nn(c.vals):
            acc = fmul(acc, x) if c.dt in FLOATS else imul(acc, x, "i64")
        return Col(c.name, c.dt if c.dt in FLOATS else "i64", [acc], True)

    def s_arg_max(self, ins, kw, mx=True):
        c = ins[0]
        best = None
        for i, x in enumerate(c.vals):
            if x is None:
                continue
            if best is None or br(tlt(c.vals[best], x) if mx else tlt(x, c.vals[best])):
                best = i
        return Col(c.name, "u32", [best], True)

    def s_arg_min(self, ins, kw):
        return self.s_arg_max(ins, kw, False)

    def s_arg_sort(self, ins, kw):
        c = ins[0]
        return Col(c.name, "u32", argsort(c.vals, kw["descending"], kw["nulls_last"]))

    def s_suffix(self, ins, kw):
        c = ins[0]
        return Col(c.name + kw["s"], c.dt, c.vals, c.scalar)

    def s_prefix(self, ins, kw):
        c = ins[0]
        return Col(kw["s"] + c.name, c.dt, c.vals, c.scalar)

    def s_lower(self, ins, kw):
        c = ins[0]
        return Col(c.name.lower(), c.dt, c.vals, c.scalar)

    def s_upper(self, ins, kw):
        c = ins[0]
        return Col(c.name.upper(), c.dt, c.vals, c.scalar)

    def s_listeval(self, ins, kw):
        c = ins[0]
        node = kw["node"]
        out, dt = [], None
        for x in c.vals:
            if x is None:
                out.append(None)
                continue
            e = self.on(Frame({}, len(x.v)))
            e.elem = Col("", x.dt, list(x.v))
            r = e.ev(node)
            dt = concrete_dt(r.dt)
            out.append(Lst([conv(y, r.dt, dt) for y in r.vals], dt))
        return c.w(out, ("list", dt or c.dt[1]))

    # elementwise
    def _map(self, c, f, dt=None):
        r = c.w([None if v is None else f(v) for v in c.vals], dt or c.dt)
        r.scalar = c.scalar
        return r

    def _fmap(self, c, f):
        dt = c.dt if c.dt in FLOATS else "f64"
        r = c.w([None if v is None else f(conv(v, c.dt, dt)) for v in c.vals], dt)
        r.scalar = c.scalar
        return r

    def f_Abs(self, ins, w):
        c = ins[0]
        if c.dt in FLOATS:
            return self._map(c, fabs)
        return self._map(c, lambda v: v if ibounds(v)[0] >= 0 else (isub(0, v, imt(c.dt)) if br(ilt(v, 0)) else v))

    def f_Negate(self, ins, w):
        c = ins[0]
        if c.dt in FLOATS:
            return self._map(c, fneg)
        return self._map(c, lambda v: isub(0, v, "i64" if c.dt in ("dyn_i",) else c.dt))

    def f_Exp(self, ins, w):
        return self._fmap(ins[0], fexp)

    def f_Log1p(self, ins, w):
        return self._fmap(ins[0], lambda v: fln(fadd(T.ONE, v)))

    def f_Log(self, ins, w):
        b = w["base"]
        if abs(b - math.e) < 1e-12:
            return self._fmap(ins[0], fln)
        if b == 2:           # a constant's logarithm is the double closest to it
            return self._fmap(ins[0], lambda v: fl(math.log2(v.cval())) if not isinstance(v, FSpec) and v.is_const() and v.cval() > 0 else fdiv(fln(v), fl(math.log(2))))
        return self._fmap(ins[0], lambda v: fdiv(fln(v), fl(math.log(b))))

    def f_Floor(self, ins, w):
        return self._fmap(ins[0], ffloor)

    def f_Ceil(self, ins, w):
        return self._fmap(ins[0], lambda v: fneg(ffloor(fneg(v))))

    def f_Sign(self, ins, w):
        c = ins[0]
        def sg(v):
            if c.dt in FLOATS:
                if v is NAN:
                    return NAN
                s = C.sgn(v)
                return Poly.const(s)
            return 0 if br(ieq(v, 0)) else -1 if br(ilt(v, 0)) else 1
        return self._map(c, sg)

    def f_Trigonometry(self, ins, w):
        fs = {"Cosh": lambda v: fdiv(fadd(fexp(v), fexp(fneg(v))), Poly.const(2)), "Sinh": lambda v: fdiv(fsub(fexp(v), fexp(fneg(v))), Poly.const(2))}
        def g(v):
            if w in fs:
                return fs[w](v)
            if not v.t:
                return T.ONE if w == "Cos" else T.ZERO
            return ffn(w.lower(), v)
        return self._fmap(ins[0], g)

    def f_Pow(self, ins, w):
        if w == "Sqrt":
            return self._fmap(ins[0], fsqrt)
        if w == "Cbrt":
            return self._fmap(ins[0], lambda v: ffn("cbrt", v))
        l, r = ins
        n, (lv, rv) = bcast(l, r)
        sc = l.scalar and r.scalar
        if l.dt in FLOATS or r.dt in FLOATS:
            dt = l.dt if l.dt in FLOATS else supertype(l.dt, r.dt)
            out = []
            for a, b in zip(lv, rv):
                if a is None or b is None:
                    out.append(None)
                else:
                    out.append(fpow(conv(a, l.dt, dt), fl(b)))
            return Col(l.name, dt, out, sc)
        out = []
        for a, b in zip(lv, rv):
            if a is None or b is None:
                out.append(None)
                continue
            k = iconc(b)
            acc = 1
            for _ in range(k):
                acc = imul(acc, a, imt(l.dt))
            out.append(acc)
        return Col(l.name, l.dt, out, sc)

    def f_Clip(self, ins, w):
        c = ins[0]
        i = 1
        lo = hi = None
        if w["has_min"]:
            lo = ins[i]
            i += 1
        if w["has_max"]:
            hi = ins[i]
        n, vs = bcast(c, *[x for x in (lo, hi) if x is not None])
        out = []
        for k in range(n):
            x = vs[0][k]
            if x is None:
                out.append(None)
                continue
            j = 1
            if lo is not None:
                y = vs[j][k]
                j += 1
                if y is not None:
                    y = conv(y, lo.dt, c.dt)
                    if br(tlt(x, y)):
                        x = y
            if hi is not None:
                y = vs[j][k]
                if y is not None:
                    y = conv(y, hi.dt, c.dt)
                    if x is not NAN and br(tlt(y, x)):
                        x = y
            out.append(x)
        return c.w(out)

    def f_FillNull(self, ins, w):
        c, f = ins
        n, (cv, fv) = bcast(c, f)
        dt = supertype(c.dt, f.dt)
        r = Col(c.name, dt, [conv(a, c.dt, dt) if a is not None else conv(b, f.dt, dt) for a, b in zip(cv, fv)])
        r.scalar = c.scalar and f.scalar
        return r

    def f_FillNullWithStrategy(self, ins, w):
        c = ins[0]
        (k, l), = w.items() if isinstance(w, dict) else ((w, None),)
        xs = list(c.vals)
        if k in ("Forward", "Backward"):
            xs = xs if k == "Forward" else xs[::-1]
            last = None
            gap = 0
            for i, v in enumerate(xs):
                if v is None:
                    gap += 1
                    if last is not None and (l is None or gap <= l):
                        xs[i] = last
                else:
                    last, gap = v, 0
            xs = xs if k == "Forward" else xs[::-1]
            return c.w(xs)
        if k in ("Mean", "Min", "Max"):
            m = agg_mean(c) if k == "Mean" else agg_minmax(c, k == "Max")
            return c.w([m.vals[0] if v is None else v for v in xs])
        if k in ("Zero", "One"):
            z = 0 if k == "Zero" else 1
            return c.w([(fl(z) if c.dt in FLOATS else z) if v is None else v for v in xs])
        raise Unsupported("fill_null " + k)

    def f_Coalesce(self, ins, w):
        n, vs = bcast(*ins)
        dt = ins[0].dt
        for c in ins[1:]:
            dt = supertype(dt, c.dt)
        return Col(ins[0].name, dt, [next((conv(v[i], c.dt, dt) for v, c in zip(vs, ins) if v[i] is not None), None) for i in range(n)])

    def f_Round(self, ins, w):
        c = ins[0]
        d = w["decimals"] if isinstance(w, dict) else w
        def rd(x):
            if x is None or isinstance(x, FSpec):
                return x
            if x.is_const():
                v = x.cval() * 10 ** d
                q = (abs(v) + Fraction(1, 2)).__floor__()
                return fl(Fraction(q if v >= 0 else -q, 10 ** d))
            return ffn(f"round{d}", x)
        return c if c.dt not in FLOATS else c.w([rd(x) for x in c.vals])

    def f_NullCount(self, ins, w):
        return Col(ins[0].name, "u32", [sum(v is None for v in ins[0].vals)], True)

    def f_DropNulls(self, ins, w):
        return ins[0].w(nn(ins[0].vals))

    def f_DropNans(self, ins, w):
        return ins[0].w([v for v in ins[0].vals if v is not NAN])

    def f_Diff(self, ins, w):
        c = ins[0]
        k = iconc(ins[1].vals[0])
        dt = c.dt if c.dt not in ("u8", "u16", "u32", "u64") else {"u8": "i16", "u16": "i32", "u32": "i64", "u64": "i64"}[c.dt]
        vs = c.vals
        out = []
        for i in range(len(vs)):
            if i - k < 0 or i - k >= len(vs):
                if w == "Ignore":
                    out.append(None)
                continue
            a, b = vs[i], vs[i - k]
            out.append(None if a is None or b is None else ar("Minus", a, b, dt))
        return c.w(out, dt)

    def f_Shift(self, ins, w):
        c = ins[0]
        k = iconc(ins[1].vals[0])
        n = len(c)
        return c.w([c.vals[i - k] if 0 <= i - k < n else None for i in range(n)])

    def f_ShiftAndFill(self, ins, w):
        c = ins[0]
        k = iconc(ins[1].vals[0])
        n = len(c)
        fill = conv(ins[2].vals[0], ins[2].dt, c.dt)
        return c.w([c.vals[i - k] if 0 <= i - k < n else fill for i in range(n)])

    def f_CumSum(self, ins, w):
        c = ins[0]
        vs = c.vals[::-1] if w["reverse"] else c.vals
        dt = c.dt
        if dt == "bool":
            dt = "u32"
        elif dt in ("i8", "i16", "u8", "u16"):
            dt = "i64"
        acc, out = None, []
        for v in vs:
            if v is None:
                out.append(None)
                continue
            v = conv(v, c.dt, dt)
            acc = v if acc is None else ar("Plus", acc, v, dt)
            out.append(acc)
        return c.w(out[::-1] if w["reverse"] else out, dt)

    def f_Reverse(self, ins, w):
        return ins[0].w(ins[0].vals[::-1])

    def f_Unique(self, ins, w):
        return ins[0].w(unique_vals(ins[0].vals) if w is True else any_order(unique_vals(ins[0].vals)))

    def f_UniqueCounts(self, ins, w):
        return ins[0].w([len(ix) for _, ix in groups(ins[0].vals)], "u32")

    def f_ValueCounts(self, ins, w):
        c = ins[0]
        g = any_order(groups(c.vals))
        if w["sort"]:
            g = [g[i] for i in ssort(list(range(len(g))), lambda i, j: len(g[i][1]) > len(g[j][1]))]
        return Col(c.name, ("struct", [(c.name, c.dt), (w["name"], "u32")]), [(k, len(ix)) for k, ix in g])

    def f_RLE(self, ins, w):
        c = ins[0]
        out = []
        for v in c.vals:
            if out and br(teq(out[-1][1], v)):
                out[-1][0] += 1
            else:
                out.append([1, v])
        return Col(c.name, ("struct", [("len", "u32"), ("value", c.dt)]), [tuple(x) for x in out])

    def f_RLEID(self, ins, w):
        c = ins[0]
        out, k = [], 0
        for i, v in enumerate(c.vals):
            if i and not br(teq(c.vals[i - 1], v)):
                k += 1
            out.append(k)
        return c.w(out, "u32")

    def f_AsStruct(self, ins, w):
        n, vs = bcast(*ins)
        dts = [(c.name, concrete_dt(c.dt)) for c in ins]
        return Col(ins[0].name, ("struct", dts), [tuple(conv(v[i], c.dt, concrete_dt(c.dt)) for v, c in zip(vs, ins)) for i in range(n)], all(c.scalar for c in ins))

    def f_StructExpr(self, ins, w):
        c = ins[0]
        (k, v), = w.items() if isinstance(w, dict) else ((w, None),)
        if k == "FieldByName":
            return c.field(v)
        if k == "RenameFields":
            return Col(c.name, ("struct", [(nn_, dt) for nn_, (_, dt) in zip(v, c.dt[1])]), c.vals, c.scalar)
        raise Unsupported("struct." + k)

    def f_Rank(self, ins, w):
        o = w["options"]
        if o["method"] == "Random":
            return self.rank_random(ins[0])
        return rank(ins[0], o["method"], o["descending"])

    def rank_random(self, c):
        """ties broken by nondeterministic choice"""
        idx = [i for i, v in enumerate(c.vals) if v is not None]
        o = ssort(idx, lambda i, j: tlt(c.vals[i], c.vals[j]))
        out = [None] * len(c)
        k = 0
        while k < len(o):
            j = k + 1
            while j < len(o) and br(teq(c.vals[o[j]], c.vals[o[k]])):
                j += 1
            pool = o[k:j]
            r = k + 1
            while pool:
                C.CTX.nchoice = getattr(C.CTX, "nchoice", 0) + 1
                p = C.CTX.choose(len(pool), f"tie{C.CTX.nchoice}") if len(pool) > 1 else 0
                out[pool.pop(p)] = r
                r += 1
            k = j
        return Col(c.name, "u32", out)

    def f_TopK(self, ins, w):
        c = ins[0]
        k = iconc(ins[1].vals[0])
        o = argsort(c.vals, not w["descending"], True)
        return c.w([c.vals[i] for i in o[:k]])

    def f_Range(self, ins, w):
        (k, v), = w.items()
        if k == "IntRange":
            a, b = iconc(ins[0].vals[0]), iconc(ins[1].vals[0])
            return Col("literal" if ins[0].name == "literal" else ins[0].name, dtype(v["dtype"]), list(range(a, b, v["step"])))
        raise Unsupported("range " + k)

    def f_RollingExpr(self, ins, w):
        (k, o), = w.items()
        if o["weights"] is not None or o["center"]:
            raise Unsupported(f"rolling {k} {o}")
        c = ins[0]
        n, mp = o["window_size"], o["min_periods"]
        fp = o.get("fn_params") or {}
        agg = {"Mean": agg_mean, "Sum": agg_sum, "Min": lambda x: agg_minmax(x, False), "Max": lambda x: agg_minmax(x, True),
               "Var": lambda x: agg_var(x, fp["Var"]["ddof"]), "Std": lambda x: agg_std(x, fp["Var"]["ddof"])}.get(k)
        if agg is None:
            raise Unsupported(f"rolling {k}")
        out = []
        if c.dt not in ("f64", "f32") and k in ("Mean", "Var", "Std"):
            c = cast(c, "f64")
        for i in range(len(c.vals)):
            win = c.vals[max(0, i + 1 - n):i + 1]
            out.append(agg(c.w(win)).vals[0] if len(nn(win)) >= mp else None)
        return c.w(out)

    def f_Random(self, ins, w):
        if w["method"] != "Shuffle":
            raise Unsupported("random " + str(w))
        c = ins[0]
        return c.w([c.vals[i] for i in permutation(len(c), w["seed"])])

    def f_Mode(self, ins, w):
        c = ins[0]
        g = groups(c.vals)
        m = max((len(ix) for _, ix in g), default=0)
        ks = [k for k, ix in g if len(ix) == m]
        return c.w([ks[i] for i in permutation(len(ks), None)])

    def f_Entropy(self, ins, w):
        c = ins[0]
        xs = tofl(c)
        if w["normalize"]:
            s = fsum(xs)
            xs = [fdiv(x, s) for x in xs]
        acc = T.ZERO
        for x in xs:
            acc = fsub(acc, fmul(x, fln(x)))
        b = w["base"]
        if abs(b - math.e) > 1e-12:
            acc = fdiv(acc, fl(math.log(b)))
        return Col(c.name, "f64", [acc], True)

    def f_Skew(self, ins, w):
        xs = nn(tofl(ins[0]))
        n = len(xs)
        if not n:
            return Col(ins[0].name, "f64", [None], True)
        m = fdiv(fsum(xs), Poly.const(n))
        m2 = fdiv(fsum([fpowi(fsub(x, m), 2) for x in xs]), Poly.const(n))
        m3 = fdiv(fsum([fpowi(fsub(x, m), 3) for x in xs]), Poly.const(n))
        r = fdiv(m3, fmul(m2, fsqrt(m2)))
        if not w:
            raise Unsupported("unbiased skew")
        return Col(ins[0].name, "f64", [r], True)

    def f_Kurtosis(self, ins, w):
        xs = nn(tofl(ins[0]))
        n = len(xs)
        if not n:
            return Col(ins[0].name, "f64", [None], True)
        m = fdiv(fsum(xs), Poly.const(n))
        m2 = fdiv(fsum([fpowi(fsub(x, m), 2) for x in xs]), Poly.const(n))
        m4 = fdiv(fsum([fpowi(fsub(x, m), 4) for x in xs]), Poly.const(n))
        if not w[1]:
            raise Unsupported("unbiased kurtosis")
        r = fdiv(m4, fmul(m2, m2))
        if w[0]:
            r = fsub(r, Poly.const(3))
        return Col(ins[0].name, "f64", [r], True)

    def f_Correlation(self, ins, w):
        a, b = tofl(ins[0]), tofl(ins[1])
        ps = [(x, y) for x, y in zip(a, b) if x is not None and y is not None]
        n = len(ps)
        m = w["method"]
        xs, ys = [p[0] for p in ps], [p[1] for p in ps]
        if m == "Pearson":
            if n == 0:
                return Col(ins[0].name, "f64", [NAN], True)
            mx, my = fdiv(fsum(xs), Poly.const(n)), fdiv(fsum(ys), Poly.const(n))
            sxy = fsum([fmul(fsub(x, mx), fsub(y, my)) for x, y in ps])
            sxx = fsum([fpowi(fsub(x, mx), 2) for x in xs])
            syy = fsum([fpowi(fsub(y, my), 2) for y in ys])
            return Col(ins[0].name, "f64", [fdiv(sxy, fsqrt(fmul(sxx, syy)))], True)
        if isinstance(m, dict) and "Covariance" in m:
            dd = m["Covariance"]
            if n <= dd:
                return Col(ins[0].name, "f64", [NAN if n == dd else None], True)
            mx, my = fdiv(fsum(xs), Poly.const(n)), fdiv(fsum(ys), Poly.const(n))
            return Col(ins[0].name, "f64", [fdiv(fsum([fmul(fsub(x, mx), fsub(y, my)) for x, y in ps]), Poly.const(n - dd))], True)
        if isinstance(m, dict) and "SpearmanRank" in m:
            from .plops import rank
            a, b = (rank(Col("x", "f64", v), "Average").vals for v in (xs, ys))
            return self.f_Correlation([Col(ins[0].name, "f64", a), Col("y", "f64", b)], {"method": "Pearson"})
        raise Unsupported(f"correlation {m}")

    def _hred(self, ins, f, ignore=True):
        n, vs = bcast(*ins)
        dt = ins[0].dt
        for c in ins[1:]:
            dt = supertype(dt, c.dt)
        if dt == "bool":
            dt = "u32"
        out = []
        for i in range(n):
            acc = None
            bad = False
            for v, c in zip(vs, ins):
                x = conv(v[i], c.dt, dt)
                if x is None:
                    bad = True
                    continue
                acc = x if acc is None else f(acc, x, dt)
            out.append(None if bad and not ignore else acc)
        return Col(ins[0].name, dt, out, all(c.scalar for c in ins))

    def f_SumHorizontal(self, ins, w):
        r = self._hred(ins, lambda a, b, dt: ar("Plus", a, b, dt), w["ignore_nulls"])
        if w["ignore_nulls"]:
            r.vals = [(T.ZERO if r.dt in FLOATS else 0) if v is None else v for v in r.vals]
        return r

    def f_MaxHorizontal(self, ins, w):
        return self._hred(ins, lambda a, b, dt: (fmax(a, b) if dt in FLOATS else (b if br(ilt(a, b)) else a)))

    def f_MinHorizontal(self, ins, w):
        return self._hred(ins, lambda a, b, dt: (fmin(a, b) if dt in FLOATS else (b if br(ilt(b, a)) else a)))

    def f_MeanHorizontal(self, ins, w):
        n, vs = bcast(*ins)
        out = []
        for i in range(n):
            xs = [conv(v[i], c.dt, "f64") for v, c in zip(vs, ins) if v[i] is not None]
            out.append(fdiv(fsum(xs), Poly.const(len(xs))) if xs else None)
        return Col(ins[0].name, "f64", out)

    def f_Cut(self, ins, w):
        return self.cut(ins[0], [fl(x) for x in w["breaks"]], w)

    def cut(self, c, brk, w, bounds=None):
        """bin label + optional right break; labels are (lo, hi] strings of the breaks"""
        lab = [NINF] + brk + [PINF]
        out = []
        for v in tofl(c):
            if v is None:
                out.append(None)
                continue
            k = 0
            while k < len(brk) and not br(tlt(v, brk[k]) if w["left_closed"] else bnot(tlt(brk[k], v))):
                k += 1
            out.append(k)
        if w.get("labels"):
            ls = [StrV(x) for x in w["labels"]]
        else:
            ls = [CutLabel(lab[i], lab[i + 1]) for i in range(len(lab) - 1)]
        if w["include_breaks"]:
            return Col(c.name, ("struct", [("breakpoint", "f64"), ("category", "cat")]), [(None, None) if k is None else (lab[k + 1], ls[k]) for k in out])
        return Col(c.name, "cat", [None if k is None else ls[k] for k in out])

    def f_QCut(self, ins, w):
        c = ins[0]
        xs = ssort([v for v in nn(tofl(c))])
        if not xs:
            brk = []
        else:
            brk = [quantile_sorted(xs, p, "Linear") for p in w["probs"]]
        if w["allow_duplicates"]:
            u = []
            for b in brk:
                if not u or not br(teq(u[-1], b)):
                    u.append(b)
            brk = u
        else:
            for a, b in zip(brk, brk[1:]):
                if br(teq(a, b)):
                    raise PolarsError("breaks are not unique")
        return self.cut(c, brk, w)

    def f_Interpolate(self, ins, w):
        raise Unsupported("interpolate")

    def f_RepeatBy(self, ins, w):
        c, b = ins
        n, (cv, bv) = bcast(c, b)
        return Col(c.name, ("list", c.dt), [None if y is None else Lst([x] * iconc(y), c.dt) for x, y in zip(cv, bv)])

    def f_Boolean(self, ins, w):
        c = ins[0]
        (k, v), = w.items() if isinstance(w, dict) else ((w, None),)
        sc = all(x.scalar for x in ins)
        B = lambda vals, s=sc: Col(c.name, "bool", vals, s)
        if k == "Not":
            return B([None if x is None else bnot(x) for x in c.vals])
        if k == "IsNull":
            return B([x is None for x in c.vals])
        if k == "IsNotNull":
            return B([x is not None for x in c.vals])
        if k == "IsNan":
            return B([None if x is None else x is NAN for x in c.vals])
        if k == "IsNotNan":
            return B([None if x is None else x is not NAN for x in c.vals])
        if k == "IsFinite":
            return B([None if x is None else not isinstance(x, FSpec) for x in c.vals])
        if k == "IsInfinite":
            return B([None if x is None else x in (PINF, NINF) for x in c.vals])
        if k == "IsBetween":
            n, (xs, lo, hi) = bcast(*ins)
            cl = v["closed"]
            out = []
            for x, a, b in zip(xs, lo, hi):
                if x is None or a is None or b is None:
                    out.append(None)
                    continue
                l = tle(a, x) if cl in ("Both", "Left") else tlt(a, x)
                r = tle(x, b) if cl in ("Both", "Right") else tlt(x, b)
                out.append(band(l, r))
            return B(out)
        if k in ("All", "Any"):
            xs = c.vals
            if k == "All":
                if any(x is not None and not br(x) for x in xs):
                    return B([False], True)
                return B([None if (not v["ignore_nulls"] and any(x is None for x in xs)) else True], True)
            if any(x is not None and br(x) for x in xs):
                return B([True], True)
            return B([None if (not v["ignore_nulls"] and any(x is None for x in xs)) else False], True)
        if k in ("AnyHorizontal", "AllHorizontal"):
            n, vs = bcast(*ins)
            r = Col(c.name, "bool", vs[0])
            for x in vs[1:]:
                r = binary("Or" if k[1] == "n" else "And", r, Col(c.name, "bool", x))
            return B(r.vals)
        if k == "IsUnique":
            g = groups(c.vals)
            out = [None] * len(c)
            for _, ix in g:
                for i in ix:
                    out[i] = len(ix) == 1
            return B(out, False)
        if k == "IsDuplicated":
            g = groups(c.vals)
            out = [None] * len(c)
            for _, ix in g:
                for i in ix:
                    out[i] = len(ix) > 1
            return B(out, False)
        if k == "IsFirstDistinct":
            g = groups(c.vals)
            out = [False] * len(c)
            for _, ix in g:
                out[ix[0]] = True
            return B(out, False)
        if k == "IsIn":
            o = ins[1]
            if isinstance(o.dt, tuple) and o.dt[0] == "list" and not (isinstance(c.dt, tuple)):
                n, (xs, ls) = bcast(c, o)
                return B([None if x is None or l is None else bor(*[teq(x, y) for y in l.v if y is not None]) for x, l in zip(xs, ls)])
            return Col(c.name, "bool", [None if x is None else bor(*[teq(x, y) for y in o.vals if y is not None]) for x in c.vals], c.scalar)
        raise Unsupported("boolean " + k)

    def f_ListExpr(self, ins, w):
        c = ins[0]
        (k, v), = w.items() if isinstance(w, dict) else ((w, None),)
        if k == "Concat":
            n, vs = bcast(*ins)
            out = []
            el = None
            for x in ins:
                d = x.dt[1] if isinstance(x.dt, tuple) and x.dt[0] == "list" else x.dt
                el = d if el is None else supertype(el, d)
            el = concrete_dt(el)
            for i in range(n):
                r = []
                bad = False
                for x, q in zip(ins, vs):
                    if isinstance(x.dt, tuple) and x.dt[0] == "list":
                        if q[i] is None:
                            bad = True
                        else:
                            r += [conv(y, x.dt[1], el) for y in q[i].v]
                    else:
                        r.append(conv(q[i], x.dt, el))
                out.append(None if bad else Lst(r, el))
            return Col(c.name, ("list", el), out, all(x.scalar for x in ins))
        if not (isinstance(c.dt, tuple) and c.dt[0] == "list"):
            raise PolarsError("list function on a non-list")
        el = c.dt[1]
        def per(f, dt):
            return Col(c.name, dt, [None if x is None else f(Col("", el, list(x.v))) for x in c.vals], c.scalar)
        if k in ("ArgMax", "ArgMin"):
            return per(lambda x: self.s_arg_max([x], None, k == "ArgMax").vals[0], "u32")
        if k == "Get":
            n, (xs, ix) = bcast(c, ins[1])
            out = []
            for x, i in zip(xs, ix):
                if x is None or i is None:
                    out.append(None)
                    continue
                i = iconc(i)
                j = i + len(x.v) if i < 0 else i
                if 0 <= j < len(x.v):
                    out.append(x.v[j])
                elif v:
                    out.append(None)
                else:
                    raise PolarsError("list.get index out of bounds")
            return Col(c.name, el, out, c.scalar)
        if k == "Length":
            return per(lambda q: len(q), "u32")
        if k == "DropNulls":
            return per(lambda q: Lst(nn(q.vals), el), c.dt)
        if k == "Sum":
            return per(lambda q: agg_sum(q).vals[0], el if el in FLOATS or el in ("i32", "i64", "u32", "u64") else "i64")
        if k in ("Max", "Min"):
            return per(lambda q: agg_minmax(q, k == "Max").vals[0], el)
        if k == "Mean":
            return per(lambda q: agg_mean(q).vals[0], "f64")
        if k == "Slice":
            n, vs = bcast(*ins)
            out = []
            for x, o, l in zip(*vs):
                if x is None:
                    out.append(None)
                    continue
                s = iconc(o)
                s = len(x.v) + s if s < 0 else s
                e = len(x.v) if l is None else s + iconc(l)
                out.append(Lst(x.v[max(0, s):max(0, e)], el))
            return Col(c.name, c.dt, out, c.scalar)
        if k == "Join":
            sep = ins[1].vals[0]
            def jn(q):
                o = []
                first = True
                for s in nn(q.vals):
                    if not first:
                        o += sep.c
                    o += s.c
                    first = False
                return StrV(o)
            return per(jn, "str")
        if k == "Sort":
            return per(lambda q: Lst([q.vals[i] for i in argsort(q.vals, v["descending"], v["nulls_last"])], el), c.dt)
        if k == "Unique":
            return per(lambda q: Lst(unique_vals(q.vals), el), c.dt)
        if k == "Contains":
            n, vs = bcast(*ins)
            return Col(c.name, "bool", [None if x is None else bor(*[teq(y, z) for y in x.v]) for x, z in zip(*vs)], c.scalar)
        if k == "Join":
            sep = ins[1].vals[0]
            out = []
            for x in c.vals:
                if x is None or (None in x.v and not v):
                    out.append(None)
                    continue
                r = []
                for j, y in enumerate([y for y in x.v if y is not None]):
                    r += (list(sep.c) if j else []) + list(y.c)
                out.append(StrV(r))
            return Col(c.name, "str", out, c.scalar)
        if k == "ToStruct":
            raise Unsupported("list.to_struct")
        raise Unsupported("list." + k)

    def f_StringExpr(self, ins, w):
        from . import plstr
        return plstr.string_fn(self, ins, w)

    def f_Replace(self, ins, w):
        return self._replace(ins, False)

    def f_ReplaceStrict(self, ins, w):
        return self._replace(ins, True, w)

    def _replace(self, ins, strict, rdt=None):
        c, old, new = ins[:3]
        dflt = ins[3] if len(ins) > 3 else None
        # lists given as list scalars
        def flat(x):
            if isinstance(x.dt, tuple) and x.dt[0] == "list" and len(x) == 1 and not isinstance(c.dt, tuple):
                return Col(x.name, x.dt[1], list(x.vals[0].v))
            return x
        old, new = flat(old), flat(new)
        if len(new) == 1 and len(old) != 1:
            new = Col(new.name, new.dt, new.vals * len(old))
        dt = new.dt if strict else c.dt
        if dflt is not None:
            dt = supertype(dt, dflt.dt)
        dt = concrete_dt(dt)
        out = []
        for i, v in enumerate(c.vals):
            for o, m in zip(old.vals, new.vals):
                if br(teq(v, conv(o, old.dt, c.dt) if old.dt != c.dt else o)):
                    out.append(conv(m, new.dt, dt))
                    break
            else:
                if not strict:
                    out.append(v)
                elif dflt is None:
                    if v is None:
                        out.append(None)
                    else:
                        raise PolarsError("incomplete mapping specified for replace_strict")
                else:
                    out.append(conv(dflt.vals[i if len(dflt) > 1 else 0], dflt.dt, dt))
        return Col(c.name, dt, out, c.scalar)

def permutation(n, seed):
    """any permutation; one and the same for equal seeds (polars' shuffle depends on the seed and the length alone)"""
    c = C.CTX
    def draw():
        pool, out = list(range(n)), []
        while pool:
            c.nchoice = getattr(c, "nchoice", 0) + 1
            out.append(pool.pop(c.choose(len(pool), f"perm{c.nchoice}") if len(pool) > 1 else 0))
        return out
    if seed is None:
        return draw()
    d = c.__dict__.setdefault("perms", {})
    if (seed, n) not in d:
        d[(seed, n)] = draw()
    return d[(seed, n)]

class CutLabel:
    """category label of an interval"""
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def eq_sym(self, o):
        if not isinstance(o, CutLabel):
            return False
        return band(teq(self.lo, o.lo), teq(self.hi, o.hi))

    def __repr__(self):
        return f"({self.lo}, {self.hi}]"

# ------------------------------------------------------------------ plugins
def call_plugin(it, sym, ins, kw, sub=None):
    f = it.prog.find_free([sym])
    if f is None:
        raise Unsupported(f"no function {sym} in the crate")
    f.parse()
    args = []
    for p in f.params:
        ty = f.locals[p]
        if "[polars::prelude::Series]" in ty or "Series]" in ty:
            args.append(SliceV(list(ins)))
        elif "CallerContext" in ty:
            args.append(StructV("CallerContext", [it.opts.get("ctx_parallel", False)]))
        else:
            args.append(kwargs_value(it, ty, kw, sub or {}))
    r = it.run(f, args, {})
    if r.var == "Err":
        raise PolarsError(f"{sym}: {r.f}")
    return deref(r.f[0])

def serde_default(it, struct, field):
    """the function named by the field's #[serde(default)], "" for Default, None when it must be given"""
    for f, src in it.prog.sources():
        m = re.search(r"struct\s+" + struct + r"\s*\{(.*?)\n\}", src, re.S)
        if m:
            a = re.search(r"((?:#\[[^\]]*\]\s*|//[^\n]*\n\s*)*)(?:pub(?:\([a-z]+\))?\s+)?" + field + r"\s*:", m.group(1))
            if a:
                k = re.search(r'serde\(\s*default(?:\s*=\s*"([\w:]+)")?', a.group(1))
                return None if k is None else (k.group(1) or "").split("::")[-1]
    return None

def kwargs_value(it, ty, kw, sub):
    b = mir.base_name(ty)
    fs = it.prog.structs.get(b)
    if fs is None:
        raise Unsupported("kwargs type " + ty)
    kw = kw or {}
    vals = []
    for n, t in fs:
        if n not in kw:
            if t.startswith("Option"):
                vals.append(None_())
                continue
            d = serde_default(it, b, n)
            if d is None:
                raise PolarsError(f"kwargs: missing field {n}")
            if d == "":
                z = {"bool": False, "f64": T.ZERO, "String": StrV("")}
                if t not in z and not re.fullmatch(r"[iu](8|16|32|64|size)", t):
                    raise Unsupported(f"serde default of {t}")
                vals.append(z.get(t, 0))
            else:
                vals.append(it.run(it.prog.find_free([d]), [], {}))
            continue
        vals.append(kw_conv(kw[n], t, sub))
    return StructV(b, vals, [n for n, _ in fs])

def kw_conv(v, t, sub):
    t = t.strip()
    if t.startswith("Option<"):
        return None_() if v is None else Some(kw_conv(v, t[7:-1], sub))
    if v is None:
        raise PolarsError("kwargs: null")
    if t in ("String", "&str"):
        return sub[v] if v in sub else StrV(v)
    m = re.match(r"(?:[\w:]+::)?HashMap<(.*)>$", t)
    if m:
        from .models_std import MapV
        a = mir.split_top(m.group(1), ",")
        r = MapV()
        r.k = [kw_conv(x, a[0], sub) for x in v]
        r.v = [kw_conv(x, a[1], sub) for x in v.values()]
        return r
    if t.startswith("Vec<"):
        return VecV([kw_conv(x, t[4:-1], sub) for x in v])
    if t == "bool":
        return v
    if t in ("f64", "f32"):
        return sub[v] if v in sub else fl(v)
    if t in T.RANGES:
        if not isinstance(v, bool) and v in sub:
            return sub[v]
        lo, hi = T.RANGES[t]
        if isinstance(v, float) or not lo <= v <= hi:
            raise PolarsError("kwargs: integer expected")
        return v
    raise Unsupported("kwargs field type " + t)

# ------------------------------------------------------------------ concrete series
def from_series(s, name=None, scalar=False):
    """a real polars series (python) as a column"""
    import polars as pl
    def dt_of(d):
        if d == pl.List or isinstance(d, (pl.List, pl.Array)):
            return ("list", dt_of(d.inner))
        if isinstance(d, pl.Struct):
            return ("struct", [(f.name, dt_of(f.dtype)) for f in d.fields])
        if isinstance(d, (pl.Categorical, pl.Enum)):
            return "cat"
        return DT[str(d)]
    def val(x, dt):
        if x is None:
            return None
        if isinstance(dt, tuple) and dt[0] == "list":
            return Lst([val(y, dt[1]) for y in x], dt[1])
        if isinstance(dt, tuple):
            return tuple(val(x[n], d) for n, d in dt[1])
        if dt in ("str", "cat"):
            return StrV(x)
        if dt in FLOATS:
            return fl(float(x))
        return x
    dt = dt_of(s.dtype)
    return Col(s.name if name is None else name, dt, [val(x, dt) for x in s.to_list()], scalar)
