"""Further models of Python's builtins, string/list/dict/set methods and the parts of
the standard library that plain code is written with (itertools, functools, operator,
collections, math, bisect, dataclasses).  Constants are folded; containers are handled
element by element; whatever cannot be followed returns an opaque value, and an
operation that may have changed a container makes its contents unknown."""
from __future__ import annotations
import ast
import math
import re
from fractions import Fraction

from .vals import *  # noqa
from .vals import _vid
from . import alg

NOVAL = object()


class _HS:
    def __init__(self, st):
        self.heap_keys = st.heap


def _raise(exc):
    from .interp import Raised
    raise Raised(exc)


def _unsup(msg):
    from .interp import Unsup
    raise Unsup(msg)


STR_METHODS = {m for m in dir(str) if not m.startswith("_")} - {"maketrans", "translate", "encode", "format_map"}
LIST_METHODS = {"append", "extend", "insert", "remove", "pop", "clear", "index", "count", "sort", "reverse", "copy",
                "appendleft", "popleft", "extendleft", "rotate"}
PURE_ARRAY_METHODS = {"nonzero", "argmax", "argmin", "argsort", "cumsum", "cumprod", "mean", "std", "var", "prod", "trace", "round",
                      "repeat", "squeeze", "diagonal", "swapaxes", "take", "searchsorted", "conj", "ptp", "view", "tobytes",
                      "compress", "choose", "__array__"}
OPS = {"add": ast.Add, "sub": ast.Sub, "mul": ast.Mult, "truediv": ast.Div, "floordiv": ast.FloorDiv, "mod": ast.Mod,
       "pow": ast.Pow, "matmul": ast.MatMult, "and_": ast.BitAnd, "or_": ast.BitOr, "xor": ast.BitXor,
       "iadd": ast.Add, "isub": ast.Sub, "imul": ast.Mult, "concat": ast.Add, "iconcat": ast.Add}
CMPS = {"lt": ast.Lt, "le": ast.LtE, "gt": ast.Gt, "ge": ast.GtE, "eq": ast.Eq, "ne": ast.NotEq, "is_": ast.Is, "is_not": ast.IsNot}


class PyLib:
    # ------------------------------------------------------------ constants
    def pyval(self, v, st):
        """the Python constant an abstract value stands for, or NOVAL"""
        if isinstance(v, K):
            return v.v
        if isinstance(v, Poly):
            if v.is_const():
                c = v.const()
                return int(c) if c.denominator == 1 else Fraction(c)
            return NOVAL
        if isinstance(v, Cond):
            return True if v.k == "T" else False if v.k == "F" else NOVAL
        if isinstance(v, Tup):
            xs = [self.pyval(x, st) for x in v.items]
            return NOVAL if any(x is NOVAL for x in xs) else tuple(xs)
        c = st.cell(v)
        if isinstance(c, Lst) and c.concrete() and c.kind in (None, "set"):
            xs = [self.pyval(x, st) for x in c.values()]
            if any(x is NOVAL for x in xs):
                return NOVAL
            return xs
        return NOVAL

    def absval(self, x, st):
        if isinstance(x, bool):
            return cbool(x)
        if isinstance(x, (int, Fraction)):
            return const(x)
        if isinstance(x, float):
            if x != x or x in (float("inf"), float("-inf")):
                return opaque("inf", dim=())
            return const(alg.float_frac(x))
        if isinstance(x, tuple):
            return Tup([self.absval(y, st) for y in x])
        if isinstance(x, list):
            return st.new(Lst([(TRUE, self.absval(y, st)) for y in x]))
        return K(x)

    def seglist(self, v, st):
        """the elements of an iterable that is certainly finite and fully present, else None"""
        segs = self._segs(v, st)
        if all(s[0] == "one" and s[1].k == "T" for s in segs):
            return [s[2] for s in segs]
        return None

    def mklist(self, vals, st, kind=None):
        return st.new(Lst([(TRUE, x) for x in vals], kind))

    def iterv(self, vals):
        r = IterV([("one", TRUE, x) for x in vals])
        r.stateful = True
        return r

    # ------------------------------------------------------------- ordering
    def order(self, a, b, st):
        """-1 / 0 / 1 as a < b, a = b, a > b for certain; None when not known"""
        if isinstance(a, Cond):
            a = alg.boolnum(a)
        if isinstance(b, Cond):
            b = alg.boolnum(b)
        if isinstance(a, Poly) and isinstance(b, Poly):
            if alg.equal(a, b):
                return 0
            s = alg.sign_cleared(a - b)
            return 1 if s == 1 else -1 if s == -1 else None
        if isinstance(a, K) and isinstance(b, K):
            if isinstance(a.v, str) and isinstance(b.v, str):
                return (a.v > b.v) - (a.v < b.v)
            _raise("TypeError")
        xa, xb = self.tupitems(a, st), self.tupitems(b, st)
        if xa is not None and xb is not None:
            for p, q in zip(xa, xb):
                o = self.order(p, q, st)
                if o != 0:
                    return o
            return (len(xa) > len(xb)) - (len(xa) < len(xb))
        return None

    def tupitems(self, v, st):
        if isinstance(v, Tup):
            return list(v.items)
        c = st.cell(v)
        if isinstance(c, Lst) and c.kind is None and c.concrete():
            return c.values()
        if isinstance(c, Obj) and c.cls is not None and c.cls.is_namedtuple:
            return [c.attrs[f] for f, _ in c.cls.fields]
        return None

    def sort_vals(self, vals, keys, st, reverse=False):
        """stable order of vals by keys, or None"""
        idx = []
        for i in range(len(vals)):
            k = len(idx)
            for p, j in enumerate(idx):
                o = self.weak(keys[i], keys[j], st)
                if o is None:
                    return None
                if (o < 0) if not reverse else (o > 0):
                    k = p
                    break
            idx.insert(k, i)
        return [vals[i] for i in idx]

    def weak(self, a, b, st):
        """like order, but a certain >= or <= is enough when it decides a stable sort"""
        o = self.order(a, b, st)
        if o is not None:
            return o
        if isinstance(a, Poly) and isinstance(b, Poly):
            s = alg.sign_cleared(a - b)
            return 1 if s == 0.5 else -1 if s == -0.5 else None
        return None

    def b_sorted(self, args, kw, st):
        segs = self._segs(args[0], st)
        key = kw.get("key", NONE)
        rev = kw.get("reverse", FALSE)
        rev = self.it.truth(rev, st)
        if all(s[0] == "one" and s[1].k == "T" for s in segs) and rev.k in ("T", "F"):
            vals = [s[2] for s in segs]
            if any(isinstance(v, GV) for v in vals):
                vals = [self.it.num(v, st) if isinstance(v, GV) and self.numeric(v) else v for v in vals]
            keys = vals if key == NONE else [self.it.call(key, [v], {}, st) for v in vals]
            o = self.sort_vals(vals, keys, st, rev.k == "T")
            if o is not None:
                return self.mklist(o, st)
        return st.new(Lst([(("sorted", next(_vid)), TRUE, segs[0][2] if len(segs) == 1 else self.opq("sorted elem")) for s in segs[:1]]))

    def numeric(self, v):
        return isinstance(v, Poly) or isinstance(v, GV) and self.numeric(v.a) and self.numeric(v.b)

    def b_max(self, args, kw, st, name="max"):
        vals = args
        if len(args) == 1:
            c0 = st.cell(args[0])
            segs = self._segs(args[0], st)
            if not segs:
                if "default" in kw:
                    return kw["default"]
                _raise("ValueError")
            if not all(s[0] == "one" for s in segs):
                return self.opq(name)
            if not all(s[1].k == "T" for s in segs):
                return self.guarded_extreme(segs, kw, st, name)
            vals = [s[2] for s in segs]
        key = kw.get("key", NONE)
        if key != NONE or any(not self.numeric(v) and not isinstance(v, (Cond, Opq)) for v in vals):
            keys = vals if key == NONE else [self.it.call(key, [v], {}, st) for v in vals]
            best = 0
            for i in range(1, len(vals)):
                o = self.weak(keys[i], keys[best], st)
                if o is None:
                    return self.choose(vals, keys, st, name)
                if (o > 0) if name == "max" else (o < 0):
                    # "at least as large" does not displace an equal earlier element
                    if self.order(keys[i], keys[best], st) is None:
                        return self.choose(vals, keys, st, name)
                    best = i
            return vals[best]
        ps = [self.it.num(v, st) for v in vals]
        fin = [p for p in ps if p != (self.INF if name == "min" else -self.INF)]
        if fin and not any(a in self.INF.atoms() for p in fin for a in p.atoms()):
            ps = fin
        self.it.events.append((name, tuple(ps), st.pc, self.it.site()))
        return alg.mkfn(name, *ps)

    def choose(self, vals, keys, st, name):
        """first element with the extreme key, as a gated value"""
        try:
            ks = [self.it.num(k, st) for k in keys]
        except Exception:
            return self.opq(name)
        best, bk = vals[0], ks[0]
        for v, k in zip(vals[1:], ks[1:]):
            g = cgt(k - bk) if name == "max" else cgt(bk - k)
            best = self.it.merge(g, v, best, _HS(st), _HS(st), st.heap)
            bk = alg.gamma(g, k, bk)
        return best

    def guarded_extreme(self, segs, kw, st, name):
        """max/min over elements some of which are only present in some cases"""
        if kw.get("key", NONE) != NONE:
            return self.opq(name)
        none = cand(*[cnot(s[1]) for s in segs])
        if "default" in kw:
            r = kw["default"]
        else:
            if none.k != "F":
                f = st.fork()
                f.pc = cand(st.pc, none)
                self.it.raise_event("ValueError", f, self.it.fullpc(f))
            r = None
        have = FALSE
        acc = None
        try:
            for s in segs:
                x = self.it.num(s[2], st)
                if acc is None:
                    acc, have = x, s[1]
                else:
                    both = alg.mkfn(name, acc, x)
                    acc = alg.gamma(s[1], alg.gamma(have, both, x), acc)
                    have = cor(have, s[1])
        except Exception:
            return self.opq(name)
        if r is None:
            return acc
        return self.it.merge(have, acc, r, _HS(st), _HS(st), st.heap)

    def b_min(self, args, kw, st):
        return self.b_max(args, kw, st, "min")

    # ------------------------------------------------------------- builtins
    def b_pow(self, args, kw, st):
        return self.binop(ast.Pow(), args[0], args[1], st)

    def b_iter(self, args, kw, st):
        c = st.cell(args[0])
        if isinstance(c, Lst) and c.kind == "iter":
            return args[0]
        if isinstance(c, Obj) and c.cls is not None and not c.cls.is_namedtuple:
            m = self.it.prog.find_method(c.cls, "__iter__", "method")
            if m is not None:
                return self.it.call_info(m, st, [], {}, selfv=args[0])
        segs = self._segs(args[0], st)
        return st.new(Lst([(s[1], s[2]) if s[0] == "one" else (s[1], s[3] if len(s) > 3 else TRUE, s[2]) for s in segs], "iter"))

    def b_next(self, args, kw, st):
        v = args[0]
        c = st.cell(v)
        default = args[1] if len(args) > 1 else None
        if isinstance(c, Obj) and c.cls is not None:
            m = self.it.prog.find_method(c.cls, "__next__", "method")
            if m is not None:
                return self.it.call_info(m, st, [], {}, selfv=v)
        if isinstance(c, Lst) and c.kind == "iter":
            ent = c.ent
        elif isinstance(v, IterV):
            ent = [(s[1], s[2]) if s[0] == "one" else (s[1], TRUE, s[2]) for s in v.segs]
        else:
            return self.opq("next")
        if ent and len(ent[0]) == 2 and ent[0][0].k == "T":
            if isinstance(c, Lst):
                st.w(v).ent = list(ent[1:])
            return ent[0][1]
        if not all(len(e) == 2 for e in ent):
            if isinstance(c, Lst):
                st.w(v).ent = [(("iter", next(_vid)), TRUE, self.opq("rest"))]
            return self.opq("next")
        none = cand(*[cnot(e[0]) for e in ent])
        if default is None:
            if none.k == "T":
                _raise("StopIteration")
            if none.k != "F":
                f = st.fork()
                f.pc = cand(st.pc, none)
                self.it.raise_event("StopIteration", f, self.it.fullpc(f))
        r = default
        rest, seen = [], FALSE
        for e in ent:
            g = cand(e[0], seen)
            if g.k != "F":
                rest.append((g, e[1]))
            seen = cor(seen, e[0])
        for e in reversed(ent):
            if e[0].k == "T" or r is None:
                r = e[1]
            else:
                r = self.it.merge(e[0], e[1], r, _HS(st), _HS(st), st.heap)
        if isinstance(c, Lst):
            st.w(v).ent = rest
        return r

    def b_filter(self, args, kw, st):
        out = []
        for s in self._segs(args[1], st):
            g = self.it.truth(s[2] if args[0] == NONE else self.it.call(args[0], [s[2]], {}, st), st)
            if s[0] == "one":
                if cand(s[1], g).k != "F":
                    out.append(("one", cand(s[1], g), s[2]))
            else:
                out.append(("many", s[1], s[2], cand(s[3] if len(s) > 3 else TRUE, g)))
        r = IterV(out)
        r.stateful = True
        return r

    def b_map(self, args, kw, st):
        if len(args) > 2:
            z = self.b_zip(args[1:], {}, st).segs
            out = [s[:2] + (self.it.call(args[0], list(s[2].items), {}, st),) + tuple(s[3:]) for s in z]
        else:
            out = [s[:2] + (self.it.call(args[0], [s[2]], {}, st),) + tuple(s[3:]) for s in self._segs(args[1], st)]
        r = IterV(out)
        r.stateful = True
        return r

    def b_set(self, args, kw, st):
        if not args:
            return st.new(Lst((), "set"))
        r = self.distinct(self.b_list(args, kw, st), st)
        st.w(r).kind = "set"
        return r

    b_frozenset = b_set

    def b_dict(self, args, kw, st):
        d = {}
        op = "**" in kw
        if args:
            c = st.cell(args[0])
            if isinstance(c, Dct):
                d.update(c.items)
                op = op or c.open
            else:
                pairs = self.seglist(args[0], st)
                if pairs is None:
                    op = True
                for p in pairs or []:
                    kv = self.it.unpack(p, 2, st)
                    try:
                        d[kv[0]] = kv[1]
                    except TypeError:
                        op = True
        for k, v in kw.items():
            if k != "**":
                d[K(k)] = v
        return st.new(Dct(d, op))

    def b_enumerate(self, args, kw, st):
        segs = self._segs(args[0], st)
        start = args[1] if len(args) > 1 else kw.get("start", ZERO)
        if all(s[0] == "one" for s in segs):
            out, n = [], start
            for s in segs:
                out.append(("one", s[1], Tup([n, s[2]])))
                n = n + (ONE if s[1].k == "T" else alg.boolnum(s[1]))
            r = IterV(out)
        elif len(segs) == 1:
            s = segs[0]
            if s[1] and isinstance(s[1], tuple) and s[1][0] == "range" and isinstance(s[2], Poly) and s[1][1] == ZERO:
                i = s[2]
            else:
                i = sym(f"e{next(_vid)}", "0+", dim=(), intlike=True)
            r = IterV([("many", s[1], Tup([i + start, s[2]])) + tuple(s[3:])])
        else:
            r = IterV([("many", ("enum", next(_vid)), Tup([sym(f"e{next(_vid)}", "0+", dim=(), intlike=True), self.opq("enum elem")]))])
        r.stateful = True
        return r

    def b_type(self, args, kw, st):
        v = args[0]
        c = st.cell(v)
        if isinstance(c, Obj) and c.cls is not None:
            return ClsV(c.cls)
        if isinstance(v, GV):
            return self.it.lift(v, st, lambda x, s: self.b_type([x], {}, s))
        if isinstance(v, K):
            if isinstance(v.v, str):
                return Ext("builtins.str")
            return Ext("builtins.NoneType") if v.v is None else self.opq("type")
        if isinstance(v, Cond):
            return Ext("builtins.bool")
        if isinstance(v, Tup):
            return Ext("builtins.tuple")
        if isinstance(c, Lst):
            return {None: Ext("builtins.list"), "set": Ext("builtins.set")}.get(c.kind) or self.opq("type")
        if isinstance(c, Dct):
            return Ext("builtins.dict") if c.tag is None else self.opq("type")
        if isinstance(c, (Arr, Fld, Sym)):
            return Ext("numpy.ndarray")
        return self.opq("type")

    def b_issubclass(self, args, kw, st):
        a, b = args
        bs = list(b.items) if isinstance(b, Tup) else [b]
        if isinstance(a, ClsV) and all(isinstance(x, ClsV) for x in bs):
            return cbool(any(self.it.prog.issub(a.info, x.info) for x in bs))
        return copaque("issubclass")

    def b_vars(self, args, kw, st):
        return self.it.getattr(args[0], "__dict__", st) if args else self.opq("vars")

    def b_callable(self, args, kw, st):
        v = args[0]
        if isinstance(v, GV):
            return cor(cand(v.c, self.b_callable([v.a], {}, st)), cand(cnot(v.c), self.b_callable([v.b], {}, st)))
        if isinstance(v, (FnV, BM, ClsV, Ext, PartV, PrimV, MemoV, NM)):
            return TRUE
        if isinstance(v, (Poly, K, Tup, Cond, Rng)):
            return FALSE
        c = st.cell(v)
        if isinstance(c, (Arr, Lst, Fld, Sym, Dct)):
            return FALSE
        if isinstance(c, Obj) and c.cls is not None:
            return cbool(self.it.prog.find_method(c.cls, "__call__") is not None)
        return ckey("callable", str(v)[:40])

    def b_hasattr(self, args, kw, st):
        v, a = args[0], args[1]
        if isinstance(v, GV):
            return cor(cand(v.c, self.b_hasattr([v.a, a], {}, st)), cand(cnot(v.c), self.b_hasattr([v.b, a], {}, st)))
        if not (isinstance(a, K) and isinstance(a.v, str)):
            return copaque("hasattr")
        a = a.v
        c = st.cell(v)
        pr = self.it.prog
        if isinstance(c, Obj):
            if a in c.attrs:
                return TRUE if not self.it.has_undef(c.attrs[a]) else self.defined(c.attrs[a])
            if c.cls is not None:
                r = self.cls_hasattr(c.cls, a, st)
                if r is True:
                    return TRUE
                if r is False and c.tag is None:
                    return FALSE
                return ckey("hasattr", c.cls.name, a)
        if isinstance(v, ClsV):
            r = self.cls_hasattr(v.info, a, st)
            return copaque("hasattr") if r is None else cbool(r)
        if isinstance(v, Poly) and v.is_const() and a in ("tolist", "shape", "dtype", "item", "ndim", "size"):
            return ckey("hasattr", str(v)[:40], a)
        if isinstance(v, (Poly, Cond)) and a in ("__iter__", "__len__", "append", "items", "keys", "copy", "tolist", "shape"):
            return FALSE if a in ("__iter__", "__len__", "append", "items", "keys") else ckey("hasattr", str(v)[:40], a)
        py = {Lst: [], Dct: {}}.get(type(c))
        if isinstance(c, Lst) and c.kind:
            py = set() if c.kind == "set" else iter([])
        if isinstance(v, Tup):
            py = ()
        if isinstance(v, K):
            py = v.v
        if py is not None or isinstance(v, K):
            return cbool(hasattr(py, a))
        if isinstance(c, (Arr, Fld, Sym)):
            if a in ("__iter__", "__len__", "shape", "tolist", "size", "ndim", "dtype", "T", "sum", "copy", "reshape", "flatten"):
                return TRUE
            if a in ("append", "items", "keys", "pop", "extend", "get"):
                return FALSE
        return ckey("hasattr", str(v)[:40], a)

    def defined(self, v):
        if isinstance(v, Undef):
            return FALSE
        if isinstance(v, GV):
            return cor(cand(v.c, self.defined(v.a)), cand(cnot(v.c), self.defined(v.b)))
        return TRUE

    def cls_hasattr(self, ci, a, st):
        """True / False / None (unknown) : does the class provide attribute a"""
        pr = self.it.prog
        known = True
        for k in pr.mro(ci):
            sc = st.heap.get(self.it.shared.get(k)) if self.it.shared else None
            if sc is not None and a in sc.attrs:
                if not self.it.has_undef(sc.attrs[a]):
                    return True
                return None
            if a in k.methods or a in k.props or a in k.consts or a in k.nested:
                return True
            if "__getattr__" in k.methods:
                known = False
            for b in k.bases:
                r = pr.lookup_global(k.module, b.split("[")[0].split(".")[-1])
                if not (r and r[0] == "class") and b not in ("object", "ABC", "NamedTuple", "typing.NamedTuple"):
                    known = False
        if hasattr(object, a):
            return True
        return False if known else None

    def b_ord(self, args, kw, st):
        if len(args) == 1 and isinstance(args[0], K) and isinstance(args[0].v, str) and len(args[0].v) == 1:
            return const(ord(args[0].v))
        return self.opq("ord")

    def b_chr(self, args, kw, st):
        if len(args) == 1 and isinstance(args[0], Poly) and args[0].is_const() and args[0].const().denominator == 1 and 0 <= args[0].const() < 0x110000:
            return K(chr(int(args[0].const())))
        return self.opq("chr")

    def b_eval(self, args, kw, st):
        """an expression given as a known string, in the caller's scope"""
        if len(args) == 1 and isinstance(args[0], K) and isinstance(args[0].v, str):
            try:
                return self.it.ev(ast.parse(args[0].v.strip(), mode="eval").body, st)
            except SyntaxError:
                raise_raised("SyntaxError")
        return self.opq("eval")

    def b_getattr(self, args, kw, st):
        v, a = args[0], args[1]
        if isinstance(v, GV):
            return self.it.lift(v, st, lambda x, s: self.b_getattr([x] + list(args[1:]), {}, s))
        if isinstance(a, K):
            if len(args) > 2:
                h = self.b_hasattr([v, a], {}, st)
                if h.k == "F":
                    return args[2]
                if h.k != "T":
                    c = st.cell(v)
                    if isinstance(c, Obj) and a.v in c.attrs:
                        return self.it.merge(h, self.it.fill_undef(c.attrs[a.v], lambda: args[2]), args[2], _HS(st), _HS(st), st.heap)
                    return self.opq("getattr")
            return self.it.getattr(v, a.v, st)
        return self.opq("getattr")

    def b_delattr(self, args, kw, st):
        _unsup("delattr")

    def b_object(self, args, kw, st):
        return st.new(Obj(None, {}, "object"))

    def b_format(self, args, kw, st):
        return self.fmt(args[0], args[1].v if len(args) > 1 and isinstance(args[1], K) else "", st)

    def fmt(self, v, spec, st, conv=None):
        """formatted text of a value, when it does not depend on int/float representation"""
        if isinstance(v, K) and isinstance(v.v, str) and conv in (None, "s"):
            return K(format(v.v, spec))
        if isinstance(v, K) and conv in (None, "s", "r") and not spec:
            return K(repr(v.v) if conv == "r" or v.v is None else str(v.v))
        if isinstance(v, Cond) and v.k in "TF" and not spec:
            return K(str(v.k == "T"))
        if isinstance(v, Poly) and v.is_const() and (conv is None or conv == "r" and not spec):
            c = v.const()
            t = spec[-1:] if spec else ""
            try:
                if t in ("f", "e", "E", "F", "%"):
                    return K(format(float(c), spec))
                if t in ("d", "x", "b", "o") and c.denominator == 1:
                    return K(format(int(c), spec))
                if t in ("g", "G"):
                    return K(format(float(c), spec))
                if not t and c.denominator == 1 and (not spec or spec[-1] in "0123456789") and "." not in spec:
                    return K(format(int(c), spec))
                if spec:
                    return self.opq("format")
                if not t:
                    return K(str(float(c)))
            except ValueError:
                _raise("ValueError")
        holes = getattr(self.it, "holes", None)
        if holes is not None and isinstance(v, Poly) and conv is None:
            # text with a hole: which value stands there and in which format (interned by normal form)
            for i, (w, sp) in enumerate(holes):
                if sp == spec and alg.equal(w, v):
                    return K(f"\u27e6{i}\u27e7")
            holes.append((v, spec))
            return K(f"\u27e6{len(holes) - 1}\u27e7")
        return self.opq("format")

    # ------------------------------------------------- methods of containers
    def call_method(self, obj, name, args, kw, st):
        it = self.it
        if isinstance(obj, GV):
            return it.lift(obj, st, lambda o, s: it.call(it.getattr(o, name, s), args, kw, s))
        c = st.cell(obj)
        it.events.append(("meth", obj, name, tuple(args), dict(kw), it.fullpc(st), it.site()))
        if isinstance(obj, K) and isinstance(obj.v, str) and name in STR_METHODS:
            return self.str_method(obj.v, name, args, kw, st)
        if isinstance(obj, ReV):
            self._cur = st
            r = self.re_method(obj, name, args, kw)
            return r if r is not NotImplemented else self.opq(f".{name}()")
        if isinstance(c, Lst) and (name in LIST_METHODS or c.kind == "set"):
            r = self.list_method(obj, c, name, args, kw, st)
            if r is not NotImplemented:
                return r
        if isinstance(c, Dct):
            r = self.dict_method(obj, c, name, args, kw, st)
            if isinstance(c.tag, tuple) and c.tag[0] == "attrs" and name in ("update", "pop", "setdefault", "clear", "popitem"):
                if r is NotImplemented:
                    r = getattr(self, "m_" + name)(obj, args, kw, st)
                self.sync_attrs(obj, c.tag[1], st)
            if r is not NotImplemented:
                return r
        if isinstance(obj, Tup) and name in ("index", "count"):
            return self.find(list(obj.items), name, args, st)
        if isinstance(obj, Opq) and name in STR_METHODS and not kw:
            return self.strm(obj, name, args)
        m = getattr(self, "m_" + name, None)
        if m is None:
            if isinstance(c, (Arr, Fld)) and name in PURE_ARRAY_METHODS and hasattr(self, "n_" + name):
                return getattr(self, "n_" + name)([obj] + list(args), kw, st)
            if c is not None and not isinstance(c, Obj) and name not in PURE_ARRAY_METHODS:
                it.havoc_value(obj, st)      # an operation that is not modelled may have changed it
            if isinstance(obj, K) and obj.v is None:
                _raise("AttributeError")
            return self.opq(f".{name}()")
        return m(obj, args, kw, st)

    def sync_attrs(self, obj, base, st):
        """obj is base.__dict__ : what was written to it are attributes"""
        d = st.cell(obj)
        w = st.w(base)
        if d.open and d.tag == "havoc":
            for k in w.attrs:
                w.attrs[k] = self.opq(k)
            return
        w.attrs = {k.v: v for k, v in d.items.items() if isinstance(k, K)}

    def str_method(self, s, name, args, kw, st):
        if name == "join":
            return self.m_join(K(s), args, kw, st)
        if name == "format":
            return self.str_format(s, args, kw, st)
        xs = [self.pyval(a, st) for a in args]
        ks = {k: self.pyval(v, st) for k, v in kw.items()}
        if any(x is NOVAL for x in xs) or any(x is NOVAL for x in ks.values()):
            return self.opq(name)
        try:
            return self.absval(getattr(s, name)(*xs, **ks), st)
        except (ValueError, TypeError, IndexError) as e:
            _raise(type(e).__name__)

    def str_format(self, s, args, kw, st):
        import string
        out, auto = [], 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(s):
                out.append(lit)
                if field is None:
                    continue
                if field == "":
                    v, auto = args[auto], auto + 1
                elif field.isdigit():
                    v = args[int(field)]
                elif field in kw:
                    v = kw[field]
                else:
                    return self.opq("format")
                if spec and "{" in spec:
                    return self.opq("format")
                t = self.fmt(v, spec or "", st, conv)
                if not isinstance(t, K):
                    return t
                out.append(t.v)
        except (ValueError, IndexError):
            return self.opq("format")
        return K("".join(out))

    def find(self, vals, name, args, st):
        eqs = [self.eq(v, args[0], st) for v in vals]
        if not all(isinstance(e, Cond) for e in eqs):
            return self.opq(name)
        if name == "count":
            r = ZERO
            for e in eqs:
                r = r + alg.boolnum(e)
            return r
        if len(args) > 1:
            return self.opq(name)
        r, none = None, cand(*[cnot(e) for e in eqs])
        if none.k == "T":
            _raise("ValueError")
        if none.k != "F":
            f = st.fork()
            f.pc = cand(st.pc, none)
            self.it.raise_event("ValueError", f, self.it.fullpc(f))
        for i in range(len(eqs) - 1, -1, -1):
            if eqs[i].k == "F":
                continue
            r = const(i) if r is None or eqs[i].k == "T" else alg.gamma(eqs[i], const(i), r)
        return r

    def list_method(self, obj, c, name, args, kw, st):
        if c.kind == "set":
            return self.set_method(obj, c, name, args, kw, st)
        conc = c.concrete()
        if name in ("append", "extend", "insert", "copy", "clear", "sort"):
            if name == "extend" and isinstance(args[0], Ref) and args[0].id == obj.id:
                st.w(obj).ent = c.ent + c.ent
                return NONE
            return NotImplemented
        if name == "pop":
            i = (self.cidx(args[0]) if isinstance(args[0], Poly) else None) if args else -1
            if conc and i is not None:
                if not -len(c.ent) <= i < len(c.ent):
                    _raise("IndexError")
                return st.w(obj).ent.pop(i)[1]
            if i == -1 and c.ent and len(c.ent[-1]) == 2 and c.ent[-1][0].k == "T":
                return st.w(obj).ent.pop()[1]
            self.it.havoc_value(obj, st)
            return self.opq("pop")
        if name == "appendleft":
            st.w(obj).ent.insert(0, (TRUE, args[0]))
            return NONE
        if name == "popleft" and conc:
            if not c.ent:
                _raise("IndexError")
            return st.w(obj).ent.pop(0)[1]
        if name == "reverse" and all(len(e) == 2 for e in c.ent):
            st.w(obj).ent = c.ent[::-1]
            return NONE
        if name in ("index", "count") and conc:
            return self.find(c.values(), name, args, st)
        if name == "remove" and conc:
            eqs = [self.eq(v, args[0], st) for v in c.values()]
            for i, e in enumerate(eqs):
                if isinstance(e, Cond) and e.k == "T":
                    st.w(obj).ent.pop(i)
                    return NONE
                if not isinstance(e, Cond) or e.k != "F":
                    break
            else:
                _raise("ValueError")
        if name == "rotate" and conc and c.ent:
            k = self.cidx(args[0]) if args else 1
            if k is not None:
                k %= len(c.ent)
                st.w(obj).ent = c.ent[-k:] + c.ent[:-k] if k else list(c.ent)
                return NONE
        if name in ("index", "count"):
            return self.opq(name)
        self.it.havoc_value(obj, st)
        return self.opq(name) if name.startswith("pop") else NONE

    def certain_eq(self, a, b, st):
        e = self.eq(a, b, st)
        return isinstance(e, Cond) and (e.k == "T") or a is b

    def set_method(self, obj, c, name, args, kw, st):
        conc = c.concrete()
        if not conc and name != "copy":
            if name in ("add", "update", "discard", "remove", "pop", "clear"):
                self.it.havoc_value(obj, st)
                return NONE if name != "pop" else self.opq("pop")
            return self.opq(name)
        vals = c.values()

        def others():
            out = []
            for a in args:
                x = self.seglist(a, st)
                if x is None:
                    return None
                out.append(x)
            return out

        def has(xs, v):
            return any(self.certain_eq(x, v, st) for x in xs)
        if name == "add":
            if not has(vals, args[0]):
                st.w(obj).ent.append((TRUE, args[0]))
            return NONE
        if name in ("discard", "remove"):
            keep = [v for v in vals if not self.certain_eq(v, args[0], st)]
            if len(keep) == len(vals) and name == "remove":
                if self.it.truth(self.contains(obj, args[0], st), st).k == "F":
                    _raise("KeyError")
                self.it.havoc_value(obj, st)
                return NONE
            st.w(obj).ent = [(TRUE, v) for v in keep]
            return NONE
        if name == "clear":
            st.w(obj).ent = []
            return NONE
        if name == "copy":
            return st.new(c.copy())
        if name == "pop":
            self.it.havoc_value(obj, st)
            return self.opq("pop")
        o = others()
        if o is None:
            if name in ("update", "difference_update", "intersection_update"):
                self.it.havoc_value(obj, st)
                return NONE
            return self.opq(name)
        if name in ("union", "update", "__or__"):
            out = list(vals)
            for xs in o:
                for x in xs:
                    if not has(out, x):
                        out.append(x)
            if name == "update":
                st.w(obj).ent = [(TRUE, v) for v in out]
                return NONE
            return self.mklist(out, st, "set")
        if name in ("difference", "difference_update"):
            out = [v for v in vals if not any(has(xs, v) for xs in o)]
            if name == "difference_update":
                st.w(obj).ent = [(TRUE, v) for v in out]
                return NONE
            return self.mklist(out, st, "set")
        if name in ("intersection", "intersection_update"):
            out = [v for v in vals if all(has(xs, v) for xs in o)]
            if name == "intersection_update":
                st.w(obj).ent = [(TRUE, v) for v in out]
                return NONE
            return self.mklist(out, st, "set")
        if name == "symmetric_difference":
            return self.mklist([v for v in vals if not has(o[0], v)] + [v for v in o[0] if not has(vals, v)], st, "set")
        if name in ("issubset", "issuperset", "isdisjoint"):
            a, b = (vals, o[0]) if name != "issuperset" else (o[0], vals)
            cs = []
            for v in a:
                e = self.contains(Tup(b), v, st)
                cs.append(e if name != "isdisjoint" else cnot(e))
            return cand(*cs) if cs else TRUE
        return NotImplemented

    def dict_key(self, c, k, st):
        """('hit', value) | ('miss',) | None when it is not known"""
        try:
            if k in c.items:
                return ("hit", c.items[k])
        except TypeError:
            return None
        if c.open:
            return None
        if isinstance(k, (Opq, GV)):
            return None if c.items else ("miss",)
        for q in c.items:
            e = self.eq(k, q, st)
            if not isinstance(e, Cond) or e.k not in ("F",):
                if isinstance(e, Cond) and e.k == "T":
                    return ("hit", c.items[q])
                return None
        return ("miss",)

    def dict_method(self, obj, c, name, args, kw, st):
        it = self.it
        if name in ("pop", "setdefault", "get"):
            if isinstance(args[0], GV):
                return it.lift(args[0], st, lambda k, s: self.dict_method(obj, s.cell(obj), name, [k] + list(args[1:]), kw, s))
            r = self.dict_key(c, args[0], st)
            default = args[1] if len(args) > 1 else (NONE if name != "pop" else None)
            if r is None:
                if name == "get":
                    return self.opq("get")
                it.havoc_value(obj, st)
                return self.opq(name)
            if r[0] == "hit":
                v = r[1]
                if it.has_undef(v):
                    if name == "get" and default is not None:
                        return it.fill_undef(v, lambda: default) if isinstance(v, GV) else default
                    if name == "setdefault":
                        v = it.fill_undef(v, lambda: default)
                        st.w(obj).items[args[0]] = v
                        return v
                    it.havoc_value(obj, st)
                    return self.opq(name)
                if name == "pop":
                    w = st.w(obj)
                    for q in list(w.items):
                        if q == args[0] or self.certain_eq(q, args[0], st):
                            del w.items[q]
                return v
            if name == "get":
                return default
            if name == "setdefault":
                st.w(obj).items[args[0]] = default
                return default
            if default is None:
                _raise("KeyError")
            return default
        if name == "popitem":
            if not c.open and c.items and not any(it.has_undef(v) for v in c.items.values()):
                w = st.w(obj)
                k = list(w.items)[-1]
                return Tup([k, w.items.pop(k)])
            it.havoc_value(obj, st)
            return self.opq("popitem")
        if name == "update":
            w = st.w(obj)
            for a in args:
                d = st.cell(a)
                if isinstance(d, Dct):
                    w.items.update(d.items)
                    w.open = w.open or d.open
                    continue
                pairs = self.seglist(a, st)
                if pairs is None:
                    it.havoc_value(obj, st)
                    return NONE
                for p in pairs:
                    kv = it.unpack(p, 2, st)
                    w.items[kv[0]] = kv[1]
            for k, v in kw.items():
                if k == "**":
                    it.havoc_value(obj, st)
                    return NONE
                w.items[K(k)] = v
            return NONE
        if name in ("items", "keys", "values") and not c.open and any(it.has_undef(v) for v in c.items.values()):
            out = []
            for k, v in c.items.items():
                g = self.defined(v)
                while isinstance(v, GV) and it.has_undef(v):
                    v = v.a if not it.has_undef(v.a) else v.b if isinstance(v.a, Undef) else v
                    if isinstance(v, GV) and it.has_undef(v):
                        return NotImplemented
                out.append(("one", g, {"items": Tup([k, v]), "keys": k, "values": v}[name]))
            return IterV(out)
        if name in ("most_common", "elements", "total", "move_to_end", "subtract"):
            if name == "move_to_end" and not c.open and args[0] in c.items:
                w = st.w(obj)
                w.items[args[0]] = w.items.pop(args[0])
                return NONE
            if name == "most_common" and not c.open:
                ks, vs = list(c.items), list(c.items.values())
                o = self.sort_vals(list(range(len(ks))), vs, st, True)
                if o is not None:
                    n = self.cidx(args[0]) if args else None
                    return self.mklist([Tup([ks[i], vs[i]]) for i in o][:n], st)
            it.havoc_value(obj, st)
            return self.opq(name)
        return NotImplemented

    def delitem(self, base, ix, st):
        it = self.it
        if isinstance(base, GV):
            it.lift(base, st, lambda b, s: (self.delitem(b, ix, s), NONE)[1])
            return
        c = st.cell(base)
        if isinstance(c, Dct):
            r = self.dict_key(c, ix, st)
            if r is not None and r[0] == "hit" and not it.has_undef(r[1]):
                w = st.w(base)
                for q in list(w.items):
                    if q == ix or self.certain_eq(q, ix, st):
                        del w.items[q]
                return
            if r is not None and r[0] == "miss":
                _raise("KeyError")
            it.havoc_value(base, st)
            return
        if isinstance(c, Lst) and c.concrete():
            if isinstance(ix, SliceV):
                drop = set(self.slice_range(ix, len(c.ent)))
                st.w(base).ent = [e for i, e in enumerate(c.ent) if i not in drop]
                return
            i = self.cidx(ix) if isinstance(ix, Poly) else None
            if i is not None:
                if not -len(c.ent) <= i < len(c.ent):
                    _raise("IndexError")
                st.w(base).ent.pop(i)
                return
        if isinstance(c, Obj) and c.cls is not None:
            m = it.prog.find_method(c.cls, "__delitem__", "method")
            if m is not None:
                it.call_info(m, st, [ix], {}, selfv=base)
                return
        if c is None:
            return
        it.havoc_value(base, st)

    # --------------------------------------------------------- standard library
    def std(self, name, args, kw, st):
        """functions of the standard library; NotImplemented when not modelled"""
        root, short = name.split(".")[0], name.split(".")[-1]
        m = getattr(self, "l_" + name.replace(".", "_"), None)
        if m is not None:
            return m(args, kw, st)
        if root == "operator":
            if short in OPS and len(args) == 2:
                return self.binop(OPS[short](), args[0], args[1], st)
            if short in CMPS and len(args) == 2:
                return self.compare(CMPS[short](), args[0], args[1], st)
        if root == "re" and args:
            self._cur = st
            return self.re_call(short, args, kw)
        if root == "math":
            xs = [self.pyval(a, st) for a in args]
            f = getattr(math, short, None)
            if f is not None and all(isinstance(x, int) for x in xs) and short in ("gcd", "lcm", "comb", "perm", "factorial", "isqrt"):
                try:
                    return const(f(*xs))
                except ValueError:
                    _raise("ValueError")
        return NotImplemented

    RE_FUNCS = {"findall", "finditer", "match", "fullmatch", "search", "split", "sub", "compile", "escape"}

    def re_call(self, short, args, kw):
        """regular expressions over constant text are folded"""
        xs = []
        for a in list(args) + list(kw.values()):
            if isinstance(a, K) and isinstance(a.v, str):
                xs.append(a.v)
            elif isinstance(a, ReV):
                xs.append(a.obj)
            elif isinstance(a, Ext) and a.name.startswith("re.") and isinstance(getattr(re, a.name[3:], None), int):
                xs.append(getattr(re, a.name[3:]))
            elif isinstance(a, Poly) and a.is_const() and a.const().denominator == 1:
                xs.append(int(a.const()))
            else:
                return NotImplemented
        if short not in self.RE_FUNCS:
            return NotImplemented
        try:
            r = getattr(re, short)(*xs[:len(args)], **dict(zip(kw, xs[len(args):])))
        except (re.error, TypeError, ValueError, AttributeError):
            return NotImplemented
        return self.re_value(r)

    def re_value(self, r):
        if r is None or isinstance(r, str):
            return NONE if r is None else K(r)
        if isinstance(r, int):
            return const(r)
        if isinstance(r, tuple):
            return Tup([self.re_value(x) for x in r])
        if isinstance(r, dict):
            return self._cur.new(Dct({K(k): self.re_value(v) for k, v in r.items()}))
        if isinstance(r, list):
            return self._cur.new(Lst([(TRUE, self.re_value(x)) for x in r]))
        if isinstance(r, (re.Pattern, re.Match)):
            return ReV(r)
        return IterV([("one", TRUE, self.re_value(x)) for x in r])

    def re_method(self, obj, name, args, kw):
        o = obj.obj
        if isinstance(o, re.Pattern):
            return self.re_call(name, [obj] + list(args), kw)
        if name in ("start", "end", "span", "group", "groups", "groupdict", "__getitem__"):
            xs = []
            for a in args:
                if isinstance(a, K) and isinstance(a.v, str):
                    xs.append(a.v)
                elif isinstance(a, Poly) and a.is_const() and a.const().denominator == 1:
                    xs.append(int(a.const()))
                else:
                    return NotImplemented
            try:
                return self.re_value(getattr(o, name)(*xs))
            except IndexError:
                _raise("IndexError")
        return NotImplemented

    def l_math_prod(self, args, kw, st):
        xs = self.seglist(args[0], st)
        if xs is None:
            return self.opq("prod")
        r = kw.get("start", ONE)
        for x in xs:
            r = self.binop(ast.Mult(), r, x, st)
        return r

    def l_math_fsum(self, args, kw, st):
        return self.b_sum(args, kw, st)

    def l_math_hypot(self, args, kw, st):
        s = ZERO
        for a in args:
            x = self.it.num(a, st)
            s = s + x * x
        return alg.mkfn("sqrt", s)

    def l_math_pow(self, args, kw, st):
        return self.binop(ast.Pow(), args[0], args[1], st)

    def l_math_fabs(self, args, kw, st):
        return self.b_abs(args, kw, st)

    def l_math_floor(self, args, kw, st):
        return self.n_floor(args, kw, st)

    def l_math_ceil(self, args, kw, st):
        return self.n_ceil(args, kw, st)

    def l_math_trunc(self, args, kw, st):
        return self.b_int(args, kw, st)

    def l_math_copysign(self, args, kw, st):
        a, b = self.it.num(args[0], st), self.it.num(args[1], st)
        m = alg.mkfn("abs", a)
        return alg.gamma(cge(b), m, -m)

    def l_operator_itemgetter(self, args, kw, st):
        ks = list(args)
        if len(ks) == 1:
            return PrimV("itemgetter", lambda a, k, s: self.getitem(a[0], ks[0], s))
        return PrimV("itemgetter", lambda a, k, s: Tup([self.getitem(a[0], q, s) for q in ks]))

    def l_operator_attrgetter(self, args, kw, st):
        def get(v, path, s):
            for p in path.split("."):
                v = self.it.getattr(v, p, s)
            return v
        ks = [a.v for a in args]
        if len(ks) == 1:
            return PrimV("attrgetter", lambda a, k, s: get(a[0], ks[0], s))
        return PrimV("attrgetter", lambda a, k, s: Tup([get(a[0], q, s) for q in ks]))

    def l_operator_methodcaller(self, args, kw, st):
        nm, rest = args[0].v, list(args[1:])
        return PrimV("methodcaller", lambda a, k, s: self.it.call(self.it.getattr(a[0], nm, s), rest, kw, s))

    def l_operator_neg(self, args, kw, st):
        return self.map1(args[0], lambda p: -p, st)

    def l_operator_not_(self, args, kw, st):
        return cnot(self.it.truth(args[0], st))

    def l_operator_truth(self, args, kw, st):
        return self.it.truth(args[0], st)

    def l_operator_getitem(self, args, kw, st):
        return self.getitem(args[0], args[1], st)

    def l_operator_setitem(self, args, kw, st):
        self.setitem(args[0], args[1], args[2], st)
        return NONE

    def l_operator_contains(self, args, kw, st):
        return self.contains(args[0], args[1], st)

    def l_operator_abs(self, args, kw, st):
        return self.b_abs(args, kw, st)

    def l_functools_partial(self, args, kw, st):
        return PartV(args[0], args[1:], kw)

    def l_functools_partialmethod(self, args, kw, st):
        _unsup("partialmethod")

    def l_functools_reduce(self, args, kw, st):
        xs = self.seglist(args[1], st)
        if xs is None:
            return self.opq("reduce")
        if len(args) > 2:
            xs = [args[2]] + xs
        if not xs:
            _raise("TypeError")
        r = xs[0]
        for x in xs[1:]:
            r = self.it.call(args[0], [r, x], {}, st)
        return r

    def l_functools_wraps(self, args, kw, st):
        return PrimV("wraps", lambda a, k, s: a[0])

    def l_functools_lru_cache(self, args, kw, st):
        if len(args) == 1 and isinstance(args[0], (FnV, BM, PartV)):
            return MemoV(args[0], st.new(Dct()))
        return PrimV("lru_cache", lambda a, k, s: MemoV(a[0], s.new(Dct())))

    l_functools_cache = l_functools_lru_cache

    def l_functools_cmp_to_key(self, args, kw, st):
        _unsup("cmp_to_key")

    def l_copy_replace(self, args, kw, st):
        return self.l_dataclasses_replace(args, kw, st)

    def l_dataclasses_replace(self, args, kw, st):
        c = st.cell(args[0])
        if isinstance(c, Obj) and c.cls is not None:
            if self.it.prog.find_method(c.cls, "__post_init__"):
                return self.it.instantiate(c.cls, st, [], {**{f: c.attrs[f] for f, _ in self.it.fields_of(c.cls) if f in c.attrs}, **kw})
            return st.new(Obj(c.cls, {**c.attrs, **kw}, c.tag))
        return self.opq("replace")

    def l_dataclasses_astuple(self, args, kw, st):
        c = st.cell(args[0])
        if isinstance(c, Obj) and c.cls is not None:
            return Tup([c.attrs[f] for f, _ in self.it.fields_of(c.cls)])
        return self.opq("astuple")

    def l_dataclasses_asdict(self, args, kw, st):
        c = st.cell(args[0])
        if isinstance(c, Obj) and c.cls is not None:
            return st.new(Dct({K(f): c.attrs[f] for f, _ in self.it.fields_of(c.cls)}))
        return self.opq("asdict")

    def l_collections_OrderedDict(self, args, kw, st):
        return self.b_dict(args, kw, st)

    def l_collections_deque(self, args, kw, st):
        if len(args) > 1 or "maxlen" in kw:
            return self.opq("deque")
        return self.b_list(args, kw, st)

    def l_collections_defaultdict(self, args, kw, st):
        r = self.b_dict(args[1:], kw, st)
        st.w(r).tag = ("default", args[0] if args else NONE)
        return r

    def l_collections_Counter(self, args, kw, st):
        r = st.new(Dct({}, tag=("default", PrimV("zero", lambda a, k, s: ZERO))))
        xs = self.seglist(args[0], st) if args else []
        if xs is None:
            st.w(r).open = True
            return r
        for x in xs:
            w = st.w(r)
            w.items[x] = self.it.num(w.items.get(x, ZERO), st) + ONE
        return r

    def l_collections_namedtuple(self, args, kw, st):
        src_fields = self.pyval(args[1], st)
        if src_fields is NOVAL:
            return self.opq("namedtuple")
        names = src_fields.replace(",", " ").split() if isinstance(src_fields, str) else list(src_fields)
        nm = args[0].v if isinstance(args[0], K) else "T"
        node = ast.parse(f"class {nm}(NamedTuple):\n" + "".join(f"    {n}: object\n" for n in names) or "    pass").body[0]
        from .prog import ClassInfo
        return ClsV(ClassInfo(node, self.it.stack[-1].mod))

    def l_bisect_bisect_left(self, args, kw, st, right=False):
        xs = self.seglist(args[0], st)
        if xs is None or len(args) > 2 or kw:
            return self.opq("bisect")
        r = ZERO
        for x in xs:
            d = self.it.num(args[1], st) - self.it.num(x, st)
            r = r + alg.boolnum(cge(d) if right else cgt(d))
        return r

    def l_bisect_bisect_right(self, args, kw, st):
        return self.l_bisect_bisect_left(args, kw, st, True)

    l_bisect_bisect = l_bisect_bisect_right

    def l_bisect_insort(self, args, kw, st):
        i = self.l_bisect_bisect_right(args, kw, st)
        if isinstance(i, Poly) and i.is_const():
            st.w(args[0]).ent.insert(int(i.const()), (TRUE, args[1]))
            return NONE
        self.it.havoc_value(args[0], st)
        return NONE

    l_bisect_insort_right = l_bisect_insort

    # itertools
    def l_itertools_chain(self, args, kw, st):
        out = []
        for a in args:
            out += self._segs(a, st)
        r = IterV(out)
        r.stateful = True
        return r

    def l_itertools_chain_from_iterable(self, args, kw, st):
        xs = self.seglist(args[0], st)
        return self.opq("chain") if xs is None else self.l_itertools_chain(xs, {}, st)

    def _lists(self, args, st):
        out = []
        for a in args:
            x = self.seglist(a, st)
            if x is None:
                return None
            out.append(x)
        return out

    def l_itertools_product(self, args, kw, st):
        ls = self._lists(args, st)
        rep = self.cidx(kw["repeat"]) if "repeat" in kw else 1
        if ls is None or rep is None:
            return self.opq("product")
        import itertools
        return self.iterv([Tup(t) for t in itertools.product(*ls, repeat=rep)])

    def _comb(self, name, args, st):
        import itertools
        ls = self._lists(args[:1], st)
        k = self.cidx(args[1]) if len(args) > 1 else None
        if ls is None or (len(args) > 1 and k is None):
            return self.opq(name)
        f = getattr(itertools, name)
        return self.iterv([Tup(t) for t in (f(ls[0], k) if len(args) > 1 else f(ls[0]))])

    def l_itertools_combinations(self, args, kw, st):
        return self._comb("combinations", args, st)

    def l_itertools_permutations(self, args, kw, st):
        return self._comb("permutations", args, st)

    def l_itertools_pairwise(self, args, kw, st):
        return self._comb("pairwise", args, st)

    def l_itertools_accumulate(self, args, kw, st):
        xs = self.seglist(args[0], st)
        if xs is None:
            return self.opq("accumulate")
        f = args[1] if len(args) > 1 else kw.get("func", NONE)
        out = []
        if kw.get("initial", NONE) != NONE:
            xs = [kw["initial"]] + xs
        for x in xs:
            if not out:
                out.append(x)
            elif f == NONE:
                out.append(self.binop(ast.Add(), out[-1], x, st))
            else:
                out.append(self.it.call(f, [out[-1], x], {}, st))
        return self.iterv(out)

    def l_itertools_islice(self, args, kw, st):
        c = st.cell(args[0])
        live = isinstance(c, Lst) and c.kind == "iter"
        b = [None if a == NONE else self.cidx(a) if isinstance(a, Poly) else NOVAL for a in args[1:]]
        xs = self.seglist(args[0], st)
        if xs is None or NOVAL in b:
            return self.opq("islice")
        sl = slice(*b)
        if live:
            stop = sl.stop if sl.stop is not None else len(xs)
            st.w(args[0]).ent = [(TRUE, x) for x in xs[max(stop, 0):]]
        return self.iterv(xs[sl])

    def l_itertools_repeat(self, args, kw, st):
        n = self.cidx(args[1]) if len(args) > 1 and isinstance(args[1], Poly) else None
        if n is None:
            if len(args) == 1:
                r = IterV([("many", ("repeat", next(_vid)), args[0])])
                r.stateful = True
                return r
            return self.opq("repeat")
        return self.iterv([args[0]] * n)

    def l_itertools_zip_longest(self, args, kw, st):
        import itertools
        ls = self._lists(args, st)
        if ls is None:
            return self.opq("zip_longest")
        return self.iterv([Tup(t) for t in itertools.zip_longest(*ls, fillvalue=kw.get("fillvalue", NONE))])

    def l_itertools_starmap(self, args, kw, st):
        xs = self.seglist(args[1], st)
        if xs is None:
            return self.opq("starmap")
        return self.iterv([self.it.call(args[0], self.seglist(x, st) or [], {}, st) for x in xs])

    def l_itertools_compress(self, args, kw, st):
        ls = self._lists(args, st)
        if ls is None:
            return self.opq("compress")
        r = IterV([s for s in (("one", self.it.truth(g, st), x) for x, g in zip(*ls)) if s[1].k != "F"])
        r.stateful = True
        return r

    def _while(self, args, st, drop):
        segs = self._segs(args[1], st)
        if not all(s[0] == "one" for s in segs):
            return self.opq("takewhile")
        alive, out = TRUE, []
        for s in segs:
            g = self.it.truth(self.it.call(args[0], [s[2]], {}, st), st)
            alive = cand(alive, cor(cnot(s[1]), g))
            out.append(("one", cand(s[1], cnot(alive) if drop else alive), s[2]))
        r = IterV([s for s in out if s[1].k != "F"])
        r.stateful = True
        return r

    def l_itertools_takewhile(self, args, kw, st):
        return self._while(args, st, False)

    def l_itertools_dropwhile(self, args, kw, st):
        return self._while(args, st, True)

    def l_itertools_filterfalse(self, args, kw, st):
        src = self._segs(args[1], st)
        if not all(o[0] == "one" for o in src):
            return self.opq("filterfalse")
        r = IterV([])
        r.stateful = True
        r.segs = [("one", cand(o[1], cnot(self.it.truth(o[2] if args[0] == NONE else self.it.call(args[0], [o[2]], {}, st), st))), o[2]) for o in src if o[0] == "one"]
        return r

    def l_itertools_groupby(self, args, kw, st):
        xs = self.seglist(args[0], st)
        key = args[1] if len(args) > 1 else kw.get("key", NONE)
        if xs is None:
            return self.opq("groupby")
        groups = []
        for x in xs:
            k = x if key == NONE else self.it.call(key, [x], {}, st)
            if groups:
                e = self.eq(groups[-1][0], k, st)
                if not isinstance(e, Cond) or e.k not in "TF":
                    return self.opq("groupby")
                if e.k == "T":
                    groups[-1][1].append(x)
                    continue
            groups.append((k, [x]))
        return self.iterv([Tup([k, self.mklist(g, st, "iter")]) for k, g in groups])

    def l_itertools_count(self, args, kw, st):
        n = args[0] if args else ZERO
        step = args[1] if len(args) > 1 else kw.get("step", ONE)
        r = IterV([("one", TRUE, n + step * const(i)) for i in range(64)] + [("many", ("count", next(_vid)), self.opq("count"))])
        r.stateful = True
        return r

    def l_itertools_cycle(self, args, kw, st):
        return self.opq("cycle")

    def l_itertools_tee(self, args, kw, st):
        xs = self.seglist(args[0], st)
        n = self.cidx(args[1]) if len(args) > 1 else 2
        if xs is None or n is None:
            return self.opq("tee")
        return Tup([self.mklist(xs, st, "iter") for _ in range(n)])
