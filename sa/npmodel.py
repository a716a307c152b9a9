"""Model of the Python builtins and of the numpy/scipy calls the package uses,
over abstract values.  Anything not listed returns an opaque value."""
from __future__ import annotations
import ast
import math
from fractions import Fraction

from .vals import *  # noqa
from .vals import _vid
from . import alg
from .pylib import PyLib, NOVAL
from .nplib import NpLib




def as_const(v):
    return v.const() if isinstance(v, Poly) and v.is_const() else None


class NpBase:
    def __init__(self, it):
        self.it = it

    # ------------------------------------------------------------ helpers
    def opq(self, tag):
        return self.it.opq(tag)

    def arr(self, v, st):
        """view v as Arr/Fld/Sym cell or None."""
        c = st.cell(v)
        if isinstance(c, (Arr, Fld, Sym)):
            return c
        return None

    def to_arr(self, v, st):
        """np.array(v): explicit Arr when shapes are known."""
        c = st.cell(v)
        if isinstance(c, (Arr, Fld, Sym)):
            return c.copy()
        if isinstance(v, (Poly, Cond)):
            return Arr((), [v])
        if isinstance(v, Opq):
            return None
        items = None
        if isinstance(v, Tup):
            items = list(v.items)
        elif isinstance(c, Lst):
            if not c.concrete():
                return None
            items = c.values()
        elif c is not None and getattr(c, "cls", None) is not None and c.cls.is_namedtuple:
            items = [c.attrs[f] for f, _ in c.cls.fields]
        elif isinstance(v, Rng) and v.lo.is_const() and v.hi.is_const():
            items = [const(i) for i in range(int(v.lo.const()), int(v.hi.const()), int(v.st.const()))]
        if items is None:
            return None
        if not items:
            return Arr((0,), [])
        subs = []
        for x in items:
            if isinstance(x, (Opq, GV)):
                try:
                    x = self.it.num(x, st)
                except Exception:
                    return None
            a = self.to_arr(x, st)
            if a is None or not isinstance(a, Arr):
                return None
            subs.append(a)
        if any(a.shape != subs[0].shape for a in subs):
            return None
        return Arr((len(subs),) + subs[0].shape, [d for a in subs for d in a.data])

    def mk(self, cell, st):
        if isinstance(cell, Arr) and cell.shape == ():
            return cell.data[0]
        return st.new(cell)

    # -------------------------------------------------------- elementwise
    def map1(self, v, f, st):
        if isinstance(v, Poly):
            return f(v)
        if isinstance(v, Cond):
            return f(alg.boolnum(v))
        if isinstance(v, GV):
            return self.it.lift(v, st, lambda x, s: self.map1(x, f, s))
        if isinstance(v, Opq):
            return f(v.as_num())
        c = st.cell(v)
        if isinstance(c, Arr):
            return st.new(Arr(c.shape, [f(self.P(x)) for x in c.data]))
        if isinstance(c, Fld):
            return st.new(Fld(f(self.P(c.elem)), c.st, {k: f(self.P(p)) for k, p in c.patch.items()}, c.n))
        if isinstance(c, Cat):
            return st.new(Cat([Fld(f(self.P(q.elem)), q.st, {}, q.n) for q in c.parts]))
        if isinstance(c, Sym):
            fun = self.symfun(c)
            return st.new(Sym(c.shape, "expr", None, (), fun=lambda *ix: f(fun(*ix))))
        a = self.to_arr(v, st)
        if isinstance(a, Arr) and not isinstance(c, Obj):
            return st.new(Arr(a.shape, [f(self.P(x)) for x in a.data]))
        raise_unsup("map1 of %r" % (v,))

    def map1c(self, v, f, st):
        if isinstance(v, Cond):
            return f(v)
        c = st.cell(v)
        if isinstance(c, Arr):
            return st.new(Arr(c.shape, [f(self.C(x)) for x in c.data]))
        if isinstance(c, Fld):
            return st.new(Fld(f(self.C(c.elem)), c.st, {k: f(self.C(p)) for k, p in c.patch.items()}, c.n))
        if isinstance(v, GV):
            return self.it.lift(v, st, lambda x, s: self.map1c(x, f, s))
        if isinstance(v, Opq):
            return f(ckey("truth", v.tag, v.id))
        if isinstance(v, Poly):
            return f(cnot(ceq(v)))
        raise_unsup("map1c")

    def P(self, x):
        if isinstance(x, Poly):
            return x
        if isinstance(x, Cond):
            return alg.boolnum(x)
        if isinstance(x, Opq):
            return x.as_num()
        if isinstance(x, GV):
            return alg.gamma(x.c, self.P(x.a), self.P(x.b))
        raise_unsup("P %r" % (x,))

    def C(self, x):
        if isinstance(x, Cond):
            return x
        if isinstance(x, Poly):
            return cnot(ceq(x))
        return copaque("c")

    def symfun(self, c):
        """element function of a Sym array (idx polys -> Poly)."""
        if c.fun is not None:
            return c.fun
        if c.log:
            lg = list(c.log)

            def f(*ix):
                r = c.init if isinstance(c.init, Poly) else self.symatom(c.name, ix)
                # unresolved writes => opaque unless exact same index writes
                for w in lg:
                    if w.op == "=" and w.ix == "all" and isinstance(w.val, Poly) and not w.loops:
                        r = alg.gamma(w.g, w.val, r)
                        continue
                    return opaque(f"{c.name}[{','.join(map(str, ix))}]")
                return r

            return f
        if c.init is not None and isinstance(c.init, Poly):
            return lambda *ix: c.init
        return lambda *ix: self.symatom(c.name, ix)

    def symatom(self, name, ix):
        return fn("elem", K(name), *ix, dim=self.it.__dict__.get("symdims", {}).get(name))

    def bin2(self, a, b, f, st):
        """broadcast binary op f on Poly pairs."""
        if isinstance(a, GV):
            return self.it.lift(a, st, lambda x, s: self.bin2(x, b, f, s))
        if isinstance(b, GV):
            return self.it.lift(b, st, lambda x, s: self.bin2(a, x, f, s))
        if isinstance(a, Opq):
            a = a.as_num()
        if isinstance(b, Opq):
            b = b.as_num()
        if isinstance(a, (Poly, Cond)) and isinstance(b, (Poly, Cond)):
            return f(a, b)
        ca = self.cell_of(a, st)
        cb = self.cell_of(b, st)
        if ca is None or cb is None:
            raise_unsup(f"binop {a!r} {b!r}")
        if isinstance(ca, Arr) and isinstance(cb, Arr):
            return self.mk(self.bcast(ca, cb, f), st)
        if isinstance(ca, Fld) or isinstance(cb, Fld):
            if not isinstance(ca, Cat) and not isinstance(cb, Cat):
                return st.new(self.fld2(ca, cb, f))
        if isinstance(ca, Cat) or isinstance(cb, Cat):
            n = len(ca.parts) if isinstance(ca, Cat) else len(cb.parts)
            pa = ca.parts if isinstance(ca, Cat) else [ca] * n
            pb = cb.parts if isinstance(cb, Cat) else [cb] * n
            if len(pa) != len(pb):
                raise_unsup("piece counts")
            return st.new(Cat([self.fld2(x, y, f) for x, y in zip(pa, pb)]))
        if isinstance(ca, Sym) or isinstance(cb, Sym):
            return st.new(self.sym2(ca, cb, f))
        raise_unsup("bin2")

    def cell_of(self, v, st):
        if isinstance(v, (Poly, Cond)):
            return Arr((), [v])
        c = st.cell(v)
        if isinstance(c, (Arr, Fld, Sym, Cat)):
            return c
        return self.to_arr(v, st)

    def sym2(self, ca, cb, f):
        def fun_of(c):
            if isinstance(c, Sym):
                return self.symfun(c), len(c.shape)
            if isinstance(c, Arr) and c.shape == ():
                return (lambda *ix: c.data[0]), 0
            raise_unsup("sym2")

        fa, na = fun_of(ca)
        fb, nb = fun_of(cb)
        n = max(na, nb)
        shape = ca.shape if na >= nb else cb.shape
        return Sym(shape, "expr", None, (), fun=lambda *ix: f(fa(*ix[n - na:]), fb(*ix[n - nb:])))

    def fld2(self, ca, cb, f):
        def norm(c):
            if isinstance(c, Fld):
                return c
            if isinstance(c, Arr) and c.shape in ((), (1,)):
                return Fld(c.data[0])
            raise_unsup("fld2")

        x, y = norm(ca), norm(cb)
        st = x.st or y.st
        if x.st is not None and y.st is not None and x.st is not y.st:
            raise_unsup("different stations")
        patch = {}
        for k in set(x.patch) | set(y.patch):
            patch[k] = f(self.it.fld_at(x, k), self.it.fld_at(y, k))
        return Fld(f(x.elem, y.elem), st, patch, x.n if x.n is not None else y.n)

    def bcast(self, a, b, f):
        n = max(len(a.shape), len(b.shape))
        sa = (1,) * (n - len(a.shape)) + a.shape
        sb = (1,) * (n - len(b.shape)) + b.shape
        out = []
        for p, q in zip(sa, sb):
            if p != q and 1 not in (p, q):
                raise_unsup("broadcast")
            out.append(q if p == 1 else p)

        def idx(shape, ix):
            o = 0
            for n, i in zip(shape, ix):
                o = o * n + (0 if n == 1 else i)
            return o

        data = []
        for ix in _indices(out):
            data.append(f(a.data[idx(sa, ix)], b.data[idx(sb, ix)]))
        return Arr(out, data)

    def binop(self, op, a, b, st):
        it = self.it
        if isinstance(a, GV):
            return it.lift(a, st, lambda x, s: self.binop(op, x, b, s))
        if isinstance(b, GV):
            return it.lift(b, st, lambda x, s: self.binop(op, a, x, s))
        ca, cb = st.cell(a), st.cell(b)
        dn = DUNDER.get(type(op))
        if isinstance(ca, Obj) and ca.cls is not None and dn and not (ca.cls.is_namedtuple and not it.prog.find_method(ca.cls, f"__{dn}__")):
            m = it.prog.find_method(ca.cls, f"__{dn}__")
            if m:
                r = it.call_info(m, st, [b], {}, selfv=a)
                if not isinstance(r, K) or r.v is not NotImplemented:
                    return r
            elif not (isinstance(cb, Obj) and cb.cls is not None):
                return self.no_operator(ca.cls, f"__{dn}__", b)
        if isinstance(cb, Obj) and cb.cls is not None and not cb.cls.is_namedtuple:
            m = it.prog.find_method(cb.cls, f"__r{dn}__") if dn else None
            if m:
                return it.call_info(m, st, [a], {}, selfv=b)
            return self.no_operator(cb.cls, f"__r{dn}__", a)
        if isinstance(ca, Obj) and ca.cls is not None and not ca.cls.is_namedtuple:
            return self.opq("obj op")
        if isinstance(ca, Lst) and ca.kind == "set":
            nm = {ast.BitOr: "union", ast.BitAnd: "intersection", ast.Sub: "difference", ast.BitXor: "symmetric_difference"}.get(type(op))
            if nm:
                if isinstance(cb, Lst) and cb.kind == "set" or nm == "union":
                    return self.set_method(a, ca, nm, [b], {}, st)
            return self.opq("set op")
        if isinstance(ca, Dct) and isinstance(cb, Dct) and isinstance(op, ast.BitOr):
            return st.new(Dct({**ca.items, **cb.items}, ca.open or cb.open))
        for p, q, cq in ((a, b, cb), (b, a, ca)):
            if isinstance(p, K) and p.v is None and (isinstance(q, Poly) and not q.opaque() or isinstance(cq, (Arr, Fld)) or isinstance(q, K) and q.v is None):
                raise_raised("TypeError")
        sc = self.seqconst(a, b, op)
        if sc is not None:
            return sc
        if isinstance(a, Tup) or isinstance(b, Tup):
            # a tuple next to an array is read as an array
            other = cb if isinstance(a, Tup) else ca
            if isinstance(op, ast.Mult):
                t, k = (a, b) if isinstance(a, Tup) else (b, a)
                n = self.cidx(k) if isinstance(k, Poly) else None
                if n is not None:
                    return Tup(list(t.items) * n)
        if isinstance(op, ast.Add):
            if isinstance(ca, Lst) and isinstance(cb, Lst):
                return st.new(Lst(ca.ent + cb.ent))
            if isinstance(a, K) and isinstance(b, K) and isinstance(a.v, str):
                return K(a.v + b.v)
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
            if isinstance(a, K) or isinstance(b, K):
                return self.opq("strcat")
            if isinstance(ca, Lst) and isinstance(b, Tup) or isinstance(a, Tup) and isinstance(cb, Lst):
                raise_raised("TypeError")
            if isinstance(ca, Lst) and isinstance(b, Opq) or isinstance(cb, Lst) and isinstance(a, Opq):
                return self.opq("listcat")
            return self.bin2(a, b, lambda p, q: self.P(p) + self.P(q), st)
        if isinstance(op, ast.Sub):
            return self.bin2(a, b, lambda p, q: self.P(p) - self.P(q), st)
        if isinstance(op, ast.Mult):
            if isinstance(ca, Lst) and isinstance(b, Poly):
                if b.is_const() and ca.concrete():
                    return st.new(Lst(ca.ent * int(b.const())))
                if not ca.ent:
                    return st.new(Lst())
                if ca.concrete() and len(ca.ent) == 1:
                    return st.new(Lst([(("rep", b), TRUE, ca.ent[0][1])]))
                return self.opq("listmul")
            if isinstance(cb, Lst) and isinstance(a, Poly):
                return self.binop(op, b, a, st)
            if isinstance(a, K) or isinstance(b, K):
                return self.opq("strmul")
            return self.bin2(a, b, lambda p, q: self.P(p) * self.P(q), st)
        if isinstance(op, ast.Div):
            return self.bin2(a, b, lambda p, q: self.P(p) / self.P(q), st)
        if isinstance(op, ast.Pow):
            return self.bin2(a, b, lambda p, q: self.pow(self.P(p), self.P(q)), st)
        if isinstance(op, ast.MatMult):
            return self.matmul(a, b, st)
        if isinstance(op, ast.Mod):
            if isinstance(a, K):
                return self.percent(a, b, st)
            return self.bin2(a, b, lambda p, q: self.mod(self.P(p), self.P(q)), st)
        if isinstance(op, ast.FloorDiv):
            return self.bin2(a, b, lambda p, q: alg.mkfn("floor", self.P(p) / self.P(q)), st)
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor, ast.LShift, ast.RShift)) and isinstance(a, Poly) and isinstance(b, Poly) \
                and a.is_const() and b.is_const() and a.const().denominator == 1 == b.const().denominator:
            x, y = int(a.const()), int(b.const())
            f = {ast.BitAnd: lambda: x & y, ast.BitOr: lambda: x | y, ast.BitXor: lambda: x ^ y,
                 ast.LShift: lambda: x << y, ast.RShift: lambda: x >> y}[type(op)]
            return const(f())
        if isinstance(op, ast.BitAnd):
            return self.land(a, b, st)
        if isinstance(op, ast.BitOr):
            if isinstance(ca, (Arr, Fld)) or isinstance(a, Cond):
                return self.lor(a, b, st)
            return self.opq("bitor")
        if isinstance(op, ast.BitXor) and (isinstance(a, Cond) or isinstance(ca, (Arr, Fld))):
            return self.n_logical_xor([a, b], {}, st)
        return self.opq(f"op {type(op).__name__}")

    def no_operator(self, ci, name, other):
        """an object of a class without the operator next to a number: a TypeError when nothing
        else could provide it"""
        if isinstance(other, Poly) and not other.opaque() and self.plain_class(ci):
            if not any(name in k.consts for k in self.it.prog.mro(ci)):
                raise_raised("TypeError")
        return self.opq("obj op")

    def plain_class(self, ci):
        """nothing numpy or a foreign base class could compute with"""
        it = self.it
        for k in it.prog.mro(ci):
            if k.is_enum or k.is_namedtuple or any(kw.arg == "metaclass" for kw in k.node.keywords):
                return False
            for b in k.bases:
                bn = b.split("[")[0].split(".")[-1]
                r = it.prog.lookup_global(k.module, bn)
                if not (r and r[0] == "class") and bn not in ("object", "ABC", "Generic", "Protocol"):
                    return False
            if any(d.split("(")[0].split(".")[-1] not in ("dataclass", "total_ordering") for d in k.decorators):
                return False
            if {"__array__", "__array_ufunc__", "__array_interface__", "__array_struct__", "__getitem__", "__getattr__", "__getattribute__"} & (set(k.methods) | set(k.consts)):
                return False
        return True

    def seqconst(self, a, b, op):
        """text repeated a known number of times"""
        if isinstance(op, ast.Mult):
            t, k = (a, b) if isinstance(a, K) else (b, a)
            if isinstance(t, K) and isinstance(t.v, str) and isinstance(k, Poly):
                n = self.cidx(k)
                return K(t.v * n) if n is not None and n < 10000 else self.opq("strmul")
        return None

    def percent(self, a, b, st):
        import re
        if not isinstance(a.v, str):
            return self.opq("strfmt")
        vals = list(b.items) if isinstance(b, Tup) else [b]
        out, pos, k = [], 0, 0
        for m in re.finditer(r"%([-+0 #]*\d*(?:\.\d+)?)([sdfgeEGri%x])", a.v):
            out.append(a.v[pos:m.start()])
            pos = m.end()
            if m.group(2) == "%":
                out.append("%")
                continue
            if k >= len(vals):
                raise_raised("TypeError")
            t = m.group(2)
            v = vals[k]
            k += 1
            if t in "sr":
                r = self.fmt(v, "", st, None if t == "s" else "r")
                if not isinstance(r, K):
                    return self.opq("strfmt")
                out.append(("%" + m.group(1) + "s") % r.v)
            else:
                c = as_const(v)
                if c is None:
                    return self.opq("strfmt")
                out.append(("%" + m.group(1) + t) % (int(c) if t in "dix" else float(c)))
        return K("".join(out) + a.v[pos:])

    def mod(self, p, q):
        if p.is_const() and q.is_const():
            return const(p.const() % q.const())
        # even/odd structure of 2*i + c
        return fn("mod", p, q)

    def pow(self, p, q):
        if q.is_const():
            e = q.const()
            if e.denominator == 1:
                return alg.ipow(p, int(e))
            if e == Fraction(1, 2):
                return alg.mkfn("sqrt", p)
            if e.denominator == 2:
                return alg.ipow(alg.mkfn("sqrt", p), int(e * 2))
            if p.is_const() and p.const() > 0:
                k = e.denominator
                r = [round(v ** (1.0 / k)) for v in (p.const().numerator, p.const().denominator)]
                if r[0] ** k == p.const().numerator and r[1] ** k == p.const().denominator:
                    return const(Fraction(r[0], r[1]) ** int(e.numerator))
        return fn("pow", p, q)

    def land(self, a, b, st):
        if isinstance(a, Cond) and isinstance(b, Cond):
            return cand(a, b)
        return self.bin2(a, b, lambda p, q: cand(self.C(p), self.C(q)), st)

    def lor(self, a, b, st):
        if isinstance(a, Cond) and isinstance(b, Cond):
            return cor(a, b)
        return self.bin2(a, b, lambda p, q: cor(self.C(p), self.C(q)), st)

    # ------------------------------------------------------------ compare
    def compare(self, op, a, b, st):
        it = self.it
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(a, b, st)
            return cnot(r) if isinstance(op, ast.IsNot) else r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a, st)
            return cnot(r) if isinstance(op, ast.NotIn) else r
        if isinstance(a, GV):
            return it.lift(a, st, lambda x, s: self.compare(op, x, b, s))
        if isinstance(b, GV):
            return it.lift(b, st, lambda x, s: self.compare(op, a, x, s))
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.eq(a, b, st)
            if isinstance(op, ast.NotEq):
                return self.map1c(r, cnot, st)
            return r
        T = self.detol if getattr(it, "tol0", False) else (lambda p: p)
        f = {
            ast.Lt: lambda p, q: cgt(T(q - p)),
            ast.Gt: lambda p, q: cgt(T(p - q)),
            ast.LtE: lambda p, q: cge(T(q - p)),
            ast.GtE: lambda p, q: cge(T(p - q)),
        }[type(op)]
        ka, kb = isinstance(a, K), isinstance(b, K)
        ca, cb = st.cell(a), st.cell(b)
        if isinstance(ca, Obj) and ca.cls is not None and not ca.cls.is_namedtuple or isinstance(cb, Obj) and cb.cls is not None and not cb.cls.is_namedtuple:
            r = self.obj_order(op, a, ca, b, cb, st)
            if r is None:
                for c, q in ((ca, b), (cb, a)):
                    if isinstance(c, Obj) and c.cls is not None and isinstance(q, Poly) and not any("total_ordering" in d or "order" in d for k in it.prog.mro(c.cls) for d in k.decorators):
                        dun = ("__lt__", "__gt__", "__le__", "__ge__")
                        if not any(it.prog.find_method(c.cls, n) or any(n in k.consts for k in it.prog.mro(c.cls)) for n in dun):
                            self.no_operator(c.cls, "", q)
            return r if r is not None else copaque("cmp")
        if isinstance(ca, Lst) and ca.kind == "set" and isinstance(cb, Lst) and cb.kind == "set":
            sub = isinstance(op, (ast.Lt, ast.LtE))
            r = self.set_method(a, ca, "issubset" if sub else "issuperset", [b], {}, st)
            if isinstance(op, (ast.LtE, ast.GtE)):
                return r
            e = self.eq(a, b, st)
            return cand(r, cnot(e)) if isinstance(r, Cond) and isinstance(e, Cond) else copaque("cmp")
        tup = lambda v, c: isinstance(v, Tup) or isinstance(c, Lst) and c.kind is None or isinstance(c, Obj)
        for p, q in ((a, b), (b, a)):
            if isinstance(p, K) and p.v is None and (isinstance(q, Poly) and not q.opaque() or isinstance(q, K)):
                raise_raised("TypeError")
        if ka or kb or tup(a, ca) and tup(b, cb):
            o = self.order(a, b, st)
            if o is not None:
                return cbool({ast.Lt: o < 0, ast.Gt: o > 0, ast.LtE: o <= 0, ast.GtE: o >= 0}[type(op)])
            return copaque("cmp")
        if isinstance(a, Tup) and not isinstance(cb, (Arr, Fld, Sym)) or isinstance(b, Tup) and not isinstance(ca, (Arr, Fld, Sym)):
            return copaque("cmp")
        self.it.events.append(("cmp", op, a, b, st.pc, it.site()))
        r = self.cmp_inf(op, a, b)
        if r is not None:
            return r
        return self.bin2(a, b, lambda p, q: f(self.P(p), self.P(q)), st)

    INF = sym("inf", "+", dim=())

    def cmp_inf(self, op, a, b):
        """comparison of a finite number with plus or minus infinity"""
        I = self.INF
        if not isinstance(a, Poly) or not isinstance(b, Poly):
            return None
        k = [1 if x == I else -1 if x == -I else None if any(q in I.atoms() for q in x.atoms()) else 0 for x in (a, b)]
        if None in k or k == [0, 0]:
            return None
        return cbool({ast.Lt: k[0] < k[1], ast.Gt: k[0] > k[1], ast.LtE: k[0] <= k[1], ast.GtE: k[0] >= k[1]}[type(op)])

    def obj_order(self, op, a, ca, b, cb, st):
        it = self.it
        nm = {ast.Lt: "__lt__", ast.Gt: "__gt__", ast.LtE: "__le__", ast.GtE: "__ge__"}[type(op)]
        sw = {"__lt__": "__gt__", "__gt__": "__lt__", "__le__": "__ge__", "__ge__": "__le__"}[nm]
        for x, c, y, n in ((a, ca, b, nm), (b, cb, a, sw)):
            if isinstance(c, Obj) and c.cls is not None:
                m = it.prog.find_method(c.cls, n, "method")
                if m:
                    r = it.call_info(m, st, [y], {}, selfv=x)
                    return r if isinstance(r, Cond) else it.truth(r, st)
        return None

    def obj_eq(self, a, ca, b, cb, st):
        """equality of package objects; None when neither side is one"""
        it = self.it
        for x, c, y in ((a, ca, b), (b, cb, a)):
            if isinstance(c, Obj) and c.cls is not None and not c.cls.is_namedtuple:
                m = it.prog.find_method(c.cls, "__eq__", "method")
                if m:
                    r = it.call_info(m, st, [y], {}, selfv=x)
                    return r if isinstance(r, Cond) else it.truth(r, st)
        oa = isinstance(ca, Obj) and ca.cls is not None and not ca.cls.is_namedtuple
        ob = isinstance(cb, Obj) and cb.cls is not None and not cb.cls.is_namedtuple
        if not oa and not ob:
            return None
        if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id:
            return TRUE
        if oa and ob:
            if ca.cls is not cb.cls:
                return FALSE if ca.tag is None and cb.tag is None else copaque("eq")
            if ca.cls.is_dataclass:
                cs = []
                for f, _ in it.fields_of(ca.cls):
                    if f not in ca.attrs or f not in cb.attrs:
                        return copaque("eq")
                    e = self.eq(ca.attrs[f], cb.attrs[f], st)
                    cs.append(e if isinstance(e, Cond) else copaque("eq"))
                return cand(*cs) if cs else TRUE
            return FALSE if ca.tag is None and cb.tag is None else copaque("eq")
        o = ca if oa else cb
        x = cb if oa else ca
        if isinstance(x, (Arr, Fld, Sym)):
            return copaque("eq")
        return FALSE if o.tag is None else copaque("eq")

    def detol(self, p):
        """numerical tolerances taken at their limit zero (opt-in per analysis)"""
        if len(p.t) < 2:
            return p
        eps = Fraction(1, 10 ** 7)

        def near(k):
            q = k.limit_denominator(10000) if k.denominator > 10 ** 6 else k
            return q if abs(q - k) < eps else k
        t = {m: near(k) for m, k in p.t.items() if abs(k) > eps}
        return Poly(t) if t else p

    def is_(self, a, b, st):
        it = self.it
        if isinstance(a, GV):
            return cor(cand(a.c, self.is_(a.a, b, st)), cand(cnot(a.c), self.is_(a.b, b, st)))
        if isinstance(b, GV):
            return self.is_(b, a, st)
        if isinstance(a, Opq) or isinstance(b, Opq):
            o, x = (a, b) if isinstance(a, Opq) else (b, a)
            if isinstance(x, K):
                return ckey("is", o.tag, o.id, repr(x.v))
            return TRUE if a is b else copaque("is")
        if isinstance(a, K) and isinstance(b, K):
            return cbool(a.v is b.v or a == b)
        if isinstance(a, Cond) and isinstance(b, Cond) and b.k in ("T", "F"):
            return a if b.k == "T" else cnot(a)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return cbool(a.id == b.id)
        if isinstance(a, ClsV) and isinstance(b, ClsV):
            return cbool(a == b)
        if type(a) is not type(b):
            return FALSE
        if isinstance(a, Poly):
            return ceq(a - b)
        return cbool(a == b)

    def eq(self, a, b, st):
        if isinstance(a, Opq) or isinstance(b, Opq):
            o, x = (a, b) if isinstance(a, Opq) else (b, a)
            if isinstance(x, K):
                return ckey("eq", o.tag, o.id, repr(x.v))
            if isinstance(x, Poly):
                return ceq(o.as_num() - x)
            return copaque("eq")
        if isinstance(a, K) or isinstance(b, K):
            if isinstance(a, K) and isinstance(b, K):
                return cbool(a.v == b.v)
            return FALSE
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return FALSE
            return cand(*[self.eq(x, y, st) for x, y in zip(a.items, b.items)])
        if isinstance(a, Cond) and isinstance(b, Cond):
            if b.k in ("T", "F"):
                return a if b.k == "T" else cnot(a)
        ca, cb = st.cell(a), st.cell(b)
        e = self.obj_eq(a, ca, b, cb, st)
        if e is not None:
            return e
        if isinstance(ca, Lst) and isinstance(cb, Lst) and "iter" in (ca.kind, cb.kind):
            return cbool(isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id)
        if isinstance(ca, Lst) and isinstance(cb, Lst) and ca.kind != cb.kind:
            return FALSE
        if isinstance(ca, Lst) and isinstance(cb, Lst) and ca.kind == "set":
            if not (ca.concrete() and cb.concrete()):
                return copaque("eq")
            cs = [self.contains(b, x, st) for x in ca.values()] + [self.contains(a, x, st) for x in cb.values()]
            return cand(*cs) if cs else TRUE
        if isinstance(ca, Dct) and isinstance(cb, Dct):
            if ca.open or cb.open or it_undef(self.it, ca) or it_undef(self.it, cb):
                return copaque("eq")
            if len(ca.items) != len(cb.items):
                return FALSE
            cs = []
            for k, v in ca.items.items():
                r = self.dict_key(cb, k, st)
                if r is None:
                    return copaque("eq")
                if r[0] == "miss":
                    return FALSE
                e = self.eq(v, r[1], st)
                cs.append(e if isinstance(e, Cond) else copaque("eq"))
            return cand(*cs) if cs else TRUE
        cont = lambda v, c: isinstance(v, Tup) or isinstance(c, (Lst, Dct))
        if cont(a, ca) and (isinstance(b, (Poly, Cond)) or cont(b, cb)) and not (isinstance(ca, Lst) and isinstance(cb, Lst)) \
                or cont(b, cb) and isinstance(a, (Poly, Cond)):
            return FALSE                    # a list is never equal to a number, a tuple, a dict
        if isinstance(ca, Lst) and isinstance(cb, Lst):
            if ca.concrete() and cb.concrete():
                if len(ca.ent) != len(cb.ent):
                    return FALSE
                return cand(*[self.eq(x, y, st) for x, y in zip(ca.values(), cb.values())])
            return copaque("eq")
        if isinstance(a, (ClsV, Ext)) and isinstance(b, (ClsV, Ext)):
            return cbool(a == b)
        if any(isinstance(x, (ClsV, Ext, NM, BM, FnV, PartV, PrimV, MemoV, Rng, IterV)) for x in (a, b)):
            return TRUE if a is b else FALSE if isinstance(a, (ClsV, Ext)) or isinstance(b, ClsV) else copaque("eq")
        return self.bin2(a, b, lambda p, q: ceq(self.P(p) - self.P(q)), st)

    def contains(self, cont, x, st):
        if isinstance(cont, GV):
            return cor(cand(cont.c, self.contains(cont.a, x, st)), cand(cnot(cont.c), self.contains(cont.b, x, st)))
        c = st.cell(cont)
        if isinstance(x, GV):
            return cor(cand(x.c, self.contains(cont, x.a, st)), cand(cnot(x.c), self.contains(cont, x.b, st)))
        if isinstance(cont, Tup) or isinstance(c, Lst) and c.concrete():
            items = cont.items if isinstance(cont, Tup) else c.values()
            cs = []
            for y in items:
                e = self.eq(x, y, st)
                cs.append(e if isinstance(e, Cond) else copaque("in"))
            return cor(*cs) if cs else FALSE
        if isinstance(c, Dct) and not c.open:
            cs = []
            for k in c.items:
                e = self.eq(x, k, st)
                cs.append(e if isinstance(e, Cond) else copaque("in"))
            return cor(*cs) if cs else FALSE
        if isinstance(c, Obj) and c.cls is not None and not c.cls.is_namedtuple:
            m = self.it.prog.find_method(c.cls, "__contains__", "method")
            if m:
                return self.it.truth(self.it.call_info(m, st, [x], {}, selfv=cont), st)
        if isinstance(cont, K) and isinstance(x, K):
            if isinstance(cont.v, str) and isinstance(x.v, str):
                return cbool(x.v in cont.v)
            raise_raised("TypeError")
        if isinstance(cont, Rng) and isinstance(x, Poly):
            if cont.st == ONE:
                return cand(cge(x - cont.lo), cgt(cont.hi - x))
            if all(q.is_const() for q in (cont.lo, cont.hi, cont.st, x)):
                r = range(int(cont.lo.const()), int(cont.hi.const()), int(cont.st.const()))
                return cbool(x.const() in r if x.const().denominator == 1 else False)
            return copaque("in")
        if isinstance(cont, Opq) and isinstance(x, K):
            return ckey("in", repr(x.v), cont.tag, cont.id)
        if isinstance(c, (Arr, Fld, Cat)) or isinstance(cont, (Opq, Poly, K)):
            return copaque("in")
        try:
            segs = self._segs(cont, st)
        except Unsup:
            return copaque("in")
        if all(s[0] == "one" for s in segs):
            cs = []
            for s in segs:
                e = self.eq(x, s[2], st)
                cs.append(cand(s[1], e if isinstance(e, Cond) else copaque("in")))
            return cor(*cs) if cs else FALSE
        return copaque("in")

    # ------------------------------------------------------------ indexing
    def cidx(self, ix):
        if isinstance(ix, Poly) and ix.is_const() and ix.const().denominator == 1:
            return int(ix.const())
        return None

    def slice_range(self, s, n):
        def g(v, d):
            if v is None or v is NONE:
                return d
            i = self.cidx(v)
            if i is None:
                raise_unsup("slice")
            return i

        return range(*slice(g(s.lo, None), g(s.hi, None), g(s.st, None)).indices(n))

    def getitem(self, base, ix, st):
        it = self.it
        if isinstance(base, GV):
            return it.lift(base, st, lambda b, s: self.getitem(b, ix, s))
        if isinstance(ix, GV):
            return it.lift(ix, st, lambda i, s: self.getitem(base, i, s))
        if isinstance(base, Tup):
            if isinstance(ix, SliceV):
                return Tup([base.items[i] for i in self.slice_range(ix, len(base.items))])
            i = self.cidx(ix)
            if i is None:
                return self.opq("tup[]")
            try:
                return base.items[i]
            except IndexError:
                raise_raised("IndexError")
        if isinstance(base, Ext):
            f = getattr(self, "n_" + base.name.split(".")[-1], None)
            if base.name in ("numpy.r_", "numpy.c_"):
                return f(ix, st)
            return self.opq(f"{base.name}[]") if not base.name.startswith(("builtins.", "typing.", "collections.")) else base
        if isinstance(base, Rng) and all(q.is_const() for q in (base.lo, base.hi, base.st)):
            r = range(int(base.lo.const()), int(base.hi.const()), int(base.st.const()))
            if isinstance(ix, SliceV):
                q = r[slice(*[None if v is None or v is NONE else self.cidx(v) for v in (ix.lo, ix.hi, ix.st)])]
                return Rng(const(q.start), const(q.stop), const(q.step))
            i = self.cidx(ix)
            if i is not None:
                if not -len(r) <= i < len(r):
                    raise_raised("IndexError")
                return const(r[i])
            return self.opq("range[]")
        if isinstance(base, ReV):
            return self.call_method(base, "__getitem__", [ix], {}, st)
        if isinstance(base, K) and isinstance(base.v, str):
            if isinstance(ix, SliceV):
                r = self.slice_range(ix, len(base.v))
                return K("".join(base.v[i] for i in r))
            i = self.cidx(ix)
            if i is not None and not -len(base.v) <= i < len(base.v):
                raise_raised("IndexError")
            if i is not None and -len(base.v) <= i < len(base.v):
                return K(base.v[i])
            return self.opq("str[]")
        if isinstance(base, ClsV) and base.info.is_enum:
            if isinstance(ix, K):
                k = it.prog.find_const(base.info, ix.v)
                if k:
                    return it.global_value(k[0].module, k[1], st)
                if isinstance(ix.v, str):
                    raise_raised("KeyError")
            return self.opq("enum[]")
        if isinstance(base, Opq):
            i = self.cidx(ix) if isinstance(ix, Poly) else None
            cache = it.__dict__.setdefault("_opqidx", {})
            try:
                key = (base.id, ix if not isinstance(ix, SliceV) else str(ix))
                if key in cache:
                    return cache[key]
            except TypeError:
                key = None
            v = Opq(f"{base.tag}[{ix}]")
            if key is not None:
                cache[key] = v
            return v
        c = st.cell(base)
        if isinstance(c, Obj) and c.cls is not None:
            if c.cls.is_namedtuple:
                vals = [c.attrs[f] for f, _ in c.cls.fields]
                if isinstance(ix, SliceV):
                    return Tup([vals[i] for i in self.slice_range(ix, len(vals))])
                i = self.cidx(ix)
                return vals[i] if i is not None else self.opq("nt[]")
            m = it.prog.find_method(c.cls, "__getitem__")
            if m:
                return it.call_info(m, st, [ix], {}, selfv=base)
            return self.opq("obj[]")
        if isinstance(c, Lst):
            if isinstance(ix, SliceV):
                lo = self.cidx(ix.lo) if ix.lo is not None else 0
                if not c.concrete() and lo is not None and lo >= 0 and ix.hi is None and ix.st is None:
                    k = 0
                    while k < lo and k < len(c.ent) and len(c.ent[k]) == 2 and c.ent[k][0].k == "T":
                        k += 1
                    if k == lo:
                        return st.new(Lst(c.ent[lo:]))
                if not c.concrete() and ix.lo is None and ix.hi is None and ix.st is None:
                    return st.new(c.copy())
                if not c.concrete() and ix.lo is None and ix.hi is None and self.cidx(ix.st) == -1 and all(len(e) == 2 for e in c.ent):
                    return st.new(Lst(c.ent[::-1]))
                if not c.concrete():
                    return self.opq("list slice")
                return st.new(Lst([c.ent[i] for i in self.slice_range(ix, len(c.ent))]))
            i = self.cidx(ix)
            if i is not None and c.concrete():
                if -len(c.ent) <= i < len(c.ent):
                    return c.ent[i][1]
                raise_raised("IndexError")
            if i is not None and i >= 0 and all(len(e) == 2 and e[0].k == "T" for e in c.ent[: i + 1]) and i < len(c.ent):
                return c.ent[i][1]
            if len(c.ent) == 1 and len(c.ent[0]) == 3 and isinstance(ix, Poly) and c.ent[0][1].k == "T" and isinstance(c.ent[0][0], tuple) and c.ent[0][0][0] == "rep":
                return c.ent[0][2]
            if len(c.ent) == 1 and len(c.ent[0]) == 3 and isinstance(ix, Poly) and c.ent[0][1].k == "T":
                k = c.ent[0][0]
                if isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], tuple) and k[1] and k[1][0] == "range":
                    # list built by a range loop: element i is the generic element at index i
                    pass
            return self.opq("list[]")
        if isinstance(c, Dct):
            if ix in c.items:
                v = c.items[ix]
                if v is not UNDEF:
                    return v
            elif not c.open:
                r = self.dict_key(c, ix, st)
                if r is None:
                    if isinstance(c.tag, tuple) and c.tag[0] == "default":
                        it.havoc_value(base, st)
                    return self.opq("dict[]")
                if r[0] == "hit":
                    return r[1]
                if isinstance(c.tag, tuple) and c.tag[0] == "default":
                    v = it.call(c.tag[1], [], {}, st)
                    st.w(base).items[ix] = v
                    return v
                raise_raised("KeyError")
            if isinstance(c.tag, tuple) and c.tag[0] == "default":
                it.havoc_value(base, st)
            return self.opq(f"dict[{ix}]")
        if isinstance(c, Arr):
            r = self.arr_get(c, ix, st)
            if isinstance(r, Ref) and self.basic_index(ix):
                idx = Arr(c.shape, [const(i) for i in range(len(c.data))])
                q = st.cell(self.arr_get(idx, ix, st))
                self.view_of(r, ("arr", base, [int(x.const()) for x in q.data]))
            return r
        if isinstance(c, Fld):
            if isinstance(ix, SliceV):
                if ix.st is None and _trim(self, ix):
                    r = st.new(Fld(c.elem, c.st, _trim_patch(self, c, ix), None))
                elif ix.lo is None and ix.hi is None and ix.st is None:
                    r = st.new(c.copy())
                elif ix.st is None:
                    r = st.new(Fld(c.elem, c.st, {}, None))
                else:
                    return self.opq("fld slice")
                self.view_of(r, ("fld", base, ix))
                return r
            k = self.fld_key(c, ix)
            if k is not None:
                return it.fld_at(c, k)
            m = st.cell(ix)
            if isinstance(m, Fld):
                return st.new(Fld(c.elem, c.st, {}, None))
            return fn("at", c.elem if isinstance(c.elem, Poly) else self.P(c.elem), self.P(ix)) if isinstance(ix, Poly) else self.opq("fld[]")
        if isinstance(c, Sym):
            r = self.sym_get(c, ix, st)
            if isinstance(r, Ref) and self.basic_index(ix):
                self.view_of(r, ("sym", base, ix))
            return r
        return self.opq("[]")

    # -- views: basic indexing of an array aliases its storage
    def basic_index(self, ix):
        items = list(ix.items) if isinstance(ix, Tup) else [ix]
        return all(isinstance(i, (Poly, SliceV)) or i == NONE or isinstance(i, K) and i.v is Ellipsis for i in items)

    def view_of(self, ref, v):
        it = self.it
        it.__dict__.setdefault("views", {})[ref.id] = v
        it.__dict__.setdefault("kids", {}).setdefault(v[1].id, []).append(ref.id)

    def touched(self, ref, st, skip=()):
        """storage of ref was written in place: update base and sibling views"""
        it = self.it
        views = it.__dict__.get("views", {})
        kids = it.__dict__.get("kids", {})
        v = views.get(ref.id)
        if v is not None and v[1].id not in skip and v[1].id in st.heap:
            kind, b, ix = v
            bc, c = st.heap[b.id], st.heap.get(ref.id)
            if kind == "arr" and isinstance(bc, Arr) and isinstance(c, Arr) and len(ix) == len(c.data):
                w = st.w(b)
                for i, x in zip(ix, c.data):
                    w.data[i] = x
            elif kind == "fld" and isinstance(bc, Fld) and isinstance(c, (Fld, Arr)):
                self.setitem(b, ix, ref, st)
            elif isinstance(bc, Sym):
                st.w(b).log.append(_W()("havoc", None, None, TRUE, (), it.site()))
            self.touched(b, st, tuple(skip) + (ref.id,))
        for k in kids.get(ref.id, ()):
            if k in skip or k not in st.heap:
                continue
            c, kc, vk = st.heap[ref.id], st.heap[k], views[k]
            if isinstance(c, Arr) and isinstance(kc, Arr) and vk[0] == "arr" and max(vk[2], default=-1) < len(c.data):
                nd = [c.data[i] for i in vk[2]]
                if nd != kc.data:
                    st.heap[k] = Arr(kc.shape, nd)
                    self.touched(Ref(k), st, tuple(skip) + (ref.id,))

    def fld_key(self, c, ix):
        i = self.cidx(ix) if isinstance(ix, Poly) else None
        if i is not None:
            return i
        if isinstance(ix, Poly) and c.n is not None:
            d = ix - c.n
            if d.is_const() and d.const() < 0:
                return int(d.const())
        return None

    def arr_get(self, c, ix, st):
        items = list(ix.items) if isinstance(ix, Tup) else [ix]
        # ix_ object
        if len(items) == 1 and isinstance(items[0], IxV):
            r, q = items[0].rows, items[0].cols
            return st.new(Arr((len(r), len(q)), [c.at(i, j) for i in r for j in q]))
        m = self.index_map(c.shape, ix, st)
        if m is not None:
            dims, offs = m
            if not dims:
                return c.data[offs[0]]
            return st.new(Arr(dims, [c.data[o] for o in offs]))
        if sum(not isinstance(x, (SliceV, Poly)) for x in items) > 1:
            return self.opq("arr[]")
        sel = []
        dims = []
        if len(items) > len(c.shape):
            if K(None) in items or any(i is NONE for i in items):
                # newaxis on 1D
                if len(c.shape) == 1 and len(items) == 2:
                    if items[1] is NONE:
                        return st.new(Arr((c.shape[0], 1), c.data))
                    if items[0] is NONE:
                        return st.new(Arr((1, c.shape[0]), c.data))
            raise_unsup("index")
        for k, n in enumerate(c.shape):
            if k >= len(items):
                sel.append(list(range(n)))
                dims.append(n)
                continue
            x = items[k]
            if isinstance(x, SliceV):
                r = list(self.slice_range(x, n))
                sel.append(r)
                dims.append(len(r))
                continue
            i = self.cidx(x) if isinstance(x, Poly) else None
            if i is not None:
                if not -n <= i < n:
                    raise_raised("IndexError")
                sel.append([i % n])
                continue
            l = self.int_list(x, st)
            if l is not None:
                sel.append([j % n for j in l])
                dims.append(len(l))
                continue
            bm = st.cell(x)
            if isinstance(bm, Arr) and bm.shape == (n,) and all(isinstance(q, Cond) and q.k in "TF" for q in bm.data):
                r = [j for j, q in enumerate(bm.data) if q.k == "T"]
                sel.append(r)
                dims.append(len(r))
                continue
            raise_unsup("arr index")
        data = []
        for t in _product(sel):
            data.append(c.at(*t))
        if not dims:
            return data[0]
        return st.new(Arr(dims, data))

    def int_list(self, x, st):
        c = st.cell(x)
        vals = None
        if isinstance(c, Lst) and c.concrete():
            vals = c.values()
        elif isinstance(c, Arr) and len(c.shape) == 1:
            vals = c.data
        elif isinstance(x, Rng) and all(isinstance(q, Poly) and q.is_const() for q in (x.lo, x.hi, x.st)):
            return list(range(int(x.lo.const()), int(x.hi.const()), int(x.st.const())))
        elif isinstance(x, Tup) and all(isinstance(q, Poly) for q in x.items):
            vals = x.items
        if vals is None:
            return None
        out = []
        for v in vals:
            i = self.cidx(v) if isinstance(v, Poly) else None
            if i is None:
                return None
            out.append(i)
        return out

    def sym_get(self, c, ix, st):
        items = list(ix.items) if isinstance(ix, Tup) else [ix]
        f = self.symfun(c)
        if len(items) == 1 and isinstance(items[0], IxV):
            return self.opq(f"{c.name}[ix]")
        if all(isinstance(x, Poly) for x in items) and len(items) == len(c.shape):
            return f(*items)
        # constant-length slices -> explicit
        spec = []
        for k in range(len(c.shape)):
            x = items[k] if k < len(items) else SliceV(None, None, None)
            if isinstance(x, Poly):
                spec.append(("i", x))
            elif isinstance(x, SliceV):
                if x.lo is None and x.hi is None:
                    spec.append(("all", None))
                else:
                    lo = x.lo if x.lo is not None else ZERO
                    n = self.cidx(x.hi - lo) if x.hi is not None else None
                    if n is None or x.st is not None:
                        return st.new(Sym(c.shape[-1:], "expr", None, (), fun=lambda *ii: opaque(f"{c.name}[slice]")))
                    spec.append(("s", lo, n))
            else:
                l = self.int_list(x, st)
                if l is not None:
                    spec.append(("l", l))
                else:
                    return self.opq(f"{c.name}[]")
        if any(s[0] == "all" for s in spec):
            if sum(s[0] == "all" for s in spec) == 1 and all(s[0] in ("all", "i") for s in spec):
                def g(i, spec=spec):
                    return f(*[i if s[0] == "all" else s[1] for s in spec])
                k = [s[0] for s in spec].index("all")
                return st.new(Sym((c.shape[k],), "expr", None, (), fun=g))
            if all(s[0] == "all" for s in spec):
                return st.new(c.copy())
            return self.opq(f"{c.name}[]")
        sel, dims = [], []
        for s in spec:
            if s[0] == "i":
                sel.append([s[1]])
            elif s[0] == "s":
                sel.append([s[1] + const(j) for j in range(s[2])])
                dims.append(s[2])
            else:
                sel.append([const(j) for j in s[1]])
                dims.append(len(s[1]))
        data = [f(*t) for t in _product(sel)]
        return st.new(Arr(dims, data))

    def setitem(self, base, ix, v, st):
        it = self.it
        if isinstance(base, GV):
            it.lift(base, st, lambda b, s: (self.setitem(b, ix, v, s), NONE)[1])
            return
        c = st.cell(base)
        it.events.append(("setitem", base, ix, v, it.fullpc(st), it.site()))
        if isinstance(base, NM):
            it.havoc_value(base.obj, st)
            return
        if isinstance(c, Obj) and c.cls is not None:
            m = it.prog.find_method(c.cls, "__setitem__", "method")
            if m:
                it.call_info(m, st, [ix, v], {}, selfv=base)
            return
        if isinstance(c, Lst):
            i = self.cidx(ix) if isinstance(ix, Poly) else None
            if i is not None and c.concrete() and not -len(c.ent) <= i < len(c.ent):
                raise_raised("IndexError")
            if isinstance(ix, SliceV) and c.concrete():
                new = self.seglist(v, st)
                b = [None if q is None or q is NONE else self.cidx(q) for q in (ix.lo, ix.hi, ix.st)]
                if new is not None and not any(q is None and r is not None and r is not NONE for q, r in zip(b, (ix.lo, ix.hi, ix.st))):
                    l = list(c.ent)
                    try:
                        l[slice(*b)] = [(TRUE, x) for x in new]
                    except ValueError:
                        raise_raised("ValueError")
                    st.w(base).ent = l
                    return
            if i is not None and c.concrete() and -len(c.ent) <= i < len(c.ent):
                st.w(base).ent[i] = (TRUE, v)
                return
            st.w(base).ent = [(("set", next(_vid)), TRUE, self.opq("list set"))]
            return
        if isinstance(c, Dct):
            if isinstance(ix, GV):
                it.lift(ix, st, lambda i, s: (self.setitem(base, i, v, s), NONE)[1])
                return
            try:
                r = self.dict_key(c, ix, st)
                if r is not None and r[0] == "hit" and ix not in c.items:
                    for k in c.items:
                        if self.certain_eq(k, ix, st):
                            ix = k
                            break
                st.w(base).items[ix] = v
            except TypeError:
                st.w(base).open = True
            if isinstance(c.tag, tuple) and c.tag[0] == "attrs":
                self.sync_attrs(base, c.tag[1], st)
            return
        if isinstance(c, Arr):
            if isinstance(ix, GV):
                it.lift(ix, st, lambda i, s: (self.setitem(base, i, v, s), NONE)[1])
                return
            self.arr_set(base, c, ix, v, st)
            self.touched(base, st)
            return
        if isinstance(c, Fld):
            self.fld_set(base, c, ix, v, st)
            self.touched(base, st)
            return
        if isinstance(c, Sym):
            st.w(base).log.append(_W()("=", ix, it.freeze(v, st), it.fullpc(st), it.loopctx(), it.site()))
            self.touched(base, st)
            return

    def fld_set(self, base, c, ix, v, st):
        it = self.it
        if True:
            w = st.w(base)
            if isinstance(ix, Poly):
                k = self.fld_key(c, ix)
                if k is None:
                    w.elem = opaque("fldset")
                    return
                w.patch[k] = self.P(v) if not isinstance(v, Cond) else v
                return
            if isinstance(ix, SliceV):
                if ix.lo is None and ix.hi is None:
                    x = self.cell_of(v, st)
                    if isinstance(x, Fld):
                        w.elem, w.patch, w.st = x.elem, dict(x.patch), x.st or w.st
                        return
                    w.elem, w.patch = self.P(v), {}
                    return
                # x[1:-1] = y : interior assignment; the uncovered ends stay
                x = self.cell_of(v, st)
                elem = x.elem if isinstance(x, Fld) else (x.data[0] if isinstance(x, Arr) and len(x.data) == 1 else None)
                if elem is None:
                    w.elem = opaque("fldset")
                    return
                for k in _outside(self, ix):
                    w.patch.setdefault(k, it.fld_at(c, k))
                if isinstance(x, Fld) and x.st is not None:
                    w.st = x.st if w.st is None else w.st
                w.elem = elem
                return
            m = st.cell(ix)
            if isinstance(m, Fld):
                x = self.cell_of(v, st)
                ve = x.elem if isinstance(x, Fld) else x.data[0]
                w.elem = it.merge(self.C(m.elem), ve, w.elem)
                w.st = w.st or m.st
                w.patch = {}
                return
            w.elem = opaque("fldset")
            return

    def arr_set(self, base, c, ix, v, st):
        items = list(ix.items) if isinstance(ix, Tup) else [ix]
        w = st.w(base)

        def off(t):
            o = 0
            for n, i in zip(c.shape, t):
                o = o * n + i
            return o

        if len(items) == 1 and isinstance(items[0], IxV):
            sel = [items[0].rows, items[0].cols]
            dims = [len(items[0].rows), len(items[0].cols)]
        else:
            m = self.index_map(c.shape, ix, st)
            if m is not None:
                dims, offs = m
                if not dims:
                    w.data[offs[0]] = v if isinstance(v, Cond) else self.P(self.scalar(v, st))
                    return
                x = self.cell_of(v, st)
                if isinstance(x, Arr):
                    b = self.bcast(Arr(dims, [ZERO] * len(offs)), x, lambda p, q: q)
                    if len(b.data) != len(offs):
                        raise_raised("ValueError")
                    for o, d in zip(offs, b.data):
                        w.data[o] = d
                    return
                for o in offs:
                    w.data[o] = opaque("arrset")
                return
            if sum(not isinstance(x, (SliceV, Poly)) for x in items) > 1:
                w.data = [opaque("arrset") for _ in w.data]
                return
            sel, dims = [], []
            for k, n in enumerate(c.shape):
                x = items[k] if k < len(items) else SliceV(None, None, None)
                if isinstance(x, SliceV):
                    r = list(self.slice_range(x, n))
                    sel.append(r)
                    dims.append(len(r))
                    continue
                i = self.cidx(x) if isinstance(x, Poly) else None
                if i is not None:
                    if not -n <= i < n:
                        raise_raised("IndexError")
                    sel.append([i % n])
                    continue
                l = self.int_list(x, st)
                if l is None:
                    bm = st.cell(x)
                    if isinstance(bm, Arr) and bm.shape == (n,):
                        if all(isinstance(q, Cond) and q.k in "TF" for q in bm.data):
                            r = [j for j, q in enumerate(bm.data) if q.k == "T"]
                            sel.append(r)
                            dims.append(len(r))
                            continue
                        if all(isinstance(q, Cond) for q in bm.data) and isinstance(v, (Poly, Cond)) and len(items) == 1:
                            w.data = [self.it.merge(q, v, d) for q, d in zip(bm.data, w.data)]
                            return
                    if isinstance(x, Poly) and len(items) == 1 and isinstance(v, Poly):
                        w.data = [alg.gamma(ceq(x - const(i)), v, self.P(d)) for i, d in enumerate(w.data)]
                        return
                    w.data = [opaque("arrset") for _ in w.data]
                    return
                sel.append([j % n for j in l])
                dims.append(len(l))
        tuples = list(_product(sel))
        if not dims:
            w.data[off(tuples[0])] = v if isinstance(v, Cond) else self.P(self.scalar(v, st))
            return
        x = self.cell_of(v, st)
        if isinstance(x, Arr):
            b = self.bcast(Arr(dims, [ZERO] * len(tuples)), x, lambda p, q: q)
            for t, d in zip(tuples, b.data):
                w.data[off(t)] = d
            return
        if isinstance(x, Sym):
            f = self.symfun(x)
            for k, t in enumerate(tuples):
                w.data[off(t)] = opaque("symset")
            return
        for t in tuples:
            w.data[off(t)] = opaque("arrset")

    def scalar(self, v, st):
        c = st.cell(v)
        if isinstance(c, Arr) and len(c.data) == 1:
            return c.data[0]
        return v

    # ---------------------------------------------------------- attributes
    def getattr(self, base, attr, st):
        c = st.cell(base)
        if isinstance(c, (Arr, Fld, Sym)):
            if attr == "T":
                if isinstance(c, Arr):
                    return self.transpose(base, st)
                if isinstance(c, Sym) and len(c.shape) == 2:
                    f = self.symfun(c)
                    return st.new(Sym(c.shape[::-1], "T", None, (), fun=lambda i, j: f(j, i)))
                return base
            if attr == "shape":
                if isinstance(c, Arr):
                    return Tup([const(n) for n in c.shape])
                if isinstance(c, Fld):
                    return Tup([c.n if c.n is not None else opaque("n", dim=())])
                return Tup([n if isinstance(n, Poly) else const(n) for n in c.shape])
            if attr == "size":
                if isinstance(c, Arr):
                    return const(len(c.data))
                if isinstance(c, Fld):
                    return c.n if c.n is not None else opaque("n", dim=())
                r = ONE
                for n in c.shape:
                    r = r * (n if isinstance(n, Poly) else const(n))
                return r
            if attr == "ndim":
                return const(len(c.shape) if not isinstance(c, Fld) else 1)
            if attr == "flat" and isinstance(c, Arr):
                return self.whole_view(base, Arr((len(c.data),), c.data), st)
            if attr == "real":
                return base
            if attr in ("dtype", "nbytes", "itemsize", "flags", "strides", "base"):
                return self.opq(attr)
        return NM(base, attr)

    def whole_view(self, base, r, st, order=None):
        """an array over the same storage: element k of r is element order[k] of base"""
        r = st.new(r)
        if isinstance(base, Ref) and isinstance(st.cell(base), Arr):
            self.view_of(r, ("arr", base, list(order) if order is not None else list(range(len(st.cell(r).data)))))
        return r

    def transpose(self, v, st):
        c = st.cell(v)
        if len(c.shape) == 2:
            r, q = c.shape
            return self.whole_view(v, Arr((q, r), [c.at(i, j) for j in range(q) for i in range(r)]), st, [i * q + j for j in range(q) for i in range(r)])
        if isinstance(c, Arr) and len(c.shape) > 2:
            return self.n_moveaxis_all(v, c, st)
        return v

    def n_moveaxis_all(self, v, c, st):
        dims, offs = self._perm(c.shape, list(range(len(c.shape)))[::-1])
        return self.whole_view(v, Arr(dims, [c.data[o] for o in offs]), st, offs)

    def matmul(self, a, b, st):
        ca, cb = self.cell_of(a, st), self.cell_of(b, st)
        if isinstance(ca, Arr) and isinstance(cb, Arr):
            A, B = ca, cb
            a1, b1 = len(A.shape) == 1, len(B.shape) == 1
            if a1:
                A = Arr((1,) + A.shape, A.data)
            if b1:
                B = Arr(B.shape + (1,), B.data)
            if A.shape[1] != B.shape[0]:
                raise_raised("ValueError")
            n, m, p = A.shape[0], A.shape[1], B.shape[1]
            data = []
            for i in range(n):
                for j in range(p):
                    s = ZERO
                    for k in range(m):
                        s = s + self.P(A.at(i, k)) * self.P(B.at(k, j))
                    data.append(s)
            if a1 and b1:
                return data[0]
            if a1:
                return st.new(Arr((p,), data))
            if b1:
                return st.new(Arr((n,), data))
            return st.new(Arr((n, p), data))
        if isinstance(ca, Sym) and isinstance(cb, Sym):
            na, nb = ca.name, cb.name
            if len(ca.shape) == 2 and len(cb.shape) == 1 and not ca.log and not cb.log:
                ka, kb = self.symkey(ca), self.symkey(cb)
                if ka and kb:
                    return st.new(Sym((ca.shape[0],), "expr", None, (), fun=lambda i: fn("matvec", K(ka), K(kb), i)))
        return self.opq("matmul")

    def symkey(self, c):
        if c.fun is None and not c.log:
            return c.name
        return None

    def inv(self, A):
        n = A.shape[0]
        if A.shape == (1, 1):
            return Arr((1, 1), [ONE / self.P(A.data[0])])
        if n == 2:
            a, b, c, d = [self.P(x) for x in A.data]
            det = a * d - b * c
            if is_zero(det):
                raise alg.DivZero()
            i = alg.inv(det)
            return Arr((2, 2), [d * i, -b * i, -c * i, a * i])
        if n <= 4:
            # Gauss-Jordan in the rational-function field
            M = [[self.P(A.at(i, j)) for j in range(n)] + [ONE if i == j else ZERO for j in range(n)] for i in range(n)]
            for c in range(n):
                p = next((r for r in range(c, n) if not is_zero(M[r][c])), None)
                if p is None:
                    raise alg.DivZero()
                M[c], M[p] = M[p], M[c]
                iv = alg.inv(M[c][c])
                M[c] = [x * iv for x in M[c]]
                for r in range(n):
                    if r != c and M[r][c].t:
                        f = M[r][c]
                        M[r] = [x - f * y for x, y in zip(M[r], M[c])]
            return Arr((n, n), [M[i][n + j] for i in range(n) for j in range(n)])
        raise_unsup("inv")

    # ------------------------------------------------------ ext functions
    def ext_attr(self, name, attr):
        full = f"{name}.{attr}"
        if full in ("numpy.pi", "math.pi"):
            return sym("pi", "+", dim=())
        if full in ("numpy.inf", "math.inf"):
            return sym("inf", "+", dim=())
        if full in ("numpy.nan", "math.nan"):
            return opaque("nan")
        if full == "numpy.newaxis":
            return NONE
        return Ext(full)

    def call_ext(self, name, args, kw, st):
        short = name.split(".")[-1]
        root = name.split(".")[0]
        m = None
        if root == "builtins" and name.count(".") == 2 and args:
            cls = name.split(".")[1]
            if name == "builtins.dict.fromkeys":
                xs = self.seglist(args[0], st)
                if xs is None:
                    return st.new(Dct({}, True))
                return st.new(Dct({k: (args[1] if len(args) > 1 else NONE) for k in xs}))
            if cls in ("list", "dict", "str", "set", "tuple", "frozenset"):
                return self.call_method(args[0], short, args[1:], kw, st)
        if root == "builtins":
            m = getattr(self, "b_" + short, None)
        elif root in ("numpy", "scipy", "math", "copy"):
            m = getattr(self, "n_" + name.replace(".", "_"), None) or getattr(self, "n_" + short, None)
        elif short in ("deepcopy", "copy"):
            m = self.n_deepcopy if short == "deepcopy" else self.n_copy_copy
        if root in ("operator", "math", "functools", "itertools", "collections", "dataclasses", "bisect", "copy", "re"):
            if not any(a is UNDEF for a in args):
                mark = len(self.it.events)
                self.it.events.append(("ext", name, tuple(args), dict(kw), self.it.fullpc(st), self.it.site()))
                r = self.std(name, args, kw, st)
                if r is not NotImplemented:
                    return r
                del self.it.events[mark]
        self.it.events.append(("ext", name, tuple(args), dict(kw), self.it.fullpc(st), self.it.site()))
        if m is None:
            if root == "builtins" and (short.endswith("Error") or short.endswith("Exception") or short.endswith("Warning")):
                return self.opq(f"exc {short}")
            if root in ("numpy", "scipy", "itertools", "functools", "operator", "bisect", "heapq", "random", "array") or root == "builtins":
                for a in list(args) + list(kw.values()):
                    if root not in ("numpy", "scipy") or "out" in kw or short.endswith(("at", "place", "shuffle", "putmask", "put_along_axis")):
                        self.it.havoc_value(a, st)   # not modelled: it may have changed its arguments
            return self.opq(f"{name}()")
        if any(a is UNDEF for a in args):
            return self.opq("undef arg")
        return m(args, kw, st)

    # builtins
    def b_len(self, args, kw, st):
        v = args[0]
        if isinstance(v, GV):
            return self.it.lift(v, st, lambda x, s: self.b_len([x], {}, s))
        if isinstance(v, Tup):
            return const(len(v.items))
        if isinstance(v, K) and isinstance(v.v, str):
            return const(len(v.v))
        if isinstance(v, Rng):
            if v.st == ONE:
                return v.hi - v.lo
            if all(q.is_const() for q in (v.lo, v.hi, v.st)):
                return const(len(range(int(v.lo.const()), int(v.hi.const()), int(v.st.const()))))
            return fn("len", K(("rng", str(v.lo), str(v.hi), str(v.st))), pos="0+", dim=())
        if isinstance(v, IterV):
            if all(s[0] == "one" for s in v.segs):
                r = ZERO
                for s in v.segs:
                    r = r + alg.boolnum(s[1])
                return r
            return self.opq("len")
        c = st.cell(v)
        if isinstance(c, Lst):
            if c.concrete():
                return const(len(c.ent))
            if all(len(e) == 2 for e in c.ent):
                s = ZERO
                for e in c.ent:
                    s = s + alg.boolnum(e[0])
                return s
            return fn("len", K(("lst", v.id, len(c.ent))), pos="0+", dim=())
        if isinstance(c, Arr):
            return const(c.shape[0])
        if isinstance(c, Fld):
            return c.n if c.n is not None else fn("len", K(v.id), dim=())
        if isinstance(c, Sym):
            n = c.shape[0]
            return n if isinstance(n, Poly) else const(n)
        if isinstance(c, Dct) and not c.open:
            if it_undef(self.it, c):
                r = ZERO
                for x in c.items.values():
                    r = r + alg.boolnum(self.defined(x))
                return r
            return const(len(c.items))
        if isinstance(v, (Poly, Cond)) or isinstance(c, Lst) and c.kind == "iter":
            raise_raised("TypeError")
        if isinstance(c, Obj) and c.cls is not None:
            if c.cls.is_namedtuple:
                return const(len(c.cls.fields))
            m = self.it.prog.find_method(c.cls, "__len__")
            if m:
                return self.it.call_info(m, st, [], {}, selfv=v)
        if isinstance(v, Opq):
            return fn("len", K((v.tag, v.id)), pos="0+", dim=())
        return self.opq("len")

    def b_range(self, args, kw, st):
        a = [self.it.num(x, st) for x in args]
        if len(a) == 1:
            return Rng(ZERO, a[0], ONE)
        if len(a) == 2:
            return Rng(a[0], a[1], ONE)
        return Rng(*a)

    def _segs(self, v, st):
        return self.it.segments(v, st)

    def b_zip(self, args, kw, st):
        segs = [self._segs(a, st) for a in args]
        inf = [self.endless(x) for x in segs]
        n = min((len(x) for x, g in zip(segs, inf) if g is None), default=0)
        segs = [x if g is None else [("one", TRUE, g(i)) for i in range(n)] for x, g in zip(segs, inf)]
        for a, g in zip(args, inf):
            if g is not None:
                self.it.havoc_value(a, st)
        if kw and self.it.truth(kw.get("strict", FALSE), st).k != "F" and len({len(x) for x in segs}) > 1:
            if all(all(e[0] == "one" and e[1].k == "T" for e in x) for x in segs):
                raise_raised("ValueError")
        conc = [all(x[0] == "one" and x[1].k == "T" for x in s) for s in segs]
        if all(conc):
            r = IterV([("one", TRUE, Tup([s[i][2] for s in segs])) for i in range(n)])
        elif all(len(s) == 1 and s[0][0] == "many" for s in segs):
            r = IterV([("many", ("zip",) + tuple(s[0][1] for s in segs), Tup([s[0][2] for s in segs]))])
        elif all(all(x[0] == "one" for x in s) for s in segs) and all([x[1] for x in s] == [x[1] for x in segs[0]] for s in segs):
            r = IterV([("one", x[1], Tup([s[i][2] for s in segs])) for i, x in enumerate(segs[0])])
        else:
            r = IterV([("many", ("zip", next(_vid)), Tup([self.opq("zip elem") for _ in args]))])
        r.stateful = True
        return r

    def endless(self, segs):
        """element i of an endless iterator (count, repeat), or None"""
        if segs and segs[-1][0] == "many" and isinstance(segs[-1][1], tuple) and segs[-1][1][0] in ("count", "repeat"):
            return lambda i: segs[i][2] if i < len(segs) - 1 else segs[-1][2]
        return None

    def b_reversed(self, args, kw, st):
        c = st.cell(args[0])
        if isinstance(c, Obj) and c.cls is not None:
            m = self.it.prog.find_method(c.cls, "__reversed__", "method")
            if m:
                return self.it.call_info(m, st, [], {}, selfv=args[0])
        segs = self._segs(args[0], st)
        if all(x[0] == "one" for x in segs):
            r = IterV(segs[::-1])
        elif len(segs) == 1:
            r = IterV(segs)
        else:
            r = IterV([("many", ("reversed", next(_vid)), self.opq("reversed elem"))])
        r.stateful = True
        return r

    def b_list(self, args, kw, st):
        if not args:
            return st.new(Lst())
        v = args[0]
        if isinstance(v, GV):
            return self.it.lift(v, st, lambda x, s: self.b_list([x], {}, s))
        return st.new(Lst([(s[1], s[2]) if s[0] == "one" else (s[1], s[3] if len(s) > 3 else TRUE, s[2]) for s in self._segs(v, st)]))

    def b_tuple(self, args, kw, st):
        if not args:
            return Tup([])
        segs = self._segs(args[0], st)
        if all(s[0] == "one" and s[1].k == "T" for s in segs):
            return Tup([s[2] for s in segs])
        return self.b_list(args, kw, st)

    def distinct(self, v, st):
        """a set: entries present in every case whose normal forms coincide are one
        element (first occurrence kept)"""
        c = st.cell(v)
        if not isinstance(c, Lst) or not c.concrete():
            return v
        out = []
        for x in c.values():
            dup = False
            for y in out:
                if isinstance(x, Poly) and isinstance(y, Poly):
                    dup = x is y or alg.equal(x, y)
                elif type(x) is type(y) and isinstance(x, (K, Tup, Ref)):
                    dup = x == y
                if dup:
                    break
            if not dup:
                out.append(x)
        return st.new(Lst([(TRUE, x) for x in out], "set"))

    def b_int(self, args, kw, st):
        if not args:
            return ZERO
        v = self.scalar(args[0], st)
        if isinstance(v, GV):
            return self.it.lift(v, st, lambda x, s: self.b_int([x], {}, s))
        if isinstance(v, Opq):
            v = v.as_num()
        if isinstance(v, Cond):
            return alg.boolnum(v)
        if isinstance(v, Poly):
            if v.is_const():
                return const(int(v.const()))
            if all(c.denominator == 1 for c in v.t.values()) and all(a.intlike and e > 0 for m in v.t for a, e in m):
                return v
            if len(v.t) == 1 and next(iter(v.t.values())) == 1:
                (m, c), = v.t.items()
                if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "fn" and m[0][0].name in ("trunc", "round", "floor", "ceil", "len"):
                    return v
            k = alg.int_bracket(v)
            if k is not None:
                return const(k[0])
            return fn("trunc", v)
        if isinstance(v, K) and len(args) == 1:
            if isinstance(v.v, str):
                try:
                    return const(int(v.v))
                except ValueError:
                    raise_raised("ValueError")
            raise_raised("TypeError")
        return self.opq("int")

    def b_float(self, args, kw, st):
        v = self.scalar(args[0], st) if args else ZERO
        if isinstance(v, (Poly, GV)):
            return v
        if isinstance(v, Cond):
            return alg.boolnum(v)
        if isinstance(v, Opq):
            return v.as_num()
        if isinstance(v, K):
            if isinstance(v.v, str):
                t = v.v.strip().lower()
                if t in ("inf", "+inf", "infinity"):
                    return self.INF
                if t == "-inf":
                    return -self.INF
                if t in ("nan", "+nan", "-nan"):
                    return opaque("nan")
                try:
                    return const(Fraction(t.replace("_", "")) if "/" not in t else _bad())
                except (ValueError, ZeroDivisionError):
                    raise_raised("ValueError")
            raise_raised("ValueError" if isinstance(v.v, str) else "TypeError")
        return self.opq("float")

    def b_bool(self, args, kw, st):
        return self.it.truth(args[0], st)

    def b_abs(self, args, kw, st):
        return self.map1(args[0], lambda p: alg.mkfn("abs", p), st)

    def b_sum(self, args, kw, st):
        tot = args[1] if len(args) > 1 else kw.get("start", ZERO)
        if not isinstance(tot, Poly):
            xs = self.seglist(args[0], st)
            if xs is None:
                return self.opq("sum")
            for x in xs:
                tot = self.binop(ast.Add(), tot, x, st)
            return tot
        segs = self._segs(args[0], st)
        if all(s[0] == "one" and s[1].k == "T" for s in segs) and any(isinstance(st.cell(s[2]), (Arr, Fld, Sym, Obj)) for s in segs):
            for s in segs:
                tot = self.binop(ast.Add(), tot, s[2], st)
            return tot
        for s in segs:
            if s[0] == "one":
                x = self.it.num(s[2], st)
                tot = tot + (x if s[1].k == "T" else alg.gamma(s[1], x, ZERO))
            else:
                x = self.it.num(s[2], st)
                g = s[3] if len(s) > 3 else TRUE
                tot = tot + fn("sum", K(("seg", s[1]) if _hashable(s[1]) else ("seg", str(s[1]))), alg.gamma(g, x, ZERO))
        return tot

    def b_any(self, args, kw, st):
        return self.quant(args[0], st, True)

    def b_all(self, args, kw, st):
        return self.quant(args[0], st, False)

    def quant(self, v, st, any_):
        c = st.cell(v)
        if isinstance(c, Fld):
            e = self.C(c.elem)
            if e.k in ("T", "F"):
                return e
            return ckey("any" if any_ else "all", e)
        segs = self._segs(v, st)
        out = []
        for s in segs:
            t = self.it.truth(s[2], st)
            if s[0] == "one":
                out.append(cand(s[1], t) if any_ else cor(cnot(s[1]), t))
            else:
                g = s[3] if len(s) > 3 else TRUE
                q = cand(g, t) if any_ else cor(cnot(g), t)
                out.append(q if q.k == ("F" if any_ else "T") else ckey("any" if any_ else "all", str(s[1]), q))
        return cor(*out) if any_ else cand(*out)

    def b_isinstance(self, args, kw, st):
        return self.isinst(args[0], args[1], st)

    def isinst(self, v, cls, st):
        it = self.it
        if isinstance(cls, Tup):
            return cor(*[self.isinst(v, c, st) for c in cls.items])
        if isinstance(v, GV):
            return cor(cand(v.c, self.isinst(v.a, cls, st)), cand(cnot(v.c), self.isinst(v.b, cls, st)))
        if isinstance(cls, ClsV):
            c = st.cell(v)
            if isinstance(c, Obj) and c.cls is not None:
                return cbool(it.prog.issub(c.cls, cls.info))
            if isinstance(v, Opq):
                if v.cls is not None:
                    return cbool(it.prog.issub(v.cls, cls.info))
                return ckey("isinst", v.tag, v.id, cls.info.name)
            if isinstance(v, Poly) and cls.info.is_enum:
                return ckey("isinst", str(v), cls.info.name)
            return FALSE
        name = cls.name.split(".")[-1] if isinstance(cls, Ext) else "?"
        c = st.cell(v)
        if isinstance(v, Opq):
            return ckey("isinst", v.tag, v.id, name)
        if name in ("list", "List", "MutableSequence"):
            return cbool(isinstance(c, Lst) and c.kind is None)
        if name in ("set", "frozenset", "Set", "AbstractSet", "MutableSet"):
            return cbool(isinstance(c, Lst) and c.kind == "set")
        if name in ("Iterator", "Generator"):
            return cbool(isinstance(c, Lst) and c.kind == "iter" or isinstance(v, IterV))
        if name == "NoneType":
            return cbool(v == NONE)
        if name == "Callable":
            return self.b_callable([v], {}, st)
        if name == "object":
            return TRUE
        if name == "type" and isinstance(v, ClsV):
            return TRUE
        if name in ("dict", "Mapping"):
            return cbool(isinstance(c, Dct))
        if name in ("Sequence", "Iterable", "Collection", "Sized", "Container"):
            if isinstance(c, (Arr, Fld, Sym, Dct)) or isinstance(c, Lst) and c.kind:
                return cbool(name != "Sequence" and not (isinstance(c, Lst) and c.kind == "iter" and name != "Iterable"))
            return cbool(isinstance(c, Lst) or isinstance(v, Tup) or isinstance(v, Rng) or isinstance(v, K) and isinstance(v.v, str))
        if name == "tuple":
            return cbool(isinstance(v, Tup) or isinstance(c, Obj) and c.cls is not None and c.cls.is_namedtuple)
        if name == "str":
            return cbool(isinstance(v, K) and isinstance(v.v, str))
        if name == "ndarray":
            return cbool(isinstance(c, (Arr, Fld, Sym)))
        if name == "bool":
            return cbool(isinstance(v, Cond))
        if name in ("int", "float", "Number", "integer", "floating", "Real", "number"):
            if isinstance(v, Poly):
                if name in ("float", "floating") and v.is_const() and v.const().denominator == 1:
                    return ckey("isinst", str(v), name)
                if name in ("int", "integer"):
                    if v.is_const():
                        return cbool(v.const().denominator == 1)
                    if not all(a.intlike for a in v.atoms()):
                        return FALSE
                    return TRUE
                if name in ("float", "floating"):
                    return cbool(not all(a.intlike for a in v.atoms()) or v.is_const())
                return TRUE
            if isinstance(v, Cond):
                return cbool(name in ("int", "Number", "Real"))
            return FALSE
        if name in ("Path", "PathLike"):
            return FALSE
        if isinstance(v, (Poly, K, Tup)) or c is not None:
            return ckey("isinst", str(v)[:40], name)
        return copaque("isinst")

    def b_setattr(self, args, kw, st):
        v, a, x = args
        if isinstance(a, K):
            self.it.setattr(v, a.v, x, st)
            return NONE
        return NONE

    def b_str(self, args, kw, st):
        v = args[0] if args else K("")
        if isinstance(v, K):
            return K(str(v.v))
        if isinstance(v, GV):
            return self.it.lift(v, st, lambda x, s: self.b_str([x], {}, s))
        c = st.cell(v)
        if isinstance(c, Obj) and c.cls is not None:
            m = self.it.prog.find_method(c.cls, "__str__", "method") or self.it.prog.find_method(c.cls, "__repr__", "method")
            if m:
                return self.it.call_info(m, st, [], {}, selfv=v)
        return self.fmt(v, "", st)

    def b_repr(self, args, kw, st):
        c = st.cell(args[0])
        if isinstance(c, Obj) and c.cls is not None:
            m = self.it.prog.find_method(c.cls, "__repr__", "method")
            if m:
                return self.it.call_info(m, st, [], {}, selfv=args[0])
        return self.fmt(args[0], "", st, "r")

    def b_print(self, args, kw, st):
        return NONE

    def b_round(self, args, kw, st):
        if len(args) == 1:
            return self.map1(args[0], lambda p: const(round(p.const())) if p.is_const() else alg.mkfn("round", p), st)
        if args[1] == NONE:
            return self.b_round(args[:1], kw, st)
        return self._round(args[0], args[1], st)

    def b_slice(self, args, kw, st):
        a = [None if x == NONE else x for x in args]
        if len(a) == 1:
            return SliceV(None, a[0], None)
        return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)

    def b_divmod(self, args, kw, st):
        p, q = self.it.num(args[0], st), self.it.num(args[1], st)
        return Tup([alg.mkfn("floor", p / q), self.mod(p, q)])

    # numpy constructors
    def shape_of(self, v, st):
        if isinstance(v, Poly):
            return [v]
        if isinstance(v, Tup):
            return list(v.items)
        c = st.cell(v)
        if isinstance(c, Lst) and c.concrete():
            return c.values()
        if isinstance(v, Opq):
            return [v.as_num()]
        raise_unsup("shape")

    def full(self, shape, val, st, name="zeros"):
        dims = [self.cidx(s) if isinstance(s, Poly) else None for s in shape]
        if all(d is not None for d in dims):
            n = 1
            for d in dims:
                n *= d
            if n <= (200 if len(dims) == 1 else 4096):
                return st.new(Arr(dims, [val] * n))
        shape = [s if isinstance(s, Poly) else self.it.num(s, st) for s in shape]
        if len(shape) == 1:
            hook = self.it.__dict__.get("vec_is_sym")
            if hook and hook(shape[0]):
                return st.new(Sym(shape, f"{name}{next(_vid)}", init=val))
            return st.new(Fld(val, None, {}, shape[0]))
        return st.new(Sym(shape, f"{name}{next(_vid)}", init=val))

    def n_zeros(self, args, kw, st):
        return self.full(self.shape_of(args[0] if args else kw["shape"], st), ZERO, st)

    def n_ones(self, args, kw, st):
        return self.full(self.shape_of(args[0], st), ONE, st)

    def n_empty(self, args, kw, st):
        return self.full(self.shape_of(args[0], st), opaque("empty"), st)

    def n_full(self, args, kw, st):
        return self.full(self.shape_of(args[0], st), self.it.num(args[1] if len(args) > 1 else kw["fill_value"], st), st)

    def n_eye(self, args, kw, st):
        n = self.cidx(args[0])
        if n is None:
            return self.opq("eye")
        return st.new(Arr((n, n), [ONE if i == j else ZERO for i in range(n) for j in range(n)]))

    n_identity = n_eye

    def like(self, v, val, st):
        c = st.cell(v)
        if isinstance(c, Arr):
            return st.new(Arr(c.shape, [val] * len(c.data)))
        if isinstance(c, Fld):
            return st.new(Fld(val, c.st, {}, c.n))
        if isinstance(c, Sym):
            if len(c.shape) == 1:
                return st.new(Sym(c.shape, f"like{next(_vid)}", init=val))
            return st.new(Sym(c.shape, f"like{next(_vid)}", init=val))
        if isinstance(v, Poly):
            return val
        a = self.to_arr(v, st)
        if isinstance(a, Arr):
            return st.new(Arr(a.shape, [val] * len(a.data)))
        return self.opq("like")

    def n_zeros_like(self, args, kw, st):
        return self.like(args[0], ZERO, st)

    def n_ones_like(self, args, kw, st):
        return self.like(args[0], ONE, st)

    def n_full_like(self, args, kw, st):
        return self.like(args[0], self.it.num(args[1], st), st)

    def n_empty_like(self, args, kw, st):
        return self.like(args[0], opaque("empty"), st)

    def n_array(self, args, kw, st):
        v = args[0]
        if isinstance(v, GV):
            return self.it.lift(v, st, lambda x, s: self.n_array([x], kw, s))
        c = self.to_arr(v, st)
        if c is None:
            l = st.cell(v)
            if isinstance(l, Lst):
                return st.new(l.copy())
            return self.opq("array")
        return st.new(c)

    def n_asarray(self, args, kw, st):
        c = st.cell(args[0])
        if isinstance(c, (Arr, Fld, Sym)):
            return args[0]
        return self.n_array(args, kw, st)

    n_asfarray = n_ascontiguousarray = n_asarray

    def n_atleast_1d(self, args, kw, st):
        v = args[0]
        if isinstance(v, GV):
            return self.it.lift(v, st, lambda x, s: self.n_atleast_1d([x], kw, s))
        c = st.cell(v)
        if isinstance(c, Arr) and c.shape == ():
            return st.new(Arr((1,), c.data))
        if isinstance(v, Poly):
            return st.new(Arr((1,), [v]))
        return self.n_asarray(args, kw, st)

    def n_copy(self, args, kw, st):
        c = st.cell(args[0])
        if c is not None:
            return st.new(c.copy())
        return args[0]

    n_copy_copy = n_copy

    def n_deepcopy(self, args, kw, st):
        memo = {}

        def rec(v):
            if isinstance(v, Ref):
                if v.id in memo:
                    return memo[v.id]
                c = st.cell(v).copy()
                r = st.new(c)
                memo[v.id] = r
                if isinstance(c, Obj):
                    c.attrs = {k: rec(x) for k, x in c.attrs.items()}
                elif isinstance(c, Lst):
                    c.ent = [e[:-1] + (rec(e[-1]),) for e in c.ent]
                elif isinstance(c, Dct):
                    c.items = {k: rec(x) for k, x in c.items.items()}
                return r
            if isinstance(v, Tup):
                return Tup([rec(x) for x in v.items])
            if isinstance(v, GV):
                return GV(v.c, rec(v.a), rec(v.b))
            return v

        return rec(args[0])

    n_copy_deepcopy = n_deepcopy

    def n_arange(self, args, kw, st):
        r = self.b_range(args, kw, st)
        if r.lo.is_const() and r.hi.is_const() and r.st.is_const():
            out, x = [], r.lo.const()
            while x < r.hi.const() and len(out) < 512:
                out.append(const(x))
                x += r.st.const()
            return st.new(Arr((len(out),), out))
        k = sym(f"k{next(_vid)}", "0+", dim=(), intlike=True)
        stn = Station(k, ZERO, None, r.hi - r.lo, "arange")
        if r.st == ONE:
            stn.hi = r.hi - r.lo - ONE
            return st.new(Fld(r.lo + k if r.lo.t else k, stn, {}, r.hi - r.lo))
        return st.new(Fld(r.lo + k * r.st, stn, {}, None))

    def n_linspace(self, args, kw, st):
        a, b = self.it.num(args[0], st), self.it.num(args[1], st)
        n = args[2] if len(args) > 2 else kw.get("num", const(50))
        n = self.it.num(n, st)
        x = sym(f"x{next(_vid)}", None)
        at = next(iter(x.atoms()))
        try:
            at.dim = alg.dim_of(b)
        except (alg.DimError, alg.DimUnknown):
            pass
        return st.new(Fld(x, Station(x, a, b, n), {0: a, -1: b}, n))

    def n_concatenate(self, args, kw, st):
        segs = self._segs(args[0], st)
        parts = []
        if segs and all(s[0] == "one" and s[1].k == "T" for s in segs):
            cs = [self.cell_of(s[2], st) for s in segs]
            if all(isinstance(c, (Fld, Cat)) for c in cs):
                fl = [q for c in cs for q in (c.parts if isinstance(c, Cat) else [c])]
                return st.new(Cat(fl)) if len(fl) > 1 else st.new(fl[0].copy())
        for s in segs:
            if s[0] != "one" or s[1].k != "T":
                return self.opq("concat")
            a = self.to_arr(s[2], st)
            if not isinstance(a, Arr):
                return self.opq("concat")
            parts.append(a)
        if all(len(p.shape) == 1 for p in parts):
            d = [x for p in parts for x in p.data]
            return st.new(Arr((len(d),), d))
        return self.opq("concat")

    n_hstack = n_concatenate

    def n_append(self, args, kw, st):
        return self.n_concatenate([Tup([args[0], st.new(self.to_arr(args[1], st)) if isinstance(args[1], Poly) is False else st.new(Arr((1,), [args[1]]))])], {}, st)

    def n_insert(self, args, kw, st):
        a = self.to_arr(args[0], st)
        i = self.cidx(args[1]) if isinstance(args[1], Poly) else None
        if isinstance(a, Arr) and i is not None and isinstance(args[2], Poly):
            d = list(a.data)
            d.insert(i, args[2])
            return st.new(Arr((len(d),), d))
        return self.opq("insert")

    def _order(self, c):
        """indices sorting 1-d Arr c ascending (stable) when decidable, else None"""
        vals = [self.P(x) for x in c.data]
        out = []
        for i, v in enumerate(vals):
            k = len(out)
            for j, o in enumerate(out):
                w = vals[o]
                s = 0 if alg.equal(v, w) else alg.sign_cleared(v - w)
                if s == -1 or s == -0.5:
                    k = j
                    break
                if s is None:
                    return None
            out.insert(k, i)
        return out

    def n_unique(self, args, kw, st):
        a = self.to_arr(args[0], st)
        if not isinstance(a, Arr) or any(k not in ("return_index", "return_inverse", "return_counts") for k in kw) or len(args) > 1:
            return self.opq("unique")
        a = Arr((len(a.data),), a.data)
        o = self._order(a)
        if o is None:
            return self.opq("unique")
        groups = []
        for i in o:
            v = self.P(a.data[i])
            if groups:
                w = self.P(a.data[groups[-1][0]])
                if alg.equal(v, w):
                    groups[-1].append(i)
                    continue
                if alg.sign_cleared(v - w) != 1:
                    return self.opq("unique")
            groups.append([i])
        mk = lambda xs: st.new(Arr((len(xs),), xs))
        out = [mk([self.P(a.data[g[0]]) for g in groups])]
        on = lambda k: k in kw and kw[k] in (TRUE, K(True))
        if on("return_index"):
            out.append(mk([const(min(g)) for g in groups]))
        if on("return_inverse"):
            out.append(mk([const(next(j for j, g in enumerate(groups) if i in g)) for i in range(len(a.data))]))
        if on("return_counts"):
            out.append(mk([const(len(g)) for g in groups]))
        return out[0] if len(out) == 1 else Tup(out)

    def _sort2(self, c, args, kw, st, values):
        """argsort / sort of a 2-d array along an axis"""
        ax = self._axis(args, kw) if (len(args) > 1 or "axis" in kw) else -1
        if ax not in (0, 1, -1, -2):
            return None
        r, k = c.shape
        lanes = [[self.P(c.at(i, j)) for i in range(r)] for j in range(k)] if ax in (0, -2) else [[self.P(c.at(i, j)) for j in range(k)] for i in range(r)]
        out = []
        for v in lanes:
            o = self._order(Arr((len(v),), v))
            if o is None:
                return None
            out.append([v[i] if values else const(i) for i in o])
        if ax in (0, -2):
            return st.new(Arr((r, k), [out[j][i] for i in range(r) for j in range(k)]))
        return st.new(Arr((r, k), [x for v in out for x in v]))

    def n_argsort(self, args, kw, st):
        a = self.to_arr(args[0], st)
        if isinstance(a, Arr) and len(a.shape) == 2 and not set(kw) - {"axis", "kind"}:
            v = self._sort2(a, args, kw, st, False)
            if v is not None:
                return v
        if isinstance(a, Arr) and len(a.shape) == 1:
            o = self._order(a)
            if o is not None:
                return st.new(Arr((len(o),), [const(i) for i in o]))
        return self.opq("argsort")

    def n_sort(self, args, kw, st):
        a = self.to_arr(args[0], st)
        if isinstance(a, Arr) and len(a.shape) == 2 and not set(kw) - {"axis", "kind"}:
            v = self._sort2(a, args, kw, st, True)
            if v is not None:
                return v
        if isinstance(a, Arr) and len(a.shape) == 1:
            o = self._order(a)
            if o is not None:
                return st.new(Arr((len(o),), [a.data[i] for i in o]))
        return self.opq("sort")

    def n_interp(self, args, kw, st):
        """piecewise-linear interpolation over explicit, decidably ordered stations"""
        xp, fp = self.to_arr(args[1], st), self.to_arr(args[2], st)
        if not isinstance(xp, Arr) or not isinstance(fp, Arr) or kw or len(args) > 3 or not xp.data:
            return self.opq("interp")
        X, F = [self.P(v) for v in xp.data], [self.P(v) for v in fp.data]
        if len(X) != len(F):
            return self.opq("interp")
        # numpy: at a repeated abscissa the last of the repeated values holds
        flat = [alg.equal(u, v) for u, v in zip(X, X[1:])]
        for (u, v), z in zip(zip(X, X[1:]), flat):
            if not z and alg.sign_cleared(v - u) != 1:
                return self.opq("interp")

        def f(x):
            r = F[-1]
            for i in reversed(range(len(X) - 1)):
                if flat[i]:
                    continue
                seg = F[i] + (F[i + 1] - F[i]) * (x - X[i]) / (X[i + 1] - X[i])
                r = alg.gamma(alg.cgt(X[i + 1] - x), seg, r)
            return alg.gamma(alg.cgt(X[0] - x), F[0], r)

        return self.map1(args[0], f, st)

    def _accumulate(self, args, kw, st, name):
        a = self.to_arr(args[0], st)
        ax = args[1] if len(args) > 1 else kw.get("axis", ZERO)
        ax = self.cidx(ax) if isinstance(ax, Poly) else None
        if not isinstance(a, Arr) or len(a.shape) > 2 or set(kw) - {"axis"} or len(args) > 2 or ax is None or not -len(a.shape) <= ax < len(a.shape):
            return self.opq("accumulate")
        if len(a.shape) == 2:
            r, c = a.shape
            out = [None] * (r * c)
            for i in range(r):
                for j in range(c):
                    p = (i - 1, j) if ax % 2 == 0 else (i, j - 1)
                    v = self.P(a.data[i * c + j])
                    out[i * c + j] = v if min(p) < 0 else alg.mkfn(name, out[p[0] * c + p[1]], v)
            return st.new(Arr(a.shape, out))
        out = []
        for v in a.data:
            v = self.P(v)
            out.append(v if not out else alg.mkfn(name, out[-1], v))
        return st.new(Arr(a.shape, out))

    def n_numpy_maximum_accumulate(self, args, kw, st):
        return self._accumulate(args, kw, st, "max")

    def n_numpy_minimum_accumulate(self, args, kw, st):
        return self._accumulate(args, kw, st, "min")

    def n_numpy_add_accumulate(self, args, kw, st):
        return self.n_cumsum(args, kw, st)

    def n_searchsorted(self, args, kw, st):
        a = self.to_arr(args[0], st)
        side = kw.get("side", args[2] if len(args) > 2 else K("left"))
        if not isinstance(a, Arr) or not isinstance(side, K) or set(kw) - {"side"}:
            return self.opq("searchsorted")
        X = [self.P(v) for v in a.data]

        def f(x):
            n = ZERO
            for v in X:
                n = n + alg.boolnum(alg.cgt(x - v) if side.v == "left" else alg.cge(x - v))
            return n

        return self.map1(args[1], f, st)

    def _stackparts(self, v, st):
        c0 = st.cell(v)
        if isinstance(c0, Arr) and len(c0.shape) > 1:
            n = c0.shape[0]
            w = len(c0.data) // n if n else 0
            return [Arr(c0.shape[1:], c0.data[i * w : (i + 1) * w]) for i in range(n)]
        segs = self._segs(v, st)
        out = []
        for s in segs:
            if s[0] != "one" or s[1].k != "T":
                return None
            a = self.to_arr(s[2], st)
            if not isinstance(a, Arr):
                return None
            out.append(a)
        return out or None

    def n_stack(self, args, kw, st):
        ps = self._stackparts(args[0], st)
        ax = self.cidx(kw["axis"]) if "axis" in kw else (self.cidx(args[1]) if len(args) > 1 else 0)
        if not ps or any(p.shape != ps[0].shape for p in ps) or ax is None:
            return self.opq("stack")
        if ax == 0:
            return st.new(Arr((len(ps),) + ps[0].shape, [d for p in ps for d in p.data]))
        if ax in (1, -1) and len(ps[0].shape) == 1:
            n = ps[0].shape[0]
            return st.new(Arr((n, len(ps)), [p.data[i] for i in range(n) for p in ps]))
        return self.opq("stack")

    def n_vstack(self, args, kw, st):
        ps = self._stackparts(args[0], st)
        if not ps:
            return self.opq("vstack")
        rows, w = [], None
        for p in ps:
            if len(p.shape) not in (1, 2):
                return self.opq("vstack")
            k = p.shape[-1]
            if w not in (None, k):
                return self.opq("vstack")
            w = k
            rows += p.data
        return st.new(Arr((len(rows) // w if w else len(ps), w), rows))

    def n_column_stack(self, args, kw, st):
        ps = self._stackparts(args[0], st)
        if not ps or any(len(p.shape) != 1 or p.shape != ps[0].shape for p in ps):
            return self.opq("column_stack")
        n = ps[0].shape[0]
        return st.new(Arr((n, len(ps)), [p.data[i] for i in range(n) for p in ps]))

    def _reduce_axis(self, c, ax, f):
        """apply f to each 1-d lane along axis ax of a 2-d array"""
        r, k = c.shape
        if ax in (1, -1):
            return Arr((r,), [f([self.P(c.at(i, j)) for j in range(k)]) for i in range(r)])
        return Arr((k,), [f([self.P(c.at(i, j)) for i in range(r)]) for j in range(k)])

    def _axis(self, args, kw):
        a = kw.get("axis", args[1] if len(args) > 1 else None)
        if a is None or a is NONE:
            return None
        return self.cidx(a)

    def _argext(self, args, kw, st, sgn):
        c = self.cell_of(args[0], st)
        if not isinstance(c, Arr) or set(kw) - {"axis"} or not c.data:
            return self.opq("argext")

        def f(vals):
            best, bi = vals[0] * const(sgn), ZERO
            for i, v in enumerate(vals[1:], 1):
                v = v * const(sgn)
                g = alg.cgt(v - best)
                bi = alg.gamma(g, const(i), bi)
                best = alg.gamma(g, v, best)
            return bi

        ax = self._axis(args, kw)
        if ax is None or len(c.shape) == 1:
            return f([self.P(v) for v in c.data])
        if len(c.shape) == 2:
            return st.new(self._reduce_axis(c, ax, f))
        return self.opq("argext")

    def n_argmax(self, args, kw, st):
        return self._argext(args, kw, st, 1)

    def n_argmin(self, args, kw, st):
        return self._argext(args, kw, st, -1)

    def m_argmax(self, obj, args, kw, st):
        return self._argext([obj] + list(args), kw, st, 1)

    def m_argmin(self, obj, args, kw, st):
        return self._argext([obj] + list(args), kw, st, -1)

    def n_take_along_axis(self, args, kw, st):
        c, ix = self.cell_of(args[0], st), self.cell_of(args[1], st)
        ax = kw.get("axis", args[2] if len(args) > 2 else None)
        ax = self.cidx(ax) if ax is not None else None
        if not isinstance(c, Arr) or not isinstance(ix, Arr) or len(c.shape) != 2 or len(ix.shape) != 2 or ax not in (0, 1):
            return self.opq("take")
        out = []
        for i in range(ix.shape[0]):
            for j in range(ix.shape[1]):
                k = self.P(ix.at(i, j))
                v = None
                for m in reversed(range(c.shape[ax])):
                    e = self.P(c.at(m, j) if ax == 0 else c.at(i, m))
                    v = e if v is None else alg.gamma(alg.ceq(k - const(m)), e, v)
                out.append(v)
        return st.new(Arr(ix.shape, out))

    def b_sorted_num(self, vals):
        """vals in ascending order when every pairwise sign is known, else None"""
        out = []
        for v in vals:
            k = len(out)
            for i, o in enumerate(out):
                s = alg.sign(v - o) if not alg.equal(v, o) else 0
                if s in (-1, -0.5):
                    k = i
                    break
                if s is None:
                    return None
            out.insert(k, v)
        return out

    def n_nonzero(self, args, kw, st):
        a = self.to_arr(args[0], st)
        if isinstance(a, Arr) and len(a.shape) == 1:
            return Tup([self.n_flatnonzero(args, kw, st)])
        if isinstance(a, Arr) and len(a.shape) == 2:
            out = []
            for i, x in enumerate(a.data):
                c = x if isinstance(x, Cond) else alg.cnot(alg.ceq(self.P(x)))
                if c.k not in ("T", "F"):
                    return Tup([self.opq("nonzero"), self.opq("nonzero")])
                if c.k == "T":
                    out.append(divmod(i, a.shape[1]))
            return Tup([st.new(Arr((len(out),), [const(p[k]) for p in out])) for k in (0, 1)])
        return Tup([self.opq("nonzero")])

    def n_flatnonzero(self, args, kw, st):
        a = self.to_arr(args[0], st)
        if isinstance(a, Arr):
            out = []
            for i, x in enumerate(a.data):
                c = x if isinstance(x, Cond) else alg.cnot(alg.ceq(self.P(x)))
                v = {"T": True, "F": False}.get(c.k)
                if v is None:
                    return self.opq("flatnonzero")
                if v:
                    out.append(const(i))
            return st.new(Arr((len(out),), out))
        return self.opq("flatnonzero")


    # elementwise
    def n_abs(self, args, kw, st):
        return self.map1(args[0], lambda p: alg.mkfn("abs", p), st)

    n_absolute = n_fabs = n_abs

    def n_sqrt(self, args, kw, st):
        return self.map1(args[0], lambda p: alg.mkfn("sqrt", p), st)

    def n_sign(self, args, kw, st):
        return self.map1(args[0], lambda p: alg.mkfn("sgn", p), st)

    def n_ceil(self, args, kw, st):
        return self.map1(args[0], lambda p: alg.mkfn("ceil", p), st)

    def n_floor(self, args, kw, st):
        return self.map1(args[0], lambda p: const(_log10_floor(p)) if _log10_floor(p) is not None else alg.mkfn("floor", p), st)

    def n_round(self, args, kw, st):
        return self._round(args[0], args[1] if len(args) > 1 else kw.get("decimals", ZERO), st)

    def _round(self, v, nd, st):
        d = self.cidx(nd) if isinstance(nd, Poly) else None

        def f(p):
            if not p.is_const():
                return alg.mkfn("round", p) if d == 0 else fn("round", p)
            if d is None:
                return fn("round", p)
            if d >= 6 or p.const().denominator == 1 and d >= 0:
                return p          # at the accuracy of the arithmetic itself
            return const(round(p.const(), d) if d else round(p.const()))
        return self.map1(v, f, st)

    def n_maximum(self, args, kw, st):
        return self.bin2(args[0], args[1], lambda p, q: alg.mkfn("max", self.P(p), self.P(q)), st)

    def n_minimum(self, args, kw, st):
        return self.bin2(args[0], args[1], lambda p, q: alg.mkfn("min", self.P(p), self.P(q)), st)

    n_fmax, n_fmin = n_maximum, n_minimum

    def n_power(self, args, kw, st):
        return self.binop(ast.Pow(), args[0], args[1], st)

    def n_multiply(self, args, kw, st):
        return self.binop(ast.Mult(), args[0], args[1], st)

    def n_add(self, args, kw, st):
        return self.binop(ast.Add(), args[0], args[1], st)

    def n_subtract(self, args, kw, st):
        return self.binop(ast.Sub(), args[0], args[1], st)

    def n_divide(self, args, kw, st):
        w, o = kw.get("where"), kw.get("out")
        if w is None and o is None:
            return self.binop(ast.Div(), args[0], args[1], st)
        if w is None:
            w = TRUE
        a, b, m = self.to_arr(args[0], st), self.to_arr(args[1], st), self.to_arr(w, st) if not isinstance(w, Cond) else None
        if o is None or not isinstance(a, Arr) or not isinstance(b, Arr) or (m is None and not isinstance(w, Cond)):
            return self.opq("divide")
        oc = st.cell(o)
        if not isinstance(oc, Arr):
            return self.opq("divide")
        t = self.bcast(a, b, lambda p, q: Tup([p, q]))
        if m is not None:
            t = self.bcast(t, m, lambda p, c: Tup([*p.items, c]))
        t = self.bcast(t, oc, lambda p, x: Tup([*p.items, x]))
        if t.shape != oc.shape:
            return self.opq("divide")
        out = []
        for e in t.data:
            c = w if m is None else self.C(e.items[2])
            old = self.P(e.items[-1])
            if c.k == "F":
                out.append(old)
                continue
            q = self.P(e.items[1])
            if c.k == "T":
                out.append(self.P(e.items[0]) / q)
                continue
            try:
                out.append(alg.gamma(c, self.P(e.items[0]) / q, old))
            except alg.DivZero:
                out.append(alg.gamma(c, opaque("divide by zero"), old))
        st.w(o).data = out
        return o

    def n_negative(self, args, kw, st):
        return self.map1(args[0], lambda p: -p, st)

    def n_heaviside(self, args, kw, st):
        return self.bin2(args[0], args[1], lambda p, q: alg.mkfn("heav", self.P(p), self.P(q)), st)

    def n_clip(self, args, kw, st):
        lo = args[1] if len(args) > 1 else kw.get("a_min", NONE)
        hi = args[2] if len(args) > 2 else kw.get("a_max", NONE)
        return self._clip(args[0], lo, hi, st)

    def _clip(self, v, lo, hi, st):
        def f(p):
            r = p
            if not (lo is None or isinstance(lo, K)):
                l = self.it.num(lo, st)
                r = alg.mkfn("pos", r - l) + l if l == ZERO else alg.mkfn("max", r, l)
            if not (hi is None or isinstance(hi, K)):
                r = alg.mkfn("min", r, self.it.num(hi, st))
            return r

        return self.map1(v, f, st)

    def n_where(self, args, kw, st):
        if len(args) == 1:
            return self.n_nonzero(args, kw, st)
        c, a, b = args
        f3 = self.bin2
        if isinstance(c, Cond):
            return self.bin2(a, b, lambda p, q: alg.gamma(c, self.P(p), self.P(q)), st)
        cc = st.cell(c)
        if isinstance(cc, Fld):
            x, y = self.cell_of(a, st), self.cell_of(b, st)
            t = self.fld2(x, y, lambda p, q: Tup([p, q])) if isinstance(x, Fld) or isinstance(y, Fld) else Fld(Tup([x.data[0], y.data[0]]))
            e = alg.gamma(self.C(cc.elem), self.P(t.elem.items[0]), self.P(t.elem.items[1]))
            patch = {}
            for k in set(t.patch) | set(cc.patch):
                tt = t.patch.get(k) or t.elem
                patch[k] = alg.gamma(self.C(self.it.fld_at(cc, k)), self.P(tt.items[0]), self.P(tt.items[1]))
            return st.new(Fld(e, t.st or cc.st, patch, t.n if t.n is not None else cc.n))
        if isinstance(cc, Arr):
            x, y = self.cell_of(a, st), self.cell_of(b, st)
            if isinstance(x, Arr) and isinstance(y, Arr):
                t = self.bcast(x, y, lambda p, q: Tup([p, q]))
                r = self.bcast(cc, t, lambda c, t: alg.gamma(self.C(c), self.P(t.items[0]), self.P(t.items[1])))
                return self.mk(r, st)
        return self.opq("where")

    def n_isclose(self, args, kw, st):
        tols = [tol_size(x) for k, x in kw.items() if k in ("rtol", "atol")] + [tol_size(x) for x in args[2:4]]
        if getattr(self.it, "tol0", False) and all(t is not None and t <= Fraction(1, 10 ** 5) for t in tols):
            return self.bin2(args[0], args[1], lambda p, q: ceq(self.P(p) - self.P(q)), st)
        rt = as_const(args[2]) if len(args) > 2 else as_const(kw["rtol"]) if "rtol" in kw else Fraction(1, 10 ** 5)
        at = as_const(args[3]) if len(args) > 3 else as_const(kw["atol"]) if "atol" in kw else Fraction(1, 10 ** 8)

        def f(p, q):
            d = self.P(p) - self.P(q)
            if is_zero(d):
                return TRUE
            if rt is not None and at is not None and max(rt, at) > Fraction(1, 10 ** 5):
                # the documented definition |p - q| <= atol + rtol |q|
                return cge(const(at) + const(rt) * alg.mkfn("abs", self.P(q)) - alg.mkfn("abs", d))
            return ckey("isclose", d)
        return self.bin2(args[0], args[1], f, st)

    def n_allclose(self, args, kw, st):
        r = self.n_isclose(args, kw, st)
        return r if isinstance(r, Cond) else self.quant(r, st, False)

    def n_isfinite(self, args, kw, st):
        if isinstance(args[0], (Poly, Cond)) or isinstance(st.cell(args[0]), (Arr, Fld)):
            return self.map1c(args[0], lambda p: TRUE, st) if not isinstance(args[0], Cond) else TRUE
        return copaque("isfinite")

    def n_any(self, args, kw, st):
        return self.quant(args[0], st, True)

    def n_all(self, args, kw, st):
        return self.quant(args[0], st, False)

    def n_isscalar(self, args, kw, st):
        v = args[0]
        if isinstance(v, (Poly, Cond)) or isinstance(v, K) and isinstance(v.v, str):
            return TRUE
        if st.cell(v) is not None or isinstance(v, (Tup, K)):
            return FALSE
        return copaque("isscalar")

    def n_ndim(self, args, kw, st):
        v = args[0]
        if isinstance(v, (Poly, Cond, K)):
            return ZERO
        c = st.cell(v)
        if isinstance(c, (Arr, Sym)):
            return const(len(c.shape))
        if isinstance(c, Fld):
            return ONE
        a = self.to_arr(v, st)
        if isinstance(a, Arr):
            return const(len(a.shape))
        return self.opq("ndim")

    def n_size(self, args, kw, st):
        v = args[0]
        if isinstance(v, (Poly, Cond)):
            return ONE
        a = self.to_arr(v, st)
        if isinstance(a, Arr):
            return const(len(a.data))
        return self.opq("size")

    # reductions / linear algebra
    def n_sum(self, args, kw, st):
        v = args[0]
        c = self.cell_of(v, st)
        if isinstance(c, Arr) and "axis" not in kw and len(args) == 1:
            t = ZERO
            for x in c.data:
                t = t + self.P(x)
            return t
        if isinstance(c, Arr) and not set(kw) - {"axis"}:
            ax = self._axis(args, kw)
            if ax is None or len(c.shape) == 1:
                return sum((self.P(x) for x in c.data), ZERO)
            if len(c.shape) == 2:
                return st.new(self._reduce_axis(c, ax, lambda xs: sum(xs, ZERO)))
        if isinstance(c, Cat):
            t = ZERO
            for q in c.parts:
                t = t + self.fsum(q)
            return t
        if isinstance(c, Fld):
            return self.fsum(c)
        l = st.cell(v)
        if isinstance(l, Lst):
            return self.b_sum([v], {}, st)
        return self.opq("sum")

    def fsum(self, c):
        """sum over stations, linear normal form"""
        if c.st is not None and c.st.name == "gauss":
            return self.gauss_sum(c)
        t = self.grid_sum(c)
        if t is not None:
            return t
        out = ZERO
        tag = c.st.name if c.st is not None else "n"
        xs = c.st.x.syms() if c.st is not None else set()
        e = self.P(c.elem)
        for m, k in e.t.items():
            vm = tuple((a, p) for a, p in m if a.syms & xs or a.kind == "fn" and a.name in ("EIx", "w"))
            cm = tuple((a, p) for a, p in m if (a, p) not in vm)
            out = out + Poly({cm: k}) * fn("sum", K(("st", tag)), Poly({vm: Fraction(1)}))
        return out

    def grid_sum(self, c):
        """closed form of a sum over evenly spaced stations of a polynomial (None:
        not that form); end values stored apart enter as they are"""
        s = c.st
        if s is None or s.name not in ("x", "arange") or s.hi is None or s.n is None or c.n is None:
            return None
        e, N = self.P(c.elem), s.n
        xa = next(iter(s.x.atoms()))
        if any(xa in a.syms and a is not xa for m in e.t for a, _ in m) or any(a.kind != "sym" for a in e.atoms()):
            return None
        co = {}
        for m, k in e.t.items():
            p = sum((q for a, q in m if a is xa), 0)
            if p not in (0, 1, 2, 3):
                return None
            co[p] = co.get(p, ZERO) + Poly({tuple((a, q) for a, q in m if a is not xa): k})
        if set(c.patch) - {0, -1}:
            return None
        extra = c.n - N
        n = N - ONE
        S = [N, n * N / const(2), n * N * (const(2) * n + ONE) / const(6), (n * N / const(2)) ** 2]
        lo = s.lo
        h = ONE if s.name == "arange" else (s.hi - lo) / n
        tot = ZERO
        for p, k in co.items():
            for j in range(p + 1):
                tot = tot + k * const(math.comb(p, j)) * (lo ** (p - j) if p > j else ONE) * (h ** j if j else ONE) * S[j]
        at = lambda v: alg.subst(e, {s.x: v})
        if extra == ZERO:
            for k, v in c.patch.items():
                tot = tot - at(lo if k == 0 else s.hi) + self.P(v)
            return tot
        if extra == const(2) and set(c.patch) == {0, -1}:
            return tot + self.P(c.patch[0]) + self.P(c.patch[-1])
        return None

    # Gauss-Legendre nodes/weights: a sum linear in the weights is the exact
    # integral over [-1, 1] when the degree is within the rule's exactness.
    def n_leggauss(self, args, kw, st):
        n = self.it.num(args[0], st)
        x = sym(f"xi{next(_vid)}", None, dim=())
        w = sym(f"gw{next(_vid)}", "+", dim=())
        stn = Station(x, -ONE, ONE, n, "gauss")
        stn.w = w
        return Tup([st.new(Fld(x, stn, {}, n)), st.new(Fld(w, stn, {}, n))])

    def gauss_sum(self, c):
        e, x, w = self.P(c.elem), c.st.x, c.st.w
        wa = next(iter(w.atoms()))
        g = alg.diff(e, w)
        if wa in g.syms() or not alg.is_zero(e - g * w):
            return opaque("gauss-sum")
        xa = next(iter(x.atoms()))
        deg = max((k for m in g.t for a, k in m if a is xa), default=0)
        if any(xa in a.syms and a is not xa for m in g.t for a, _ in m):
            return opaque("gauss-sum")
        n = c.st.n
        if not n.is_const() or deg > 2 * n.const() - 1:
            return opaque("gauss-order")
        return alg.integral(g, x, -ONE, ONE)

    def n_prod(self, args, kw, st):
        c = self.cell_of(args[0], st)
        if isinstance(c, Arr):
            t = ONE
            for x in c.data:
                t = t * self.P(x)
            return t
        return self.opq("prod")

    def n_max(self, args, kw, st, name="max"):
        c = self.cell_of(args[0], st)
        if isinstance(c, Arr) and c.data and not (set(kw) - {"axis", "initial"}):
            extra = []
            if "initial" in kw:
                extra = [self.it.num(kw["initial"], st)]
            f = lambda xs: alg.mkfn(name, *(xs + extra)) if len(xs + extra) > 1 else xs[0]
            ax = self._axis(args, kw)
            if ax is None or len(c.shape) == 1:
                return f([self.P(x) for x in c.data])
            if len(c.shape) == 2:
                return st.new(self._reduce_axis(c, ax, f))
        return self.opq(name)

    def n_min(self, args, kw, st):
        return self.n_max(args, kw, st, "min")

    n_amax, n_amin = n_max, n_min

    def n_dot(self, args, kw, st):
        return self.matmul(args[0], args[1], st)

    n_matmul = n_dot

    def n_transpose(self, args, kw, st):
        c = st.cell(args[0])
        if isinstance(c, Arr):
            return self.transpose(args[0], st)
        return self.opq("T")

    def n_outer(self, args, kw, st):
        a, b = self.to_arr(args[0], st), self.to_arr(args[1], st)
        if isinstance(a, Arr) and isinstance(b, Arr):
            return st.new(Arr((len(a.data), len(b.data)), [self.P(x) * self.P(y) for x in a.data for y in b.data]))
        return self.opq("outer")

    def n_diag(self, args, kw, st):
        a = self.to_arr(args[0], st)
        if isinstance(a, Arr) and len(a.shape) == 1:
            n = a.shape[0]
            return st.new(Arr((n, n), [a.data[i] if i == j else ZERO for i in range(n) for j in range(n)]))
        if isinstance(a, Arr):
            return st.new(Arr((a.shape[0],), [a.at(i, i) for i in range(a.shape[0])]))
        return self.opq("diag")

    def n_inv(self, args, kw, st):
        c = self.cell_of(args[0], st)
        if isinstance(c, Arr) and len(c.shape) == 2:
            return st.new(self.inv(c))
        return self.opq("inv")

    def n_solve(self, args, kw, st):
        A, b = self.cell_of(args[0], st), self.cell_of(args[1], st)
        if isinstance(A, Arr) and isinstance(b, Arr) and A.shape[0] <= 4:
            i = st.new(self.inv(A))
            return self.matmul(i, st.new(b), st)
        return self.opq("solve")

    def n_ix_(self, args, kw, st):
        l = [self.int_list(a, st) for a in args]
        if len(l) == 2 and all(x is not None for x in l):
            return IxV(l[0], l[1])
        return self.opq("ix_")

    # quadrature over a station grid: modelled by the exact integral operator
    # (the discretisation of the grid is idealised)
    def _integ(self, args, kw, st, xpos=1):
        y = self.cell_of(args[0], st)
        xv = args[xpos] if len(args) > xpos else kw.get("x")
        if xv is NONE:
            xv = None
        if not isinstance(y, Fld):
            raise_unsup("quadrature of non-field")
        stn = y.st
        J = None
        if xv is not None:
            xc = self.cell_of(xv, st)
            if not isinstance(xc, Fld) or xc.st is None:
                raise_unsup("quadrature abscissa")
            stn = xc.st
            if y.st is not None and y.st is not stn:
                raise_unsup("different stations")
            J = alg.diff(self.P(xc.elem), stn.x)
        elif stn is not None:
            J = self.it.num(kw.get("dx", ONE), st)
            # a uniform spacing: the station symbol must count stations
            if stn.name != "arange":
                raise_unsup("dx on a non-counted grid")
        e = self.P(y.elem)
        if stn is None:
            if not e.t:
                return y, None, ZERO
            raise_unsup("quadrature without stations")
        try:
            F = alg.antideriv(e * J, stn.x)
        except alg.Unintegrable as ex:
            return y, stn, None
        return y, stn, F

    def n_cumulative_trapezoid(self, args, kw, st):
        y, stn, F = self._integ(args, kw, st)
        if stn is None:
            return st.new(Fld(ZERO, None, {}, y.n))
        if F is None:
            return st.new(Fld(opaque("cumint"), stn, {}, y.n))
        lo = stn.lo if stn.lo is not None else ZERO
        F0 = alg.subst(F, {stn.x: lo})
        ini = kw.get("initial")
        c0 = self.it.num(ini, st) if ini is not None and ini is not NONE else ZERO
        f = Fld(F - F0 + c0, stn, {}, y.n)
        return st.new(f)

    n_cumtrapz = n_cumulative_simpson = n_cumulative_trapezoid

    def n_simpson(self, args, kw, st):
        y, stn, F = self._integ(args, kw, st)
        if stn is None:
            return ZERO
        if F is None or stn.hi is None:
            return opaque("quad")
        lo = stn.lo if stn.lo is not None else ZERO
        return alg.subst(F, {stn.x: stn.hi}) - alg.subst(F, {stn.x: lo})

    n_trapezoid = n_trapz = n_simps = n_simpson

    def sampled(self, v, st):
        """explicit samples of an evenly spaced grid with a known number of points"""
        c = self.to_arr(v, st)
        if isinstance(c, Fld) and c.st is not None and c.st.lo is not None and c.st.hi is not None:
            n = as_const(c.st.n) if c.st.n is not None else None
            if n is not None and 1 < n <= 64 and set(c.patch) <= {0, -1}:
                n = int(n)
                xs = [c.st.lo + (c.st.hi - c.st.lo) * const(Fraction(i, n - 1)) for i in range(n)]
                return Arr((n,), [alg.subst(self.P(c.elem), {c.st.x: q}) for q in xs])
        return c

    def n_polyfit(self, args, kw, st):
        """least-squares polynomial through explicit samples: exact interpolation when
        the order is one less than the number of samples, the rational solution of the
        normal equations when the abscissae are numbers"""
        x, y = self.sampled(args[0], st), self.sampled(args[1], st)
        d = as_const(kw.get("deg", args[2] if len(args) > 2 else None))
        if not isinstance(x, Arr) or not isinstance(y, Arr) or d is None or d != int(d) or len(x.shape) != 1 or set(kw) - {"deg"}:
            return self.opq("polyfit")
        n, d = len(x.data), int(d)
        xs, ys = [self.P(q) for q in x.data], [self.P(q) for q in y.data]
        if d + 1 == n:
            dd = list(ys)                       # Newton divided differences
            for k in range(1, n):
                for i in range(n - 1, k - 1, -1):
                    dd[i] = (dd[i] - dd[i - 1]) / (xs[i] - xs[i - k])
            co = [dd[n - 1]]                    # ascending powers
            for i in range(n - 2, -1, -1):
                up = [ZERO] + co
                co = [u - xs[i] * c for u, c in zip(up, co + [ZERO])]
                co[0] = co[0] + dd[i]
            return st.new(Arr((n,), list(reversed(co))))
        if d + 1 < n and all(q.is_const() for q in xs):
            xf = [q.const() for q in xs]
            A = [[sum(q ** (i + j) for q in xf) for j in range(d + 1)] for i in range(d + 1)]
            b = [sum((const(q ** i) * v for q, v in zip(xf, ys)), ZERO) for i in range(d + 1)]
            for i in range(d + 1):              # positive definite: no pivoting needed
                pv = A[i][i]
                if pv == 0:
                    return self.opq("polyfit")
                for r in range(d + 1):
                    if r != i and A[r][i] != 0:
                        f = Fraction(A[r][i]) / pv
                        A[r] = [u - f * v for u, v in zip(A[r], A[i])]
                        b[r] = b[r] - const(f) * b[i]
            return st.new(Arr((d + 1,), [b[i] / const(A[i][i]) for i in range(d, -1, -1)]))
        return self.opq("polyfit")

    def n_polyval(self, args, kw, st):
        a = self.to_arr(args[0], st)
        if isinstance(a, Arr):
            def f(x):
                r = ZERO
                for c in a.data:
                    r = r * x + self.P(c)
                return r
            return self.map1(args[1], f, st)
        return self.opq("polyval")

    def n_polyint(self, args, kw, st):
        a = self.to_arr(args[0], st)
        if isinstance(a, Arr):
            n = len(a.data)
            return st.new(Arr((n + 1,), [self.P(c) / const(n - i) for i, c in enumerate(a.data)] + [ZERO]))
        return self.opq("polyint")

    def n_assert_equal(self, args, kw, st):
        return NONE

    # methods on builtin / numpy values
    def m_append(self, obj, args, kw, st):
        c = st.cell(obj)
        if isinstance(c, Lst):
            st.w(obj).ent.append((TRUE, args[0]))
        return NONE

    def m_extend(self, obj, args, kw, st):
        if isinstance(st.cell(obj), Lst):
            self.it.extend(obj, args[0], st)
        return NONE

    def m_insert(self, obj, args, kw, st):
        c = st.cell(obj)
        i = self.cidx(args[0]) if isinstance(args[0], Poly) else None
        if isinstance(c, Lst) and i is not None:
            st.w(obj).ent.insert(i, (TRUE, args[1]))
        elif isinstance(c, Lst):
            st.w(obj).ent = [(("ins", next(_vid)), TRUE, self.opq("ins"))]
        return NONE

    def m_clear(self, obj, args, kw, st):
        c = st.cell(obj)
        if isinstance(c, Lst):
            st.w(obj).ent = []
        elif isinstance(c, Dct):
            w = st.w(obj)
            w.items, w.open = {}, False
        return NONE

    def m_sort(self, obj, args, kw, st):
        c = st.cell(obj)
        if isinstance(c, Lst):
            st.w(obj).ent = st.cell(self.b_sorted([obj], kw, st)).ent
        return NONE

    def m_copy(self, obj, args, kw, st):
        c = st.cell(obj)
        if isinstance(c, Dct) and isinstance(c.tag, tuple) and c.tag[0] == "attrs":
            return st.new(Dct(c.items, c.open))
        return st.new(c.copy()) if c is not None else obj

    def m__asdict(self, obj, args, kw, st):
        c = st.cell(obj)
        if isinstance(c, Obj) and c.cls is not None:
            return st.new(Dct({K(f): c.attrs[f] for f, _ in c.cls.fields}))
        return self.opq("_asdict")

    def m_items(self, obj, args, kw, st):
        c = st.cell(obj)
        if isinstance(c, Dct) and not c.open:
            return IterV([("one", TRUE, Tup([k, v])) for k, v in c.items.items()])
        return IterV([("many", ("items", getattr(obj, "id", 0)), Tup([self.opq("key"), self.opq("val")]))])

    def m_values(self, obj, args, kw, st):
        c = st.cell(obj)
        if isinstance(c, Dct) and not c.open:
            return IterV([("one", TRUE, v) for v in c.items.values()])
        return IterV([("many", ("values", getattr(obj, "id", 0)), self.opq("val"))])

    def m_keys(self, obj, args, kw, st):
        c = st.cell(obj)
        if isinstance(c, Dct) and not c.open:
            return IterV([("one", TRUE, k) for k in c.items])
        return IterV([("many", ("keys", getattr(obj, "id", 0)), self.opq("key"))])

    def strm(self, obj, name, args):
        if isinstance(obj, K) and isinstance(obj.v, str) and all(isinstance(a, K) for a in args):
            r = getattr(obj.v, name)(*[a.v for a in args])
            if isinstance(r, bool):
                return cbool(r)
            if isinstance(r, list):
                return Tup([K(x) for x in r])
            return K(r)
        if isinstance(obj, Opq):
            cache = self.it.__dict__.setdefault("_strcache", {})
            k = (obj.id, name, repr(args))
            if k not in cache:
                cache[k] = Opq(f"{obj.tag}.{name}")
            return cache[k]
        return self.opq(name)

    def m_clip(self, obj, args, kw, st):
        lo = args[0] if args else kw.get("min", NONE)
        hi = args[1] if len(args) > 1 else kw.get("max", NONE)
        return self._clip(obj, lo, hi, st)

    def m_item(self, obj, args, kw, st):
        c = st.cell(obj)
        if isinstance(c, Arr) and len(c.data) == 1 and not args:
            return c.data[0]
        if isinstance(c, Arr) and args:
            if len(args) == 1 and isinstance(args[0], Poly):
                return self.getitem(st.new(Arr((len(c.data),), c.data)), args[0], st)
            return self.getitem(obj, Tup(list(args)) if len(args) > 1 else args[0], st)
        if isinstance(c, Arr):
            raise_raised("ValueError")
        if isinstance(obj, (Poly, Cond)):
            return obj
        return self.opq("item")

    def m_tolist(self, obj, args, kw, st):
        c = st.cell(obj)
        if isinstance(obj, (Poly, Cond)):
            return obj
        if isinstance(c, Arr):
            def rec(shape, data):
                if not shape:
                    return data[0]
                k = len(data) // shape[0] if shape[0] else 0
                return st.new(Lst([(TRUE, rec(shape[1:], data[i * k:(i + 1) * k])) for i in range(shape[0])]))
            return rec(c.shape, c.data)
        return self.opq("tolist")

    def m_reshape(self, obj, args, kw, st):
        c = st.cell(obj)
        if isinstance(c, Arr) and not kw:
            sh = list(args)
            if len(args) == 1 and not isinstance(args[0], Poly):
                sh = self.shape_of(args[0], st)
            dims = [self.cidx(a) if isinstance(a, Poly) else None for a in sh]
            if any(d is None for d in dims) or dims.count(-1) > 1:
                return self.opq("reshape")
            if -1 in dims:
                k = 1
                for d in dims:
                    k *= d if d != -1 else 1
                if k == 0 or len(c.data) % k:
                    raise_raised("ValueError")
                dims[dims.index(-1)] = len(c.data) // k
            k = 1
            for d in dims:
                k *= d
            if k != len(c.data):
                raise_raised("ValueError")
            return self.whole_view(obj, Arr(dims, c.data), st)
        return self.opq("reshape")

    def m_flatten(self, obj, args, kw, st):
        c = st.cell(obj)
        if isinstance(c, Arr) and not args and not kw:
            return st.new(Arr((len(c.data),), c.data))
        if isinstance(c, Fld):
            return st.new(c.copy())
        return self.opq("flatten")

    def m_ravel(self, obj, args, kw, st):
        c = st.cell(obj)
        if isinstance(c, Arr) and not args and not kw:
            return self.whole_view(obj, Arr((len(c.data),), c.data), st)
        if isinstance(c, Fld):
            return obj
        return self.opq("ravel")

    def m_astype(self, obj, args, kw, st):
        return self.m_copy(obj, args, kw, st)

    def m_sum(self, obj, args, kw, st):
        return self.n_sum([obj] + list(args), kw, st)

    def m_max(self, obj, args, kw, st):
        return self.n_max([obj] + list(args), kw, st)

    def m_min(self, obj, args, kw, st):
        return self.n_min([obj] + list(args), kw, st)

    def m_any(self, obj, args, kw, st):
        return self.quant(obj, st, True)

    def m_all(self, obj, args, kw, st):
        return self.quant(obj, st, False)

    def m_dot(self, obj, args, kw, st):
        return self.matmul(obj, args[0], st)

    def m_transpose(self, obj, args, kw, st):
        return self.transpose(obj, st) if isinstance(st.cell(obj), Arr) else self.opq("T")

    def m__replace(self, obj, args, kw, st):
        c = st.cell(obj)
        if isinstance(c, Obj):
            a = dict(c.attrs)
            a.update(kw)
            return st.new(Obj(c.cls, a))
        return self.opq("_replace")

    def m_fill(self, obj, args, kw, st):
        c = st.cell(obj)
        if isinstance(c, Arr):
            w = st.w(obj)
            w.data = [self.P(args[0])] * len(w.data)
        elif isinstance(c, Fld):
            w = st.w(obj)
            w.elem, w.patch = self.P(args[0]), {}
        if isinstance(obj, Ref):
            self.touched(obj, st)
        return NONE

    def m_setflags(self, obj, args, kw, st):
        return NONE

    def m_join(self, obj, args, kw, st):
        if isinstance(obj, K) and isinstance(obj.v, str):
            out = []
            for g in self._segs(args[0], st):
                if g[0] != "one" or g[1].k != "T" or not (isinstance(g[2], K) and isinstance(g[2].v, str)):
                    return self.opq("join")
                out.append(g[2].v)
            return K(obj.v.join(out))
        return self.opq("join")

    def m_format(self, obj, args, kw, st):
        return self.opq("format")


class IxV(V):
    def __init__(self, r, c):
        self.rows, self.cols = r, c


class _HH:
    def __init__(self, st):
        self.heap_keys = st.heap


def _W():
    from .interp import W

    return W


def _hashable(x):
    try:
        hash(x)
        return True
    except TypeError:
        return False


def _indices(shape):
    return _product([range(n) for n in shape])


def _product(sel):
    out = [()]
    for r in sel:
        out = [t + (i,) for t in out for i in r]
    return out


def _trim(np_, ix):
    return True


def _trim_patch(np_, c, ix):
    """end values that survive a contiguous slice"""
    lo = np_.cidx(ix.lo) if ix.lo is not None else 0
    hi = np_.cidx(ix.hi) if ix.hi is not None else None
    patch = {}
    for k, v in c.patch.items():
        if k >= 0 and lo is not None and k - lo >= 0:
            patch[k - lo] = v
        elif k < 0:
            if ix.hi is None:
                patch[k] = v
            elif hi is not None and hi < 0 and k < hi:
                patch[k - hi] = v
    return patch


def _outside(np_, ix):
    lo = np_.cidx(ix.lo) if ix.lo is not None else 0
    hi = np_.cidx(ix.hi) if ix.hi is not None else 0
    out = []
    if lo is not None and lo > 0:
        out += list(range(lo))
    if hi is not None and hi < 0:
        out += list(range(hi, 0))
    return out


def _log10_floor(p):
    """floor of log10 of a known positive number, exactly"""
    for a in p.atoms():
        if a.kind == "fn" and a.name == "log10" and a.args and isinstance(a.args[0], Poly) and a.args[0].is_const() and alg.is_zero(p - alg.atom_poly(a)):
            c = Fraction(a.args[0].const())
            if c <= 0:
                return None
            k = 0
            while c >= 10:
                c, k = c / 10, k + 1
            while c < 1:
                c, k = c * 10, k - 1
            return k
    return None


def _bad():
    raise ValueError


def raise_unsup(msg):
    from .interp import Unsup

    raise Unsup(msg)


def raise_raised(exc):
    from .interp import Raised

    raise Raised(exc)


def tol_size(x):
    """the size of a tolerance: a number, or the largest coefficient of a tolerance
    scaled by quantities of the model"""
    c = as_const(x)
    if c is None and isinstance(x, Poly) and x.t:
        return max(abs(k) for k in x.t.values())
    return c


DUNDER = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.FloorDiv: "floordiv", ast.Mod: "mod", ast.Pow: "pow",
          ast.MatMult: "matmul", ast.BitOr: "or", ast.BitAnd: "and", ast.BitXor: "xor", ast.LShift: "lshift", ast.RShift: "rshift"}


def it_undef(it, c):
    return any(it.has_undef(v) for v in c.items.values())


class NpModel(PyLib, NpLib, NpBase):
    """the models together; the more specific ones first"""
