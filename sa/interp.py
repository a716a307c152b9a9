"""Gated value-graph construction: a flow-sensitive, interprocedural abstract
interpreter over the AST.  Branches are merged with gamma nodes, unknown loops
are summarised by recurrences, calls inside the package are inlined through the
callee's body, and everything outside the modelled subset becomes an opaque
value (never a guess)."""
from __future__ import annotations
import ast
from fractions import Fraction
from itertools import count

from .vals import *  # noqa
from . import alg
from .prog import Program, FuncInfo, ClassInfo, import_bindings


class Unsup(Exception):
    pass


class Raised(Exception):
    """the abstract evaluation of an expression certainly raises"""

    def __init__(self, exc, recorded=False):
        self.exc = exc
        self.recorded = recorded    # the raise events behind it are already logged


class _TryLayer:
    """exceptional exits of a protected region: (exception, condition, state, event)"""

    def __init__(self, frame, idx):
        self.frame, self.idx = frame, idx
        self.recs = []


class Frame:
    def __init__(self, info, mod, closure=None):
        self.info, self.mod, self.closure = info, mod, closure
        self.returns = []  # (pc, val, state)
        self.loops = []
        self.yields = None
        self.entry_pc = TRUE
        self.cur_state = None


class LoopRec:
    def __init__(self, site, key, var, init, mu, step):
        self.site, self.key, self.var, self.init, self.mu, self.step = site, key, var, init, mu, step


MAXDEPTH = 40
UNROLL = 40


class Interp:
    def __init__(self, prog: Program, hooks=None, unroll=UNROLL):
        self.prog = prog
        self.hooks = hooks or {}  # qual -> callable(interp, st, args, kw) -> value | NotImplemented
        self.depth = 0
        self.gmemo = {}
        self.stack = []
        self.events = []
        self.exact_raise = set()      # exceptions whose every source is modelled
        self.looprecs = []
        self.visited = set()
        self.reasons = []
        self.unroll = unroll
        self.globals_cache = {}
        self.cur = None  # current ast node
        self.steps = 0
        self.tries = []
        self.handling = []
        self.shared = {}              # (module | class) -> id of its cell of rebound names
        self.shared_ids = []
        self.writes_classes = self.class_writes()
        self.decorated = {}

    # ----------------------------------------------------------- utilities
    def note(self, why):
        self.reasons.append((self.site(), why))

    def site(self, node=None):
        node = node or self.cur
        fr = self.stack[-1] if self.stack else None
        rel = fr.mod.relpath if fr else "?"
        fn = fr.info.qual if fr and fr.info else "<module>"
        return f"{rel}:{getattr(node, 'lineno', '?')}({fn})"

    def opq(self, tag="?", cls=None):
        return Opq(tag, cls)

    # ---------------------------------------------------------- value ops
    def num(self, v, st=None):
        """coerce to Poly (opaque when unknown)."""
        if isinstance(v, Poly):
            return v
        if isinstance(v, Cond):
            return alg.boolnum(v)
        if isinstance(v, Opq):
            return v.as_num()
        if isinstance(v, GV):
            return alg.gamma(v.c, self.num(v.a, st), self.num(v.b, st))
        if isinstance(v, Ref) and st is not None:
            c = st.cell(v)
            if isinstance(c, Arr) and len(c.data) == 1:
                return self.num(c.data[0], st)
        raise Unsup(f"not a number: {v!r}")

    def truth(self, v, st):
        if isinstance(v, Cond):
            return v
        if isinstance(v, Poly):
            return cnot(ceq(v))
        if isinstance(v, K):
            return cbool(bool(v.v))
        if isinstance(v, Tup):
            return cbool(len(v.items) > 0)
        if isinstance(v, GV):
            return cor(cand(v.c, self.truth(v.a, st)), cand(cnot(v.c), self.truth(v.b, st)))
        if isinstance(v, Ref):
            c = st.cell(v)
            if isinstance(c, Lst):
                if c.kind == "iter":
                    return TRUE
                if not c.ent:
                    return FALSE
                if any(len(e) == 2 and e[0].k == "T" for e in c.ent):
                    return TRUE
                if all(len(e) == 2 for e in c.ent):
                    return cor(*[e[0] for e in c.ent])
                return ckey("nonempty", v.id, len(c.ent))
            if isinstance(c, Dct):
                if c.items:
                    return TRUE
                return ckey("nonempty", v.id) if c.open else FALSE
            if isinstance(c, Arr) and len(c.data) == 1:
                return self.truth(c.data[0], st)
            if isinstance(c, Obj):
                if c.cls is not None:
                    if c.cls.is_namedtuple:
                        return cbool(bool(c.cls.fields))
                    for nm in ("__bool__", "__len__"):
                        m = self.prog.find_method(c.cls, nm, "method")
                        if m is not None:
                            return self.truth(self.call_info(m, st, [], {}, selfv=v), st)
                return TRUE
            return ckey("truth", v.id)
        if isinstance(v, (FnV, BM, ClsV, ModV, Ext, NM, PartV, PrimV, MemoV)):
            return TRUE
        if isinstance(v, IterV):
            if v.stateful:
                return TRUE
            return cor(*[s[1] if s[0] == "one" else copaque("truth") for s in v.segs]) if v.segs else FALSE
        if isinstance(v, Opq):
            return ckey("truth", v.tag, v.id)
        if isinstance(v, ReV):
            return TRUE
        if isinstance(v, Rng):
            return cgt(v.hi - v.lo) if v.st == ONE else self.truth(self.npm.b_len([v], {}, st), st)
        return copaque("truth")

    def merge(self, c, a, b, ha=None, hb=None, heap=None):
        if c.k == "T":
            return a
        if c.k == "F":
            return b
        if a is b or a == b:
            return a
        if a is UNDEF or b is UNDEF:
            return GV(c, a, b)
        if isinstance(a, Poly) and isinstance(b, Poly):
            return alg.gamma(c, a, b)
        if isinstance(a, Cond) and isinstance(b, Cond):
            return cor(cand(c, a), cand(cnot(c), b))
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.merge(c, x, y, ha, hb, heap) for x, y in zip(a.items, b.items)])
        if isinstance(a, Ref) and isinstance(b, Ref) and heap is not None:
            x, y = heap.get(a.id), heap.get(b.id)
            m = self.merge_fresh(c, x, y, ha, hb, heap, a, b)
            if m is not None:
                return m
        return GV(c, a, b)

    def merge_fresh(self, c, x, y, ha, hb, heap, a, b):
        """two different cells (arrays / namedtuple objects) -> merged new cell
        for immutable-looking kinds."""
        if isinstance(x, Arr) and isinstance(y, Arr) and x.shape == y.shape:
            i = next(_VID)
            heap[i] = Arr(x.shape, [self.merge(c, p, q, ha, hb, heap) for p, q in zip(x.data, y.data)])
            return Ref(i)
        if isinstance(x, Fld) and isinstance(y, Fld):
            f = self.merge_cell(c, x, y, ha, hb, heap)
            if f is not None:
                i = next(_VID)
                heap[i] = f
                return Ref(i)
        if isinstance(x, Obj) and isinstance(y, Obj) and x.cls is y.cls and x.cls is not None:
            if a.id not in hb.heap_keys or b.id not in ha.heap_keys:
                pass
            i = next(_VID)
            attrs = {}
            for k in set(x.attrs) | set(y.attrs):
                attrs[k] = self.merge(c, x.attrs.get(k, UNDEF), y.attrs.get(k, UNDEF), ha, hb, heap)
            heap[i] = Obj(x.cls, attrs, x.tag)
            return Ref(i)
        if isinstance(x, Lst) and isinstance(y, Lst) and x.kind == y.kind and x.concrete() and y.concrete() and len(x.ent) == len(y.ent):
            i = next(_VID)
            heap[i] = Lst([(TRUE, self.merge(c, p[1], q[1], ha, hb, heap)) for p, q in zip(x.ent, y.ent)], x.kind)
            return Ref(i)
        return None

    def merge_cell(self, c, x, y, ha, hb, heap):
        if x is y:
            return x
        if type(x) is not type(y):
            return None
        if isinstance(x, Obj):
            attrs = {}
            for k in list(x.attrs) + [k for k in y.attrs if k not in x.attrs]:
                attrs[k] = self.merge(c, x.attrs.get(k, UNDEF), y.attrs.get(k, UNDEF), ha, hb, heap)
            return Obj(x.cls, attrs, x.tag)
        if isinstance(x, Arr):
            if x.shape != y.shape:
                return None
            return Arr(x.shape, [self.merge(c, p, q, ha, hb, heap) for p, q in zip(x.data, y.data)])
        if isinstance(x, Fld):
            st = x.st or y.st
            if x.st and y.st and x.st is not y.st:
                return None
            patch = {}
            for k in set(x.patch) | set(y.patch):
                p = self.fld_at(x, k)
                q = self.fld_at(y, k)
                patch[k] = self.merge(c, p, q, ha, hb, heap)
            e1, e2 = x.elem, y.elem
            return Fld(self.merge(c, e1, e2, ha, hb, heap), st, patch, x.n if x.n is not None else y.n)
        if isinstance(x, Lst):
            n = 0
            while n < len(x.ent) and n < len(y.ent) and x.ent[n] == y.ent[n]:
                n += 1
            ent = list(x.ent[:n])
            xr, yr = x.ent[n:], y.ent[n:]
            if len(xr) == len(yr) and all(len(e) == 2 and len(f) == 2 and e[0] == f[0] for e, f in zip(xr, yr)):
                ent += [(e[0], self.merge(c, e[1], f[1], ha, hb, heap)) for e, f in zip(xr, yr)]
            else:
                for e in xr:
                    ent.append(self.guarded(e, c))
                for e in yr:
                    ent.append(self.guarded(e, cnot(c)))
            return Lst(ent, x.kind)
        if isinstance(x, Dct):
            items = {}
            for k in list(x.items) + [k for k in y.items if k not in x.items]:
                items[k] = self.merge(c, x.items.get(k, UNDEF), y.items.get(k, UNDEF), ha, hb, heap)
            return Dct(items, x.open or y.open, x.tag)
        if isinstance(x, Sym):
            n = 0
            while n < len(x.log) and n < len(y.log) and x.log[n] == y.log[n]:
                n += 1
            log = list(x.log[:n])
            log += [w._replace(g=cand(c, w.g)) for w in x.log[n:]]
            log += [w._replace(g=cand(cnot(c), w.g)) for w in y.log[n:]]
            return Sym(x.shape, x.name, x.init, log, x.fun)
        return None

    @staticmethod
    def guarded(e, c):
        if len(e) == 2:
            return (cand(c, e[0]), e[1])
        return (e[0], cand(c, e[1]), e[2])

    def join(self, c, s1, s2):
        """merge fall-through states: s1 when c else s2."""
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        for i in self.shared_ids:
            if (i in s1.heap) != (i in s2.heap):
                lack, have = (s2, s1) if i in s1.heap else (s1, s2)
                lack.heap = {**lack.heap, i: Obj(None, {}, have.heap[i].tag)}
        heap = dict(s1.heap)
        heap.update({k: v for k, v in s2.heap.items() if k not in heap})
        ha, hb = _H(s1), _H(s2)
        for k in list(s1.heap):
            if k in s2.heap and s1.heap[k] is not s2.heap[k]:
                m = self.merge_cell(c, s1.heap[k], s2.heap[k], ha, hb, heap)
                if m is None:
                    self.note("unmergeable heap cell")
                    m = Dct({}, True, "unmergeable")
                heap[k] = m
        env = {}
        for k in list(s1.env) + [k for k in s2.env if k not in s1.env]:
            env[k] = self.merge(c, s1.env.get(k, UNDEF), s2.env.get(k, UNDEF), ha, hb, heap)
        return State(env, heap, TRUE if s1.pc is None else _join_pc(s1.pc, s2.pc, c))

    # --------------------------------------------------------------- calls
    def call_info(self, info, st, args, kw, closure=None, selfv=None, defaults=None):
        """Abstract call of a package function.  args: list of values."""
        hook = self.hooks.get(info.qual)
        if hook is None and info.cls is not None:
            hook = self.hooks.get(f"*.{info.cls.name}.{info.name}") or self.hooks.get(f"*.{info.name}")
        full = ([selfv] if selfv is not None else []) + list(args)
        self.events.append(("call", info.qual, tuple(full), dict(kw), self.fullpc(st), self.site()))
        if hook is not None:
            r = hook(self, st, full, kw)
            if r is not NotImplemented:
                return r
        if self.depth >= MAXDEPTH or sum(1 for f in self.stack if f.info is info) >= (30 if self.concrete_args(args, kw, st) else 3):
            self.note(f"call depth at {info.qual}")
            return self.opq(f"call {info.name}")
        self.visited.add(info.qual)
        if self.writes_classes:
            for m in self.prog.modules.values():
                for ci in m.classes.values():
                    self.shared_cell(ci, st)
        env = self.bind(info, st, full, kw, defaults)
        return self.run(info, env, st, closure)

    def concrete_args(self, args, kw, st):
        """is a count known that a recursion can run down?"""
        for a in list(args) + list(kw.values()):
            if isinstance(a, Poly) and a.is_const() or isinstance(a, (K, Tup)):
                return True
            c = st.cell(a)
            if isinstance(c, Lst) and c.concrete():
                return True
        return False

    # -- names of modules and classes that are rebound while the program runs
    def class_writes(self):
        """does any function of the package assign attributes of a class object?"""
        names = {c for m in self.prog.modules.values() for c in m.classes}
        for m in self.prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    b = n.value
                    if isinstance(b, ast.Name) and (b.id in names or b.id in ("cls", "klass")) \
                            or isinstance(b, ast.Attribute) and b.attr == "__class__" \
                            or isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "type":
                        return True
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr":
                    return True
        return False

    def shared_cell(self, owner, st):
        i = self.shared.get(owner)
        if i is None:
            i = self.shared[owner] = next(_VID)
            self.shared_ids.append(i)
        if i not in st.heap:
            st.heap[i] = Obj(None, {}, "shared")
        return Ref(i)

    def shared_get(self, owner, name, st, default):
        """a rebound name of a module / attribute of a class, else default()"""
        i = self.shared.get(owner)
        c = st.heap.get(i) if i is not None else None
        if c is None or name not in c.attrs:
            return default()
        return self.fill_undef(c.attrs[name], default)

    def fill_undef(self, v, default):
        if v is UNDEF or isinstance(v, Undef):
            return default()
        if isinstance(v, GV) and self.has_undef(v):
            return GV(v.c, self.fill_undef(v.a, default), self.fill_undef(v.b, default))
        return v

    def has_undef(self, v):
        return isinstance(v, Undef) or isinstance(v, GV) and (self.has_undef(v.a) or self.has_undef(v.b))

    def box_get(self, b, name, st):
        c = st.cell(b.ref)
        v = c.attrs.get(b.attr, UNDEF)
        if self.has_undef(v) and b.attr != "v":
            fr = self.stack[-1]
            return self.fill_undef(v, lambda: self.module_name(fr.mod, name, st))
        return v

    def bind(self, info, st, full, kw, defaults=None):
        a = info.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        full = list(full)
        for n, v in zip(names, full):
            env[n] = v
        extra = full[len(names):]
        if a.vararg:
            env[a.vararg.arg] = Tup(extra)
        elif extra:
            raise Raised("TypeError")
        kw = dict(kw)
        kwonly = [p.arg for p in a.kwonlyargs]
        for k in list(kw):
            if k in names or k in kwonly:
                env[k] = kw.pop(k)
        star = kw.pop("**", None)
        if a.kwarg:
            env[a.kwarg.arg] = st.new(Dct({K(k): v for k, v in kw.items()}, open=star is not None))
        # defaults
        frm = Frame(info, info.module)
        self.stack.append(frm)
        try:
            dpos, dkw = defaults or (None, None)
            for i, (p, d) in enumerate(zip(names[len(names) - len(a.defaults):], a.defaults)):
                if p not in env:
                    env[p] = dpos[i] if dpos is not None else self.global_value(info.module, d, st)
            for i, (p, d) in enumerate(zip(kwonly, a.kw_defaults)):
                if p not in env and d is not None:
                    env[p] = dkw[i] if dkw is not None else self.global_value(info.module, d, st)
        finally:
            self.stack.pop()
        for p in names + kwonly:
            if p not in env:
                if star is not None:
                    env[p] = self.opq(p)
                else:
                    env[p] = self.opq(f"missing arg {p}")
                    self.note(f"missing arg {p} of {info.qual}")
        return env

    def run(self, info, env, st, closure=None):
        """execute body; mutates st.heap; returns merged return value."""
        fr = Frame(info, info.module, closure)
        fr.entry_pc = st.pc
        self.stack.append(fr)
        self.depth += 1
        saved_cur = self.cur
        try:
            if isinstance(info.node, ast.Lambda):
                s = State(env, st.heap, st.pc)
                v = self.ev(info.node.body, s)
                st.heap = s.heap
                return v
            if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in _own_nodes(info.node)):
                fr.yields = st.new(Lst((), "iter"))
            for k in _captured(info.node):
                v0 = env.get(k, UNDEF)
                env[k] = Box(st.new(Obj(None, {"v": v0}, "captured")))
            s = State(env, dict(st.heap), TRUE)
            out = self.block(info.node.body, s)
            rets = list(fr.returns)
            if out is not None:
                rets.append((TRUE, NONE if fr.yields is None else fr.yields, out))
            if not rets:
                raise Raised("always raises", True)
            # what holds on every way back to the caller holds there afterwards
            common = None
            for _, _, x in rets:
                cs = set(x.pc.a) if x.pc.k == "and" else ({x.pc} if x.pc.k != "T" else set())
                common = cs if common is None else common & cs
            back = cand(*[c for c in (rets[0][2].pc.a if rets[0][2].pc.k == "and" else [rets[0][2].pc]) if c in common])
            # fold from the last
            pc, val, s2 = rets[-1]
            for pc1, v1, s1 in reversed(rets[:-1]):
                heap = dict(s1.heap)
                a = State({"__ret": v1}, s1.heap, TRUE)
                b = State({"__ret": val}, s2.heap, TRUE)
                s2 = self.join(pc1, a, b)
                val = s2.env["__ret"]
            st.heap = s2.heap
            st.pc = cand(st.pc, back)
            if fr.yields is not None:
                # a generator is consumed later; nothing but the items it yields is
                # visible before (its effects are taken to happen at the call)
                return fr.yields
            return val
        finally:
            self.stack.pop()
            self.depth -= 1
            self.cur = saved_cur

    def instantiate(self, ci, st, args, kw):
        hook = self.hooks.get(f"{ci.module.name}.{ci.name}")
        self.events.append(("new", f"{ci.module.name}.{ci.name}", tuple(args), dict(kw), self.fullpc(st), self.site()))
        if hook is not None:
            r = hook(self, st, list(args), kw)
            if r is not NotImplemented:
                return r
        if ci.is_exception:
            return self.opq(f"exc {ci.name}")
        if ci.is_enum:
            if args and isinstance(args[0], Poly):
                vals = self.enum_values(ci, st)
                if vals and args[0].is_const() and args[0] not in vals:
                    raise Raised("ValueError")
                return args[0]
            return self.opq(ci.name)
        ref = st.new(Obj(ci))
        init = self.prog.find_method(ci, "__init__")
        if (ci.is_namedtuple or ci.is_dataclass) and init is None:
            fields = self.fields_of(ci)
            names = [f for f, d in fields if not self.no_init(d)]
            c = st.w(ref)
            if len(args) > len(names) or any(k in names[:len(args)] or k not in names and k != "**" for k in kw):
                raise Raised("TypeError")
            for n, v in zip(names, args):
                c.attrs[n] = v
            for k, v in kw.items():
                c.attrs[k] = v
            for n, d in fields:
                if n not in c.attrs:
                    if d is None:
                        if "**" not in kw:
                            raise Raised("TypeError")
                        c.attrs[n] = self.opq(n)
                    else:
                        v = self.field_default(ci, d, st)
                        if v is None:
                            if n in names and "**" not in kw:
                                raise Raised("TypeError")
                            continue
                        st.w(ref).attrs[n] = v
            pi = self.prog.find_method(ci, "__post_init__")
            if pi:
                self.call_info(pi, st, [], {}, selfv=ref)
            return ref
        init = self.prog.find_method(ci, "__init__")
        if init is not None:
            self.call_info(init, st, args, kw, selfv=ref)
        return ref

    def fields_of(self, ci):
        """dataclass / namedtuple fields, inherited ones first"""
        out = {}
        for k in reversed(list(self.prog.mro(ci))):
            if k.is_dataclass or k.is_namedtuple or k is ci:
                for f, d in k.fields:
                    out[f] = d
        return list(out.items())

    @staticmethod
    def no_init(d):
        return isinstance(d, ast.Call) and ast.unparse(d.func) in ("field", "dataclasses.field") and \
            any(k.arg == "init" and isinstance(k.value, ast.Constant) and k.value.value is False for k in d.keywords)

    def field_default(self, ci, d, st):
        fr = Frame(None, ci.module)
        self.stack.append(fr)
        try:
            if isinstance(d, ast.Call) and ast.unparse(d.func) in ("field", "dataclasses.field"):
                for k in d.keywords:
                    if k.arg == "default":
                        return self.ev(k.value, st)
                    if k.arg == "default_factory":
                        return self.call(self.ev(k.value, st), [], {}, st)
                return None
            return self.ev(d, st)
        finally:
            self.stack.pop()

    def call(self, f, args, kw, st):
        if isinstance(f, FnV):
            return self.call_info(f.info, st, args, kw, closure=f.env, defaults=f.defaults)
        if isinstance(f, PartV):
            return self.call(f.fn, list(f.args) + list(args), {**f.kw, **kw}, st)
        if isinstance(f, PrimV):
            return f.f(list(args), kw, st)
        if isinstance(f, MemoV):
            key = Tup(list(args) + [Tup([K(k), v]) for k, v in sorted(kw.items())])
            d = st.cell(f.ref)
            if d is None:
                st.heap[f.ref.id] = d = Dct()
            if key in d.items and not self.has_undef(d.items[key]):
                return d.items[key]
            r = self.call(f.fn, args, kw, st)
            st.w(f.ref).items[key] = r
            return r
        if isinstance(f, BM):
            info = f.info
            if info.is_static:
                return self.call_info(info, st, args, kw)
            return self.call_info(info, st, args, kw, selfv=f.obj)
        if isinstance(f, ClsV):
            return self.instantiate(f.info, st, args, kw)
        if isinstance(f, Ext):
            return self.npm.call_ext(f.name, args, kw, st)
        if isinstance(f, NM):
            return self.npm.call_method(f.obj, f.name, args, kw, st)
        if isinstance(f, GV):
            return self.lift(f, st, lambda g, s: self.call(g, args, kw, s))
        if isinstance(f, Ref):
            c = st.cell(f)
            if isinstance(c, Obj) and c.cls is not None:
                m = self.prog.find_method(c.cls, "__call__")
                if m:
                    return self.call_info(m, st, args, kw, selfv=f)
            return self.opq("call ref")
        self.escape(args, kw, st)
        return self.opq(f"call {f!r}")

    def escape(self, args, kw, st):
        pass

    def lift(self, gv, st, fn):
        """distribute an operation over a gamma value, merging the heaps."""
        s1, s2 = st.fork(), st.fork()
        s1.pc, s2.pc = cand(st.pc, gv.c), cand(st.pc, cnot(gv.c))
        r1 = r2 = None
        e1 = e2 = None
        if gv.a is UNDEF:
            e1 = Raised("NameError")
        else:
            try:
                r1 = fn(gv.a, s1)
            except Raised as e:
                e1 = e
                self.implicit(e, s1)
        if gv.b is UNDEF:
            e2 = Raised("NameError")
        else:
            try:
                r2 = fn(gv.b, s2)
            except Raised as e:
                e2 = e
                self.implicit(e, s2)
        if e1 and e2:
            raise e1
        if e1:
            st.heap, st.env = s2.heap, s2.env
            return r2
        if e2:
            st.heap, st.env = s1.heap, s1.env
            return r1
        s1.env = dict(s1.env)
        s2.env = dict(s2.env)
        s1.env["__lift"], s2.env["__lift"] = r1, r2
        j = self.join(gv.c, s1, s2)
        st.heap = j.heap
        v = j.env.pop("__lift")
        st.env.clear()
        st.env.update(j.env)
        return v

    # ---------------------------------------------------------- statements
    def implicit(self, e, st, s=None):
        if not e.recorded:
            e.recorded = True
            self.raise_event(e.exc, st, self.fullpc(st), s)

    def raise_event(self, name, st, pc, s=None):
        """log a raise under its full path condition, and hand the state to the
        innermost protected region that is being evaluated"""
        ev = ("raise", name, pc, self.site(s) if s is not None else self.site())
        self.events.append(ev)
        self.exc_exit(name, st, ev)

    def exc_exit(self, name, st, ev, rel=None):
        if not self.tries:
            return
        lay = self.tries[-1]
        inner = [f.entry_pc for f in self.stack[lay.idx:] if f.info is not None]
        pc = cand(*inner, st.pc if rel is None else rel)
        if lay.frame is None:
            env = {}
        elif lay.frame is self.stack[-1]:
            env = st.env
        else:
            env = lay.frame.cur_state.env if lay.frame.cur_state is not None else {}
        lay.recs.append((name, pc, State(dict(env), dict(st.heap), pc), ev))

    def attempt(self, fn):
        """evaluate fn(); -> (value or None if it always raises, exceptional exits)"""
        lay = _TryLayer(None, len(self.stack))
        self.tries.append(lay)
        try:
            try:
                v = fn()
            except Raised:
                v = None
        finally:
            self.tries.pop()
        return v, lay.recs

    def block(self, stmts, st):
        fr = self.stack[-1] if self.stack else None
        for s in stmts:
            self.cur = s
            if fr is not None:
                fr.cur_state = st
            self.steps += 1
            if self.steps > 400000:
                raise Unsup("step budget")
            try:
                st = self.stmt(s, st)
            except Unsup as e:
                self.note(f"{type(s).__name__}: {e}")
                st = self.havoc(s, st)
            except Raised as e:
                self.implicit(e, st, s)
                return None
            except alg.DivZero:
                self.note("division by zero")
                st = self.havoc(s, st)
            if st is None:
                return None
        return st

    def havoc(self, s, st):
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.assign(n, self.opq(n.id), st)
            elif isinstance(n, ast.Call):
                # whatever a skipped call may have been given to modify
                for x in ([n.func.value] if isinstance(n.func, ast.Attribute) else []) + n.args:
                    if isinstance(x, (ast.Name, ast.Attribute, ast.Subscript)):
                        try:
                            with_ref = self.ev(x, st)
                        except (Unsup, Raised, alg.DivZero):
                            continue
                        self.havoc_value(with_ref, st)
            elif isinstance(n, (ast.Return,)):
                fr = self.stack[-1]
                fr.returns.append((self.rel_pc(st), self.opq("ret"), st.fork()))
            elif isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                try:
                    base = self.ev(n.value, st)
                    self.havoc_target(base, n, st)
                except (Unsup, Raised):
                    pass
        return st

    def havoc_value(self, v, st):
        """forget the contents of a container (not of package objects)"""
        c = st.cell(v)
        if c is None or isinstance(c, Obj):
            return
        self.havoc_target(v, None, st)
        if isinstance(c, Dct):
            st.heap[v.id] = Dct({}, True, "havoc")
        self.npm.touched(v, st)

    def havoc_target(self, base, n, st):
        c = st.cell(base)
        if c is None:
            return
        if isinstance(c, Obj) and isinstance(n, ast.Attribute):
            st.w(base).attrs[n.attr] = self.opq(n.attr)
        elif isinstance(c, Arr):
            w = st.w(base)
            w.data = [opaque("havoc") for _ in w.data]
        elif isinstance(c, Fld):
            w = st.w(base)
            w.elem = opaque("havoc")
            w.patch = {}
        elif isinstance(c, Lst):
            st.w(base).ent = [(("havoc", next(_VID)), TRUE, self.opq("havoc"))]
        elif isinstance(c, Dct):
            st.heap[base.id] = Dct({}, True, "havoc")
        elif isinstance(c, Sym):
            st.w(base).log.append(W("havoc", None, None, TRUE, (), self.site()))

    def rel_pc(self, st):
        return st.pc

    def fullpc(self, st):
        return cand(*[f.entry_pc for f in self.stack if f.info is not None], st.pc)

    def stmt(self, s, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsup(f"stmt {type(s).__name__}")
        return m(s, st)

    def s_Pass(self, s, st):
        return st

    def s_Global(self, s, st):
        ref = self.shared_cell(self.stack[-1].mod, st)
        for k in s.names:
            st.env[k] = Box(ref, k)
        return st

    def s_Nonlocal(self, s, st):
        for k in s.names:
            cl = self.stack[-1].closure
            while cl is not None:
                if k in cl[0]:
                    if not isinstance(cl[0][k], Box):
                        raise Unsup("nonlocal")
                    st.env[k] = cl[0][k]
                    break
                cl = cl[1]
            else:
                raise Unsup("nonlocal")
        return st

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return st
        self.ev(s.value, st)
        return st

    def s_Assert(self, s, st):
        c = self.truth(self.ev(s.test, st), st)
        f = st.fork()
        f.pc = cand(st.pc, cnot(c))
        self.raise_event("AssertionError", f, self.fullpc(f), s)
        st.pc = cand(st.pc, c)
        return st

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st)
        return st

    def s_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), st)
            v = self.ev(s.value, st)
            c = st.cell(old)
            if isinstance(c, Lst) and isinstance(s.op, ast.Add):
                self.extend(old, v, st)
                return st
            if isinstance(c, Obj) and c.cls is not None and self.inplace(s.op, old, v, st, t):
                return st
            r = self.binop(s.op, old, v, st)
            if isinstance(c, (Arr, Fld, Lst, Dct)) and isinstance(r, Ref):
                st.heap[old.id] = st.heap[r.id]  # in-place update, aliases see it
                self.npm.touched(old, st)
                return st
            if isinstance(c, Sym):
                st.w(old).log.append(W(_opname(s.op), "all", v, self.fullpc(st), self.loopctx(), self.site(s)))
                self.npm.touched(old, st)
                return st
            self.assign(t, r, st)
            return st
        if isinstance(t, ast.Attribute):
            base = self.ev(t.value, st)
            old = self.getattr(base, t.attr, st)
            v = self.ev(s.value, st)
            c = st.cell(old)
            if isinstance(c, Lst) and isinstance(s.op, ast.Add):
                self.extend(old, v, st)
                return st
            r = self.binop(s.op, old, v, st)
            if isinstance(c, (Arr, Fld, Lst, Dct)) and isinstance(r, Ref):
                st.heap[old.id] = st.heap[r.id]
                self.npm.touched(old, st)
                return st
            self.setattr(base, t.attr, r, st)
            return st
        if isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            ix = self.ev_index(t.slice, st)
            v = self.ev(s.value, st)
            c = st.cell(base)
            if isinstance(c, Sym):
                st.w(base).log.append(W(_opname(s.op), ix, self.freeze(v, st), self.fullpc(st), self.loopctx(), self.site(s)))
                self.npm.touched(base, st)
                return st
            old = self.npm.getitem(base, ix, st)
            co = st.cell(old)
            if isinstance(co, Lst) and isinstance(s.op, ast.Add):
                self.extend(old, v, st)
                return st
            r = self.binop(s.op, old, v, st)
            if isinstance(co, (Lst, Dct)) and isinstance(r, Ref):
                st.heap[old.id] = st.heap[r.id]
                return st
            if isinstance(co, (Arr, Fld)) and isinstance(c, (Lst, Dct, Obj)) and isinstance(r, Ref):
                st.heap[old.id] = st.heap[r.id]     # an array held by a container is updated in place
                self.npm.touched(old, st)
                return st
            self.npm.setitem(base, ix, r, st)
            return st
        raise Unsup("augassign target")

    def inplace(self, op, old, v, st, t):
        """user-defined in-place operators"""
        nm = {ast.Add: "__iadd__", ast.Sub: "__isub__", ast.Mult: "__imul__", ast.BitOr: "__ior__"}.get(type(op))
        m = self.prog.find_method(st.cell(old).cls, nm, "method") if nm else None
        if m is None:
            return False
        self.assign(t, self.call_info(m, st, [v], {}, selfv=old), st)
        return True

    def freeze(self, v, st):
        """snapshot of mutable numeric arrays for logs."""
        c = st.cell(v)
        if isinstance(c, (Arr, Fld)):
            return st.new(c.copy())
        return v

    def loopctx(self):
        return tuple(l for f in self.stack for l in f.loops)

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            if isinstance(v, IterV) and v.stateful:
                v = st.new(Lst([(s[1], s[2]) if s[0] == "one" else (s[1], s[3] if len(s) > 3 else TRUE, s[2]) for s in v.segs], "iter"))
            b = st.env.get(t.id)
            if isinstance(b, Box):
                st.w(b.ref).attrs[b.attr] = v
            else:
                st.env[t.id] = v
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts), st, any(isinstance(e, ast.Starred) for e in t.elts))
            if any(isinstance(e, ast.Starred) for e in t.elts):
                i = [isinstance(e, ast.Starred) for e in t.elts].index(True)
                after = len(t.elts) - i - 1
                if vals is None:
                    for e in t.elts:
                        self.assign(e.value if isinstance(e, ast.Starred) else e, self.opq("unpack"), st)
                    return
                mid = vals[i: len(vals) - after]
                ref = st.new(Lst([(TRUE, x) for x in mid]))
                for e, x in zip(t.elts[:i], vals[:i]):
                    self.assign(e, x, st)
                self.assign(t.elts[i].value, ref, st)
                for e, x in zip(t.elts[i + 1:], vals[len(vals) - after:]):
                    self.assign(e, x, st)
                return
            for e, x in zip(t.elts, vals):
                self.assign(e, x, st)
            return
        if isinstance(t, ast.Attribute):
            base = self.ev(t.value, st)
            self.setattr(base, t.attr, v, st)
            return
        if isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            ix = self.ev_index(t.slice, st)
            self.npm.setitem(base, ix, v, st)
            return
        raise Unsup("assign target")

    def unpack(self, v, n, st, starred=False):
        if isinstance(v, Tup):
            if len(v.items) == n or starred:
                return list(v.items)
        c = st.cell(v)
        if isinstance(c, Lst) and c.concrete() and (len(c.ent) == n or starred):
            return c.values()
        if isinstance(c, Arr) and (c.shape[0] == n or starred):
            return [self.npm.getitem(v, const(i), st) for i in range(c.shape[0])]
        if isinstance(c, Obj) and c.cls is not None and c.cls.is_namedtuple:
            vals = [c.attrs[f] for f, _ in c.cls.fields]
            if len(vals) == n:
                return vals
        if isinstance(v, GV):
            try:
                a, b = self.unpack(v.a, n, st), self.unpack(v.b, n, st)
                if a and b:
                    return [self.merge(v.c, x, y, _H(st), _H(st), st.heap) for x, y in zip(a, b)]
            except Unsup:
                pass
        if c is None or isinstance(c, (Dct, Lst, Obj)):
            try:
                segs = self.segments(v, st) if isinstance(v, (IterV, Rng, K)) and v != NONE or isinstance(c, Dct) and not c.open \
                    or isinstance(c, Obj) and c.cls is not None and self.prog.find_method(c.cls, "__iter__", "method") else []
            except Unsup:
                segs = []
            if segs and all(g[0] == "one" and g[1].k == "T" for g in segs) and (len(segs) == n or starred):
                return [g[2] for g in segs]
        if starred:
            return None
        if isinstance(v, Tup) or (isinstance(c, Lst) and c.concrete()) or isinstance(c, Arr):
            raise Raised("ValueError")
        if v == NONE or (isinstance(v, Poly) and all(a.kind == "sym" for a in v.atoms())):
            raise Raised("TypeError")
        if isinstance(v, Opq):
            return [self.opq(f"{v.tag}[{i}]") for i in range(n)]
        return [self.opq(f"unpack{i}") for i in range(n)]

    def setattr(self, base, attr, v, st):
        c = st.cell(base)
        if isinstance(c, Obj):
            if c.cls is not None:
                sm = self.prog.find_setter(c.cls, attr)
                if sm is not None:
                    self.call_info(sm, st, [v], {}, selfv=base)
                    return
            st.w(base).attrs[attr] = v
            self.events.append(("setattr", base.id, attr, v, st.pc, self.site()))
            return
        if isinstance(base, GV):
            self.lift(base, st, lambda b, s: (self.setattr(b, attr, v, s), NONE)[1])
            return
        if isinstance(base, ClsV):
            st.w(self.shared_cell(base.info, st)).attrs[attr] = v
            return
        if isinstance(base, ModV):
            st.w(self.shared_cell(base.mod, st)).attrs[attr] = v
            return
        self.events.append(("setattr", None, attr, v, st.pc, self.site()))

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if isinstance(st.env.get(t.id), Box):
                    raise Unsup("del")
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, st)
                c = st.cell(b)
                if not isinstance(c, Obj) or t.attr not in c.attrs:
                    raise Unsup("del")
                st.w(b).attrs.pop(t.attr)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, st)
                ix = self.ev_index(t.slice, st)
                self.npm.delitem(b, ix, st)
            elif isinstance(t, (ast.Tuple, ast.List)):
                self.s_Delete(ast.copy_location(ast.Delete(t.elts), s), st)
            else:
                raise Unsup("del")
        return st

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        fr = self.stack[-1]
        if fr.yields is None or s.value is not None:
            fr.returns.append((st.pc, v, st.fork()))
        else:
            fr.returns.append((st.pc, fr.yields, st.fork()))
        return None

    def s_Raise(self, s, st):
        name = "?"
        if s.exc is not None:
            name = ast.unparse(s.exc.func if isinstance(s.exc, ast.Call) else s.exc)
            if isinstance(s.exc, ast.Call):
                self.ev(s.exc, st)
            elif isinstance(s.exc, ast.Name) and isinstance(st.env.get(s.exc.id), Opq) and self.handling:
                name = self.handling[-1]
        elif self.handling:
            name = self.handling[-1]
        self.raise_event(name, st, self.fullpc(st), s)
        return None

    def s_If(self, s, st):
        c = self.truth(self.ev(s.test, st), st)
        c = self.refine(c, st)
        if c.k == "T":
            return self.block(s.body, st)
        if c.k == "F":
            return self.block(s.orelse, st)
        return self.branch(c, st, lambda x: self.block(s.body, x), lambda x: self.block(s.orelse, x))

    def refine(self, c, st):
        """fold c under the path facts (syntactic only)."""
        if c.k in ("T", "F") or st.pc.k == "T":
            return c
        return alg.assume(c, st.pc, True) if isinstance(c, Cond) and c.k not in ("T", "F") else c

    def branch(self, c, st, f1, f2):
        s1, s2 = st.fork(), st.fork()
        pc0 = st.pc
        s1.pc, s2.pc = cand(pc0, c), cand(pc0, cnot(c))
        s1 = self.narrow(c, True, s1)
        s2 = self.narrow(c, False, s2)
        o1 = f1(s1)
        o2 = f2(s2)
        j = self.join(c, o1, o2)
        return j

    def narrow(self, c, val, st):
        """replace gamma values in locals whose gate is now decided."""
        env = st.env
        for k, v in list(env.items()):
            nv = self.narrow_val(v, c, val)
            if nv is not v:
                env[k] = nv
        return st

    def narrow_val(self, v, c, val):
        if isinstance(v, GV):
            g = alg.assume(v.c, c, val)
            if v.c == c:
                g = cbool(val)
            if g.k == "T":
                return v.a
            if g.k == "F":
                return v.b
        return v

    def s_With(self, s, st):
        return self.with_items(s, list(s.items), st)

    def with_items(self, s, items, st):
        if not items:
            return self.block(s.body, st)
        it, rest = items[0], items[1:]
        f = it.context_expr.func if isinstance(it.context_expr, ast.Call) else None
        fv = self.ev(f, st) if f is not None else None
        if isinstance(fv, Ext) and fv.name == "contextlib.suppress":
            names = [ast.copy_location(a, s) for a in it.context_expr.args]
            inner = s.body if not rest else [ast.copy_location(ast.With(rest, s.body), s)]
            h = ast.ExceptHandler(ast.Tuple(names, ast.Load()), None, [ast.copy_location(ast.Pass(), s)])
            return self.s_Try(ast.copy_location(ast.Try(inner, [ast.copy_location(h, s)], [], []), s), st)
        if isinstance(fv, (FnV, BM)) and any(ast.unparse(d).endswith("contextmanager") for d in getattr(fv.info.node, "decorator_list", [])):
            return self.with_generator(s, it, rest, fv, st)
        v = self.ev(it.context_expr, st)
        c = st.cell(v)
        if isinstance(c, Obj) and c.cls is not None:
            en = self.prog.find_method(c.cls, "__enter__", "method")
            ex = self.prog.find_method(c.cls, "__exit__", "method")
            if en is None or ex is None:
                raise Unsup("with")
            x = self.call_info(en, st, [], {}, selfv=v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, x, st)
            tmp = f"__cm{next(_VID)}"
            st.env[tmp] = v
            none = lambda: ast.Constant(None)
            call = ast.Expr(ast.Call(ast.Attribute(ast.Name(tmp, ast.Load()), "__exit__", ast.Load()), [none(), none(), none()], []))
            inner = s.body if not rest else [ast.copy_location(ast.With(rest, s.body), s)]
            t = ast.copy_location(ast.Try(inner, [], [], [call]), s)
            ast.fix_missing_locations(t)
            return self.s_Try(t, st)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, st)
        return self.with_items(s, rest, st)

    def with_generator(self, s, it, rest, fv, st):
        """the body runs at the (single) yield of the manager's generator"""
        args, kw = self.call_args(it.context_expr, st)
        info = fv.info
        full = ([fv.obj] if isinstance(fv, BM) and not info.is_static else []) + list(args)
        env = self.bind(info, st, full, kw, getattr(fv, "defaults", None))
        caller, outer = self.stack[-1], st.env
        got = []

        def onyield(v, g):
            if got:
                raise Unsup("context manager yields twice")
            x = State(dict(outer), g.heap, TRUE)
            x.pc = st.pc
            held = self.stack[len(self.stack) - self.stack[::-1].index(caller):]
            del self.stack[-len(held):]
            nret = len(caller.returns)
            try:
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, x)
                x = self.with_items(s, rest, x)
            finally:
                self.stack.extend(held)
            if x is None or len(caller.returns) > nret:
                raise Unsup("context manager body leaves early")
            got.append(x)
            g.heap = x.heap
        m = _Manager(info, onyield)
        self.managers = getattr(self, "managers", [])
        self.managers.append(m)
        try:
            self.run(info, env, st, getattr(fv, "env", None))
        finally:
            self.managers.pop()
        if len(got) != 1:
            raise Unsup("context manager does not yield once")
        st.env = got[0].env
        st.pc = got[0].pc
        return st

    def s_ClassDef(self, s, st):
        fr = self.stack[-1]
        st.env[s.name] = ClsV(ClassInfo(s, fr.mod))
        return st

    def s_Match(self, s, st):
        """match statement: first case whose pattern holds"""
        v = self.ev(s.subject, st)
        return self.match_cases(s, list(s.cases), v, st)

    def match_cases(self, s, cases, v, st):
        if not cases:
            return st
        k = cases[0]
        names = {}
        c = self.pattern(k.pattern, v, st, names)

        def taken(x):
            for nm, val in names.items():
                self.assign(ast.Name(nm, ast.Store()), val, x)
            if k.guard is None:
                return self.block(k.body, x)
            g = self.refine(self.truth(self.ev(k.guard, x), x), x)
            if g.k == "T":
                return self.block(k.body, x)
            if g.k == "F":
                return self.match_cases(s, cases[1:], v, x)
            return self.branch(g, x, lambda y: self.block(k.body, y), lambda y: self.match_cases(s, cases[1:], v, y))
        c = self.refine(c, st)
        if c.k == "T":
            return taken(st)
        if c.k == "F":
            return self.match_cases(s, cases[1:], v, st)
        return self.branch(c, st, taken, lambda x: self.match_cases(s, cases[1:], v, x))

    def pattern(self, p, v, st, names):
        if isinstance(p, ast.MatchValue):
            r = self.npm.compare(ast.Eq(), v, self.ev(p.value, st), st)
            return r if isinstance(r, Cond) else self.truth(r, st)
        if isinstance(p, ast.MatchSingleton):
            return self.npm.is_(v, K(None) if p.value is None else cbool(p.value), st)
        if isinstance(p, ast.MatchAs):
            c = TRUE if p.pattern is None else self.pattern(p.pattern, v, st, names)
            if p.name is not None:
                names[p.name] = v
            return c
        if isinstance(p, ast.MatchOr):
            return cor(*[self.pattern(q, v, st, names) for q in p.patterns])
        if isinstance(p, ast.MatchSequence):
            c = st.cell(v)
            if isinstance(v, (K, Poly, Cond)) or isinstance(c, Dct):
                return FALSE
            vals = list(v.items) if isinstance(v, Tup) else c.values() if isinstance(c, Lst) and c.concrete() and c.kind is None else None
            if vals is None and isinstance(c, Obj) and c.cls is not None and c.cls.is_namedtuple:
                vals = [c.attrs[f] for f, _ in c.cls.fields]
            if vals is None or any(isinstance(q, ast.MatchStar) for q in p.patterns):
                raise Unsup("match sequence")
            if len(vals) != len(p.patterns):
                return FALSE
            return cand(*[self.pattern(q, x, st, names) for q, x in zip(p.patterns, vals)])
        if isinstance(p, ast.MatchClass):
            cls = self.ev(p.cls, st)
            c = self.npm.isinst(v, cls, st)
            if c.k == "F":
                return c
            if p.patterns:
                if len(p.patterns) == 1 and isinstance(cls, Ext):
                    return cand(c, self.pattern(p.patterns[0], v, st, names))
                raise Unsup("match class")
            return cand(c, *[self.pattern(q, self.getattr(v, a, st), st, names) for a, q in zip(p.kwd_attrs, p.kwd_patterns)])
        if isinstance(p, ast.MatchMapping):
            c = st.cell(v)
            if isinstance(v, (K, Poly, Cond, Tup)) or isinstance(c, (Lst, Arr)):
                return FALSE
            if isinstance(c, Dct) and not c.open and p.rest is None:
                cs = []
                for k, q in zip(p.keys, p.patterns):
                    r = self.npm.dict_key(c, self.ev(k, st), st)
                    if r is None or r[0] == "hit" and self.has_undef(r[1]):
                        raise Unsup("match mapping")
                    if r[0] == "miss":
                        return FALSE
                    cs.append(self.pattern(q, r[1], st, names))
                return cand(*cs) if cs else TRUE
        raise Unsup("match")

    def s_Try(self, s, st):
        fr = self.stack[-1]
        nret = len(fr.returns)
        loop = fr.loops[-1] if fr.loops else None
        nbrk, ncon = (len(loop.breaks), len(loop.continues)) if loop else (0, 0)
        outer = None
        if s.finalbody:
            outer = _TryLayer(fr, len(self.stack))
            self.tries.append(outer)
        try:
            out = self.try_handlers(s, st, fr)
        finally:
            if outer is not None:
                self.tries.pop()
        if outer is None:
            return out

        def fin(x):
            return self.block(s.finalbody, x)
        # every way out of the protected region passes through the finalizer
        rets = fr.returns[nret:]
        del fr.returns[nret:]
        for pc, v, x in rets:
            x.env = dict(x.env)
            x.env["__ret"] = v
            y = fin(x)
            if y is not None:
                fr.returns.append((pc, y.env.pop("__ret", v), y))
        if loop is not None:
            for lst, n0 in ((loop.breaks, nbrk), (loop.continues, ncon)):
                if isinstance(lst, list) and len(lst) > n0:
                    todo = lst[n0:]
                    del lst[n0:]
                    lst += [y for y in (fin(x) for x in todo) if y is not None]
        if out is not None:
            out = fin(out)
        for name, pc, x, ev in outer.recs:
            y = fin(x)
            if y is not None:
                self.exc_exit(name, y, ev, pc)
        return out

    def try_handlers(self, s, st, fr):
        if not s.handlers:
            out = self.block(s.body, st)
            return self.block(s.orelse, out) if out is not None and s.orelse else out
        pre = st.fork()
        lay = _TryLayer(fr, len(self.stack))
        self.tries.append(lay)
        try:
            out = self.block(s.body, st)
        finally:
            self.tries.pop()
        if out is not None and s.orelse:
            out = self.block(s.orelse, out)
        todo = list(lay.recs)
        for h in s.handlers:
            names = self.handler_names(h)
            mine, rest = [], []
            for r in todo:
                m = self.exc_matches(r[0], names)
                if m is not False:
                    mine.append((r, m))
                if m is not True:
                    rest.append(r)
            todo = rest
            for (name, pc, x, ev), m in mine:
                if m is True:
                    self.events[:] = [e for e in self.events if e is not ev]
                g = pc if m is True else cand(pc, ckey("exc", self.site(h), next(_VID)))
                x = x.fork()
                x.pc = g
                ho = self.run_handler(h, x, name)
                if ho is not None:
                    out = self.join(g, ho, out)
                elif out is not None and m is True:
                    out.pc = cand(out.pc, cnot(g))
            if names and not (set(names) - {"StopIteration", "KeyError", "IndexError"} - self.exact_raise):
                continue
            if any(m is True for _, m in mine):
                continue
            # an exception from an operation that is not modelled: entered with an
            # unknown prefix of the body executed
            hs = pre.fork()
            for n in s.body:
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        hs.env[x.id] = self.opq(x.id)
            g = ckey("exc", self.site(h), next(_VID))
            hs.pc = cand(hs.pc, g)
            ho = self.run_handler(h, hs, "?")
            if ho is not None:
                out = self.join(g, ho, out)
        for name, pc, x, ev in todo:
            self.exc_exit(name, x, ev, pc)
        return out

    def run_handler(self, h, x, name):
        if h.name:
            x.env[h.name] = self.opq("exc")
        self.handling.append(name)
        try:
            return self.block(h.body, x)
        finally:
            self.handling.pop()

    @staticmethod
    def handler_names(h):
        if h.type is None:
            return []
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return [ast.unparse(t).split(".")[-1] for t in ts]

    def exc_matches(self, name, names):
        """does a handler for `names` catch exception `name`? True / False / None"""
        if not names or "BaseException" in names:
            return True
        name = name.split(".")[-1]
        up = self.exc_bases(name)
        if set(up) & set(names):
            return True
        return None if up[-1] == "?" else False

    def exc_bases(self, name):
        import builtins
        c = getattr(builtins, name, None)
        if isinstance(c, type) and issubclass(c, BaseException):
            return [k.__name__ for k in c.__mro__]
        if name == "LinAlgError":
            return ["LinAlgError"] + self.exc_bases("ValueError")
        for mod in self.prog.modules.values():
            for n in mod.tree.body:
                if isinstance(n, ast.ClassDef) and n.name == name:
                    out = [name]
                    for b in n.bases:
                        out += self.exc_bases(ast.unparse(b).split(".")[-1])
                    return out
        return [name, "?"]

    def s_FunctionDef(self, s, st):
        fr = self.stack[-1]
        f = FnV(FuncInfo(s, fr.mod), (st.env, fr.closure), self.defaults_of(s.args, st))
        f = self.decorate(f, s.decorator_list, st)
        self.assign(ast.copy_location(ast.Name(s.name, ast.Store()), s), f, st)
        return st

    def defaults_of(self, a, st):
        return ([self.ev(d, st) for d in a.defaults], [self.ev(d, st) if d is not None else None for d in a.kw_defaults])

    PLAIN = ("staticmethod", "classmethod", "property", "cached_property", "functools.cached_property",
             "abstractmethod", "abc.abstractmethod", "override", "typing.override", "overload", "typing.overload")

    def decorate(self, f, decs, st):
        for d in reversed(decs):
            t = ast.unparse(d)
            if t in self.PLAIN or t.endswith((".setter", ".deleter", ".getter", "contextmanager")):
                continue
            base = t.split("(")[0].split(".")[-1]
            if base in ("lru_cache", "cache"):
                f = MemoV(f, st.new(Dct()))
            else:
                f = self.call(self.ev(d, st), [f], {}, st)
        return f

    def has_decorators(self, info):
        return any(not (ast.unparse(d) in self.PLAIN or ast.unparse(d).endswith((".setter", ".deleter", ".getter", "contextmanager")))
                   for d in getattr(info.node, "decorator_list", []))

    def func_value(self, info, st):
        """the value bound to a module-level function or method name"""
        if not self.has_decorators(info):
            return FnV(info)
        return self.once(("dec", id(info.node)), info.module, lambda s: self.decorate(FnV(info), info.node.decorator_list, s), st)

    def s_Import(self, s, st):
        for k, b in import_bindings(s):
            st.env[k] = self.binding(self.prog.resolve_binding(b), st)
        return st

    s_ImportFrom = s_Import

    def binding(self, r, st):
        if r is None:
            return self.opq("unresolved")
        if r[0] == "func":
            return self.func_value(r[1], st)
        if r[0] == "class":
            return ClsV(r[1])
        if r[0] == "module":
            return ModV(r[1])
        if r[0] == "ext":
            return Ext(r[1])
        if r[0] == "assign":
            return self.global_value(r[1], r[2], st)
        return self.opq("binding")

    def global_value(self, mod, node, st):
        """one object per global binding: later readers in the same history see
        what earlier ones did to it"""
        if isinstance(node, ast.Constant):
            return self.e_Constant(node, st)
        return self.once(id(node), mod, lambda s: self.ev(node, s), st)

    def once(self, key, mod, f, st):
        memo = self.gmemo.get(key)
        if memo is not None:
            for k, c in memo[1].items():
                if k not in st.heap:
                    st.heap = {**st.heap, k: c.copy()}
            return memo[0]
        before = set(st.heap)
        v = self.global_eval(mod, f, st)
        fresh = {k: st.heap[k].copy() for k in st.heap if k not in before}
        if fresh and not isinstance(v, (Poly, K, Cond)):
            self.gmemo[key] = (v, fresh)
        return v

    def global_eval(self, mod, f, st):
        fr = Frame(None, mod)
        self.stack.append(fr)
        d = self.depth
        try:
            s = State({}, st.heap, TRUE)
            v = f(s)
            st.heap = s.heap
            return v
        except (Unsup, Raised):
            return self.opq("global")
        finally:
            self.stack.pop()

    # ---------------------------------------------------------------- loops
    def enum_values(self, ci, st):
        """constant member values of an integer enumeration, in order ([]: not one)"""
        vals = [self.global_value(k.module, e, st) for k in self.prog.mro(ci) for n, e in k.consts.items() if not n.startswith("_")]
        return vals if all(isinstance(v, Poly) and v.is_const() for v in vals) else []

    def segments(self, it, st):
        """iteration segments of an iterable."""
        if isinstance(it, IterV):
            return it.segs
        if isinstance(it, Tup):
            return [("one", TRUE, v) for v in it.items]
        if isinstance(it, K) and isinstance(it.v, str):
            return [("one", TRUE, K(ch)) for ch in it.v]
        if isinstance(it, Rng):
            lo, hi, stp = it.lo, it.hi, it.st
            if lo.is_const() and hi.is_const() and stp.is_const():
                r = range(int(lo.const()), int(hi.const()), int(stp.const()))
                if len(r) <= self.unroll:
                    return [("one", TRUE, const(i)) for i in r]
            s = sym(f"i{next(_VID)}", "0+" if alg.sign(lo) in (0, 0.5, 1) else None, dim=(), intlike=True)
            return [("many", ("range", lo, hi, stp), s)]
        c = st.cell(it)
        if isinstance(c, Lst) and c.kind == "iter":
            st.w(it).ent = []         # an iterator is used up
        if isinstance(c, Lst):
            return [("one", e[0], e[1]) if len(e) == 2 else ("many", e[0], e[2], e[1]) for e in c.ent]
        if isinstance(c, Arr):
            return [("one", TRUE, self.npm.getitem(it, const(i), st)) for i in range(c.shape[0])]
        if isinstance(c, Dct) and not c.open:
            return [("one", TRUE, k) for k in c.items]
        if isinstance(c, Obj) and c.cls is not None and c.cls.is_namedtuple:
            return [("one", TRUE, c.attrs[f]) for f, _ in c.cls.fields]
        if isinstance(c, Obj) and c.cls is not None:
            m = self.prog.find_method(c.cls, "__iter__", "method")
            if m is not None:
                v = self.call_info(m, st, [], {}, selfv=it)
                if v != it:
                    return self.segments(v, st)
        if isinstance(c, Fld):
            return [("many", ("fld", it.id), c.elem)]
        if isinstance(c, Sym):
            i = sym(f"i{next(_VID)}", "0+", dim=(), intlike=True)
            return [("many", ("range", const(0), c.shape[0] if isinstance(c.shape[0], Poly) else const(c.shape[0]), ONE), self.npm.getitem(it, i, st))]
        if isinstance(it, GV):
            a, b = self.segments(it.a, st), self.segments(it.b, st)
            out = []
            for seg, g in [(x, it.c) for x in a] + [(x, cnot(it.c)) for x in b]:
                if seg[0] == "one":
                    out.append(("one", cand(g, seg[1]), seg[2]))
                else:
                    out.append(("many", seg[1], seg[2], cand(g, seg[3] if len(seg) > 3 else TRUE)))
            return out
        if isinstance(it, ClsV) and it.info.is_enum:
            vals = self.enum_values(it.info, st)
            if vals:
                return [("one", TRUE, v) for v in dict.fromkeys(vals)]
            return [("many", ("enum", it.info.name), self.opq("enum"))]
        tag = it.tag if isinstance(it, Opq) else "iter"
        ident = it.id if isinstance(it, (Opq, Ref)) else next(_VID)
        elem = self.iter_elem(it, st)
        return [("many", ("opq", tag, ident), elem)]

    def iter_elem(self, it, st):
        return self.opq(f"elem of {it!r}")

    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        live = st.cell(it)
        live = live if isinstance(live, Lst) and live.kind == "iter" else None
        ent = list(live.ent) if live is not None else []
        segs = self.segments(it, st)
        brk = [FALSE]
        for i, seg in enumerate(segs):
            if st is None:
                return None
            if seg[0] == "one":
                g = cand(seg[1], cnot(brk[0]))
                if g.k == "F":
                    continue
                if live is not None:
                    st.w(it).ent = ent[i + 1:] if g.k == "T" else [(("iter", next(_VID)), TRUE, self.opq("rest"))]
                    mark = st.heap[it.id]
                if g.k == "T":
                    st = self.iterate(s, seg[2], st, brk)
                else:
                    st = self.branch(g, st, lambda x, v=seg[2]: self.iterate(s, v, x, brk), lambda x: x)
                if live is not None and st is not None and st.heap.get(it.id) is not mark and brk[0].k != "T":
                    raise Unsup("iterator advanced inside its loop")
            else:
                st = self.loop_many(s, seg, st)
        if live is not None and st is not None and brk[0].k != "T":
            st.w(it).ent = [] if brk[0].k == "F" else [(("iter", next(_VID)), TRUE, self.opq("rest"))]
        if s.orelse and st is not None:
            g = cnot(brk[0])
            if g.k == "T":
                st = self.block(s.orelse, st)
            elif g.k != "F":
                st = self.branch(g, st, lambda x: self.block(s.orelse, x), lambda x: x)
        return st

    def iterate(self, s, v, st, brk):
        """one concrete iteration; after a conditional `break` the remaining
        iterations run under the negated break guard."""
        lc = _Loop(s, None, None)
        fr = self.stack[-1]
        fr.loops.append(lc)
        try:
            self.assign(s.target, v, st)
            st = self.body(s, st, lc)
        finally:
            fr.loops.pop()
        for bs in lc.breaks:
            brk[0] = cor(brk[0], bs.pc)
            st = self.join(bs.pc, bs, st)
        return st

    def body(self, s, st, lc):
        out = self.block(s.body, st)
        for cs in lc.continues:
            out = self.join(cs.pc, cs, out)
        lc.continues = []
        return out

    def s_Break(self, s, st):
        self.stack[-1].loops[-1].breaks.append(st.fork())
        return None

    def s_Continue(self, s, st):
        self.stack[-1].loops[-1].continues.append(st.fork())
        return None

    def loop_many(self, s, seg, st, cond_test=None):
        """summarise a loop of unknown length by one abstract iteration."""
        key, val = seg[1], seg[2]
        guard = seg[3] if len(seg) > 3 else TRUE
        fr = self.stack[-1]
        lid = next(_VID)
        lc = _Loop(s, key, val, guard, lid)
        mark = next(alg._ids)
        nev, nlr, nrs = len(self.events), len(self.looprecs), len(self.reasons)
        ntr = [(lay, len(lay.recs)) for lay in self.tries]

        def one(x):
            fr.loops.append(lc)
            lc.breaks, lc.continues = [], []
            try:
                if s is not None and not isinstance(s, ast.While):
                    self.assign(s.target, val, x)
                elif cond_test is not None:
                    x.pc = cand(x.pc, self.truth(self.ev(cond_test, x), x))
                return self.body(s, x, lc)
            finally:
                fr.loops.pop()

        # dry run: discover the slots that change
        pc_in = st.pc
        nret = len(fr.returns)
        d0 = st.fork()
        d0.pc = cand(pc_in, guard)
        d1 = one(d0.fork())
        del fr.returns[nret:]
        for lay, n in ntr:
            del lay.recs[n:]
        del self.events[nev:]
        del self.looprecs[nlr:]
        del self.reasons[nrs:]
        brks = list(lc.breaks)
        cand_states = [x for x in [d1] + brks if x is not None]
        changed_env, changed_cells = set(), set()
        for x in cand_states:
            for k, v in x.env.items():
                if k not in st.env:
                    changed_env.add(k)
                elif st.env[k] is not v and st.env[k] != v:
                    changed_env.add(k)
            for i, cell in x.heap.items():
                if i in st.heap and st.heap[i] is not cell:
                    changed_cells.add(i)
        # generic iteration
        mu = st.fork()
        slots = {}
        for k in changed_env:
            if k in st.env:
                mu.env[k] = self.mu_val(k, st.env[k], st, mu, lid, slots, ("env", k))
            else:
                mu.env.pop(k, None)
        for i in changed_cells:
            mu.heap[i] = self.mu_cell(i, st.heap[i], cand_states, lid, slots, mu)
        mu.pc = cand(pc_in, guard)
        mu0 = mu.fork()
        out = one(mu)
        brks = list(lc.breaks)
        if out is None and not brks:
            # body never falls through (always returns/raises): loop runs <= once
            return st
        res = st.fork()
        ne = ckey("nonempty", lid, str(key)[:60])
        if out is None:
            out = brks[0]
        has_break = bool(brks)
        for k in changed_env:
            init = st.env.get(k, UNDEF)
            m = mu0.env.get(k, UNDEF)
            step = out.env.get(k, UNDEF)
            res.env[k] = self.close(init, m, step, lid, key, mark, k, has_break, res, out, lc)
        for i in changed_cells:
            res.heap[i] = self.close_cell(i, st.heap[i], mu0.heap[i], out.heap.get(i), lid, key, mark, has_break, res, out, lc, guard)
        # new cells created in the body stay reachable
        for i, cell in out.heap.items():
            if i not in res.heap:
                res.heap[i] = cell
        res.pc = pc_in
        return res

    def mu_val(self, k, v, st, mu, lid, slots, slot):
        if isinstance(v, Poly):
            m = opaque(f"mu_{k}")
            m_at = next(iter(m.atoms()))
            try:
                d = alg.dim_of(v)
                if d is not None:
                    m_at.dim = d
            except (alg.DimError, alg.DimUnknown):
                pass
            return m
        if isinstance(v, Cond):
            return copaque(f"mu_{k}")
        return self.opq(f"mu_{k}")

    def mu_cell(self, i, c, outs, lid, slots, mu):
        if isinstance(c, Arr):
            data = list(c.data)
            for x in outs:
                y = x.heap.get(i)
                if not isinstance(y, Arr) or y.shape != c.shape:
                    return Arr(c.shape, [opaque(f"mu{i}") for _ in data])
                for j, (p, q) in enumerate(zip(c.data, y.data)):
                    if p != q and data[j] is c.data[j]:
                        data[j] = opaque(f"mu_arr{j}")
            return Arr(c.shape, data)
        if isinstance(c, Fld):
            return Fld(opaque("mu_fld"), c.st, {}, c.n)
        if isinstance(c, Obj):
            attrs = dict(c.attrs)
            for x in outs:
                y = x.heap.get(i)
                if isinstance(y, Obj):
                    for k, v in y.attrs.items():
                        if k not in c.attrs:
                            attrs.pop(k, None)
                        elif c.attrs[k] is not v and c.attrs[k] != v:
                            attrs[k] = self.mu_val(k, c.attrs[k], None, None, lid, slots, None)
            return Obj(c.cls, attrs, c.tag)
        if isinstance(c, Lst):
            for x in outs:
                y = x.heap.get(i)
                if not isinstance(y, Lst) or y.ent[: len(c.ent)] != c.ent:
                    return Lst([(("mu", lid), TRUE, self.opq("mu_list"))])
            return c.copy()
        if isinstance(c, Dct):
            d = c.copy()
            d.open = True
            for x in outs:
                y = x.heap.get(i)
                if isinstance(y, Dct):
                    for k, v in c.items.items():
                        if k in y.items and y.items[k] != v:
                            d.items[k] = self.mu_val(str(k), v, None, None, lid, slots, None)
            return d
        return c.copy()

    def close(self, init, m, step, lid, key, mark, name, has_break, res, out, lc):
        self.looprecs.append(LoopRec(self.site(), key, name, init, m, step))
        if isinstance(step, Poly) and isinstance(m, Poly) and isinstance(init, Poly):
            return self.close_num(init, m, step, lid, key, mark, has_break, lc)
        if init is UNDEF:
            if isinstance(step, (Poly, Cond)):
                return GV(ckey("nonempty", lid), self.last(step, lid, mark), UNDEF) if False else self.opq(f"last {name}")
            return self.opq(f"last {name}")
        if step == m:
            return init
        if isinstance(step, Poly) and isinstance(m, Opq):
            e = step - m.as_num()
        return self.opq(f"loop {name}")

    def last(self, step, lid, mark):
        return opaque("last")

    def variant(self, p, mark, lc):
        """does p depend on something created in / bound by the loop?"""
        lv = self.loopsyms(lc)
        for a in p.syms():
            if a.id >= mark or a in lv:
                return True
        return False

    def loopsyms(self, lc):
        out = set()

        def rec(v, d=0):
            if isinstance(v, Poly):
                out.update(v.syms())
            elif isinstance(v, Tup):
                for x in v.items:
                    rec(x, d)
            elif isinstance(v, Opq) and v.num is not None:
                out.update(v.num.syms())

        # only treat fresh symbols as loop variant
        if lc.val is not None:
            rec(lc.val)
        return out

    def mk_sum(self, lid, e, mark, lc):
        """linear normal form of a sum over the loop: constants pulled out."""
        out = ZERO
        lv = self.loopsyms(lc)

        def var(a):
            return a.id >= mark and a.kind in ("opq",) or any(x in lv or x.id >= mark for x in a.syms)

        for m, c in e.t.items():
            vm = tuple((a, k) for a, k in m if var(a))
            cm = tuple((a, k) for a, k in m if not var(a))
            outer = Poly({cm: c})
            inner = Poly({vm: Fraction(1)})
            out = out + outer * fn("sum", K((lid,)), inner)
        return out

    def close_num(self, init, m, step, lid, key, mark, has_break, lc):
        if step == m:
            return init
        d = step - m
        matoms = m.syms()
        if not has_break and not (d.syms() & matoms):
            return init + self.mk_sum(lid, d, mark, lc)
        return opaque("loop")

    def close_cell(self, i, c0, cm, c1, lid, key, mark, has_break, res, out, lc, guard):
        if c1 is None:
            return c0
        if isinstance(c0, Arr) and isinstance(c1, Arr) and c0.shape == c1.shape:
            data = []
            for j, (a, m, b) in enumerate(zip(c0.data, cm.data, c1.data)):
                if b == m and a == m:
                    data.append(a)
                elif isinstance(a, Poly) and isinstance(b, Poly):
                    self.looprecs.append(LoopRec(self.site(), key, f"cell{i}[{j}]", a, m, b))
                    data.append(self.close_num(a, m, b, lid, key, mark, has_break, lc))
                else:
                    data.append(opaque("loop"))
            return Arr(c0.shape, data)
        if isinstance(c0, Fld) and isinstance(c1, Fld):
            self.looprecs.append(LoopRec(self.site(), key, f"fld{i}", c0, cm, c1))
            if isinstance(c1.elem, Poly) and isinstance(c0.elem, Poly):
                e = self.close_num(c0.elem, cm.elem, c1.elem, lid, key, mark, has_break, lc)
            else:
                e = opaque("loop")
            return Fld(e, c0.st or c1.st, {}, c0.n)
        if isinstance(c0, Obj) and isinstance(c1, Obj):
            attrs = dict(c0.attrs)
            for k, v in c1.attrs.items():
                if k not in c0.attrs:
                    self.looprecs.append(LoopRec(self.site(), key, f"attr.{k}", UNDEF, UNDEF, v))
                    attrs[k] = self.opq(f"loop attr {k}")
                elif c0.attrs[k] is not v and c0.attrs[k] != v:
                    attrs[k] = self.close(c0.attrs[k], cm.attrs.get(k, UNDEF), v, lid, key, mark, f"attr.{k}", has_break, res, out, lc)
            return Obj(c0.cls, attrs, c0.tag)
        if isinstance(c0, Lst) and isinstance(c1, Lst):
            n = len(cm.ent)
            if c1.ent[:n] == cm.ent and cm.ent == c0.ent:
                new = []
                for e in c1.ent[n:]:
                    if len(e) == 2:
                        g = alg.assume(e[0], out.pc, True) if False else e[0]
                        new.append(((lid, key), cand(guard, g), e[1]))
                    else:
                        new.append((((lid, key),) + (e[0],), cand(guard, e[1]), e[2]))
                return Lst(list(c0.ent) + new)
            return Lst([(("loop", lid), TRUE, self.opq("loop list"))])
        if isinstance(c0, Dct):
            d = c0.copy()
            d.open = True
            if isinstance(c1, Dct):
                for k, v in c1.items.items():
                    if k not in c0.items or c0.items[k] != v:
                        d.items[k] = v if k not in c0.items else self.opq("loop dict")
            return d
        if isinstance(c0, Sym) and isinstance(c1, Sym):
            return c1
        return Dct({}, True, "loop")

    def s_While(self, s, st):
        c = self.truth(self.ev(s.test, st), st)
        # concrete unrolling while the test folds
        n = 0
        while c.k == "T" and n < self.unroll:
            lc = _Loop(s, None, None)
            self.stack[-1].loops.append(lc)
            try:
                st2 = self.body(s, st, lc)
            finally:
                self.stack[-1].loops.pop()
            if lc.breaks:
                if st2 is None and len(lc.breaks) == 1 and lc.breaks[0].pc == st.pc:
                    return lc.breaks[0]      # certainly left by break
                break
            if st2 is None:
                return None
            st = st2
            c = self.truth(self.ev(s.test, st), st)
            n += 1
        if c.k == "F":
            return self.block(s.orelse, st) if s.orelse else st
        if s.orelse:
            raise Unsup("while-else")
        return self.loop_many(s, ("many", ("while", next(_VID)), None), st, cond_test=s.test)

    # ---------------------------------------------------------- expressions
    def ev(self, n, st):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsup(f"expr {type(n).__name__}")
        return m(n, st)

    def e_Constant(self, n, st):
        v = n.value
        if isinstance(v, bool):
            return cbool(v)
        if isinstance(v, int):
            return const(v)
        if isinstance(v, float):
            if v != v or v in (float("inf"), float("-inf")):
                return opaque("inf", dim=())
            return const(alg.float_frac(v))
        return K(v)

    def e_Name(self, n, st):
        if n.id in st.env:
            v = st.env[n.id]
            return self.box_get(v, n.id, st) if isinstance(v, Box) else v
        fr = self.stack[-1]
        cl = fr.closure
        while cl is not None:
            env, cl2 = cl
            if n.id in env:
                v = env[n.id]
                return self.box_get(v, n.id, st) if isinstance(v, Box) else v
            cl = cl2
        for f in reversed(self.stack[:-1] if fr.closure is not None else []):
            # bound in the enclosing function after the closure was made
            if f.cur_state is not None and f.info is not None and n.id in f.cur_state.env and any(x is fr.info.node for x in ast.walk(f.info.node)):
                v = f.cur_state.env[n.id]
                return self.box_get(v, n.id, st) if isinstance(v, Box) else v
        return self.module_name(fr.mod, n.id, st)

    def module_name(self, mod, name, st):
        def static():
            if name in mod.funcs or name in mod.classes or name in mod.assigns or name in mod.imports:
                r = self.prog.lookup_global(mod, name)
                if r is None:
                    return self.opq(name)
                return self.binding(r, st)
            return Ext("builtins." + name)
        if mod in self.shared:
            i = self.shared[mod]
            c = st.heap.get(i)
            if c is not None and name in c.attrs:
                return self.fill_undef(c.attrs[name], static)
        return static()

    def e_Attribute(self, n, st):
        base = self.ev(n.value, st)
        return self.getattr(base, n.attr, st)

    def getattr(self, base, attr, st):
        if isinstance(base, Ref):
            c = st.cell(base)
            if isinstance(c, Obj):
                if attr in c.attrs:
                    return c.attrs[attr]
                if c.cls is not None:
                    p = self.prog.find_method(c.cls, attr, "prop")
                    if p:
                        v = self.call_info(p, st, [], {}, selfv=base)
                        if any(ast.unparse(d).endswith("cached_property") for d in p.node.decorator_list):
                            st.w(base).attrs[attr] = v
                        return v
                    for k in self.prog.mro(c.cls) if self.shared else ():
                        sc = st.heap.get(self.shared.get(k))
                        if sc is not None and attr in sc.attrs:
                            return self.shared_get(k, attr, st, lambda: self.static_attr(base, c, attr, st))
                    m = self.prog.find_method(c.cls, attr, "method")
                    if m:
                        if self.has_decorators(m):
                            f = self.func_value(m, st)
                            return f if m.is_static else PartV(f, [ClsV(c.cls) if m.is_class else base])
                        if m.is_static:
                            return FnV(m)
                        if m.is_class:
                            return BM(ClsV(c.cls), m)
                        return BM(base, m)
                    k = self.prog.find_const(c.cls, attr)
                    if k:
                        return self.global_value(k[0].module, k[1], st)
                if attr == "__class__" and c.cls is not None:
                    return ClsV(c.cls)
                if attr == "__dict__":
                    return st.new(Dct({K(k): v for k, v in c.attrs.items()}, c.tag is not None, ("attrs", base)))
                if c.cls is not None and c.cls.is_namedtuple and attr in ("_replace", "_asdict", "index", "count"):
                    return NM(base, attr)
                v = self.opq(f"{c.tag or (c.cls.name if c.cls else 'obj')}.{attr}")
                st.w(base).attrs[attr] = v
                return v
            return self.npm.getattr(base, attr, st)
        if isinstance(base, ModV):
            r = self.prog.lookup_global(base.mod, attr)
            return self.binding(r, st) if r else self.opq(attr)
        if isinstance(base, Ext):
            return self.npm.ext_attr(base.name, attr)
        if isinstance(base, ClsV):
            ci = base.info
            if attr in ("__name__", "__qualname__"):
                return K(ci.name)
            if attr == "__dict__":
                d = {}
                for nm, m in ci.methods.items():
                    d[K(nm)] = self.func_value(m, st)
                for nm, e in ci.consts.items():
                    d[K(nm)] = self.global_value(ci.module, e, st)
                sc = st.heap.get(self.shared.get(ci))
                if sc is not None:
                    for nm, v in sc.attrs.items():
                        d[K(nm)] = self.fill_undef(v, lambda nm=nm: d.get(K(nm), UNDEF))
                return st.new(Dct(d))
            for k in self.prog.mro(ci) if self.shared else ():
                sc = st.heap.get(self.shared.get(k))
                if sc is not None and attr in sc.attrs:
                    def static():
                        kk = self.prog.find_const(ci, attr)
                        return self.global_value(kk[0].module, kk[1], st) if kk else UNDEF
                    return self.fill_undef(sc.attrs[attr], static)
            m = self.prog.find_method(ci, attr, "method")
            if m:
                if self.has_decorators(m):
                    f = self.func_value(m, st)
                    return PartV(f, [base]) if m.is_class else f
                if m.is_class:
                    return BM(base, m)
                return FnV(m)
            k = self.prog.find_const(ci, attr)
            if k:
                return self.global_value(k[0].module, k[1], st)
            if attr in ci.nested:
                return ClsV(ci.nested[attr])
            return self.opq(f"{ci.name}.{attr}")
        if isinstance(base, GV):
            return self.lift(base, st, lambda b, s: self.getattr(b, attr, s))
        if isinstance(base, BM) and attr in ("__name__", "__doc__"):
            return K(base.info.name)
        if isinstance(base, FnV) and attr in ("__name__", "__doc__"):
            return K(base.info.name)
        if isinstance(base, Opq):
            return self.opq_attr(base, attr, st)
        if base is NONE:
            raise Raised("AttributeError")
        return NM(base, attr)

    def static_attr(self, base, c, attr, st):
        m = self.prog.find_method(c.cls, attr, "method")
        if m:
            return FnV(m) if m.is_static else BM(ClsV(c.cls) if m.is_class else base, m)
        k = self.prog.find_const(c.cls, attr)
        return self.global_value(k[0].module, k[1], st) if k else UNDEF

    def opq_attr(self, base, attr, st):
        cache = self.__dict__.setdefault("_opqattr", {})
        k = (base.id, attr)
        if k not in cache:
            if attr in _METHODLIKE:
                return NM(base, attr)
            cache[k] = Opq(f"{base.tag}.{attr}")
        return cache[k]

    def e_Tuple(self, n, st):
        return Tup(self.elts(n.elts, st))

    def elts(self, elts, st):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, st)
                segs = self.segments(v, st)
                if all(s[0] == "one" and s[1].k == "T" for s in segs):
                    out += [s[2] for s in segs]
                else:
                    raise Unsup("starred")
            else:
                out.append(self.ev(e, st))
        return out

    def e_List(self, n, st):
        ent = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, st)
                for s in self.segments(v, st):
                    ent.append((s[1], s[2]) if s[0] == "one" else (s[1], s[3] if len(s) > 3 else TRUE, s[2]))
            else:
                ent.append((TRUE, self.ev(e, st)))
        return st.new(Lst(ent))

    def e_Set(self, n, st):
        return self.as_set(st.new(Lst([(TRUE, v) for v in self.elts(n.elts, st)])), st)

    def as_set(self, v, st):
        r = self.npm.distinct(v, st)
        if isinstance(st.cell(r), Lst):
            st.w(r).kind = "set"
        return r

    def e_Dict(self, n, st):
        d, op = {}, False
        for k, v in zip(n.keys, n.values):
            if k is None:
                c = st.cell(self.ev(v, st))
                if isinstance(c, Dct):
                    d.update(c.items)
                    op = op or c.open
                else:
                    op = True
                continue
            kv = self.ev(k, st)
            vv = self.ev(v, st)
            try:
                d[kv] = vv
            except TypeError:
                op = True
        return st.new(Dct(d, op))

    def e_IfExp(self, n, st):
        c = self.refine(self.truth(self.ev(n.test, st), st), st)
        if c.k == "T":
            return self.ev(n.body, st)
        if c.k == "F":
            return self.ev(n.orelse, st)
        gv = GV(c, n.body, n.orelse)

        def f(x, s):
            self.narrow(c, x is n.body, s)
            return self.ev(x, s)

        return self.lift(gv, st, f)

    def e_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)
        vals = []
        acc = TRUE if isand else FALSE
        cur = st
        # short-circuit: later operands are evaluated under the earlier facts
        for i, e in enumerate(n.values):
            s2 = st if i == 0 else st
            pc0 = st.pc
            if i and isand:
                st.pc = cand(pc0, acc)
            elif i:
                st.pc = cand(pc0, cnot(acc))
            try:
                v = self.ev(e, st)
            except Raised:
                v = copaque("raised")
            finally:
                st.pc = pc0
            vals.append(v)
            c = self.truth(v, st)
            acc = cand(acc, c) if isand else cor(acc, c)
            if acc.k == ("F" if isand else "T"):
                if isinstance(v, Cond):
                    return acc
                return self.boolop_value(isand, vals, st)
        if all(isinstance(v, Cond) for v in vals):
            return acc
        return self.boolop_value(isand, vals, st)

    def boolop_value(self, isand, vals, st):
        r = vals[-1]
        for v in reversed(vals[:-1]):
            c = self.truth(v, st)
            if isand:
                r = self.merge(c, r, v, _H(st), _H(st), st.heap)
            else:
                r = self.merge(c, v, r, _H(st), _H(st), st.heap)
        return r

    def e_UnaryOp(self, n, st):
        v = self.ev(n.operand, st)
        if isinstance(n.op, ast.Not):
            return cnot(self.truth(v, st))
        if isinstance(n.op, ast.USub):
            c = st.cell(v)
            if isinstance(c, Obj) and c.cls is not None and not c.cls.is_namedtuple:
                m = self.prog.find_method(c.cls, "__neg__", "method")
                if m is None:
                    raise Unsup("neg")
                return self.call_info(m, st, [], {}, selfv=v)
            return self.npm.map1(v, lambda p: -p, st)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            if isinstance(v, Poly):
                return -v - ONE
            return self.npm.map1c(v, cnot, st)
        raise Unsup("unary")

    def e_BinOp(self, n, st):
        a = self.ev(n.left, st)
        b = self.ev(n.right, st)
        self.cur = n
        return self.binop(n.op, a, b, st)

    def binop(self, op, a, b, st):
        return self.npm.binop(op, a, b, st)

    def e_Compare(self, n, st):
        left = self.ev(n.left, st)
        acc = None
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, st)
            self.cur = n
            v = self.npm.compare(op, left, right, st)
            if acc is None:
                acc = v
            else:
                acc = self.npm.land(acc, v, st)
            left = right
        return acc

    def e_Call(self, n, st):
        # super().__init__
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == "super":
            return self.super_call(n, st)
        f = self.ev(n.func, st)
        args, kw = self.call_args(n, st)
        self.cur = n
        return self.call(f, args, kw, st)

    def call_args(self, n, st):
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                segs = self.segments(v, st)
                if all(s[0] == "one" and s[1].k == "T" for s in segs):
                    args += [s[2] for s in segs]
                else:
                    raise Unsup("star args")
            else:
                args.append(self.ev(a, st))
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                c = st.cell(v)
                if isinstance(c, Dct):
                    for kk, vv in c.items.items():
                        if isinstance(kk, K):
                            kw[kk.v] = vv
                    if c.open:
                        kw["**"] = v
                elif isinstance(v, GV):
                    kw["**"] = v
                else:
                    kw["**"] = v
            else:
                kw[k.arg] = v
        return args, kw

    def super_call(self, n, st):
        fr = self.stack[-1]
        ci = fr.info.cls
        selfv = st.env.get(fr.info.params[0]) if fr.info.params else None
        args, kw = self.call_args(n, st)
        for k in self.prog.mro(ci)[1:]:
            if n.func.attr in k.methods:
                return self.call_info(k.methods[n.func.attr], st, args, kw, selfv=selfv)
        return NONE

    def e_Subscript(self, n, st):
        base = self.ev(n.value, st)
        ix = self.ev_index(n.slice, st)
        self.cur = n
        return self.npm.getitem(base, ix, st)

    def ev_index(self, n, st):
        if isinstance(n, ast.Slice):
            return SliceV(
                self.ev(n.lower, st) if n.lower else None,
                self.ev(n.upper, st) if n.upper else None,
                self.ev(n.step, st) if n.step else None,
            )
        if isinstance(n, ast.Tuple):
            return Tup([self.ev_index(e, st) for e in n.elts])
        return self.ev(n, st)

    def e_Slice(self, n, st):
        return self.ev_index(n, st)

    def e_JoinedStr(self, n, st):
        parts, unknown = [], None
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, st)
                spec = ""
                if v.format_spec is not None:
                    spec = self.ev(v.format_spec, st)
                    spec = spec.v if isinstance(spec, K) else None
                t = self.npm.fmt(x, spec, st, {115: "s", 114: "r", 97: "a"}.get(v.conversion)) if spec is not None else self.opq("fstr")
                if isinstance(t, K) and unknown is None:
                    parts.append(t.v)
                elif unknown is None:
                    unknown = t
        return K("".join(parts)) if unknown is None else self.opq("fstr")

    def e_Lambda(self, n, st):
        fr = self.stack[-1]
        return FnV(FuncInfo(n, fr.mod), (st.env, fr.closure), self.defaults_of(n.args, st))

    def e_Starred(self, n, st):
        raise Unsup("starred")

    def e_NamedExpr(self, n, st):
        v = self.ev(n.value, st)
        self.assign(n.target, v, st)
        return v

    def e_Yield(self, n, st):
        v = self.ev(n.value, st) if n.value is not None else NONE
        mg = getattr(self, "managers", None)
        if mg and mg[-1].info is self.stack[-1].info:
            mg[-1].onyield(v, st)
            return NONE
        st.w(self.stack[-1].yields).ent.append((st.pc, v))
        return NONE

    def e_YieldFrom(self, n, st):
        v = self.ev(n.value, st)
        for g in self.segments(v, st):
            w = st.w(self.stack[-1].yields)
            if g[0] == "one":
                w.ent.append((cand(st.pc, g[1]), g[2]))
            else:
                w.ent.append((g[1], cand(st.pc, g[3] if len(g) > 3 else TRUE), g[2]))
        return NONE

    def e_ListComp(self, n, st):
        return self.comp(n, n.elt, st)

    def e_GeneratorExp(self, n, st):
        r = self.comp(n, n.elt, st)
        st.w(r).kind = "iter"
        return r

    def e_SetComp(self, n, st):
        return self.as_set(self.comp(n, n.elt, st), st)

    def e_DictComp(self, n, st):
        r = self.comp(n, ast.Tuple([n.key, n.value], ast.Load()), st)
        c = st.cell(r)
        d, op = {}, False
        for e in c.ent:
            if len(e) == 2 and e[0].k == "T" and isinstance(e[1], Tup):
                try:
                    d[e[1].items[0]] = e[1].items[1]
                    continue
                except TypeError:
                    pass
            op = True
        ref = st.new(Dct(d, op))
        if op:
            st.heap[ref.id].tag = ("star", c.ent)
        return ref

    def comp(self, n, elt, st):
        """comprehension == loop appending to a fresh list"""
        out = st.new(Lst())
        self.n_comp = getattr(self, "n_comp", 0) + 1
        tmp = f"__comp{self.n_comp}"
        saved = {k: v for k, v in st.env.items()}
        st.env[tmp] = out
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name) and isinstance(st.env.get(x.id), Box):
                    st.env.pop(x.id, None)      # the targets are locals of the comprehension
        body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(tmp, ast.Load()), "append", ast.Load()), [elt], []))]
        for g in reversed(n.generators):
            if g.ifs:
                test = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), list(g.ifs))
                body = [ast.If(test, body, [])]
            body = [ast.For(g.target, g.iter, body, [])]
        for b in body:
            for x in ast.walk(b):
                if not hasattr(x, "lineno"):
                    x.lineno = getattr(n, "lineno", 0)
                    x.col_offset = 0
        cache = self.__dict__.setdefault("_compcache", {})
        o = self.block(body, st)
        if o is None:
            raise Raised("in comprehension", True)
        st.heap = o.heap
        st.env.clear()
        st.env.update(saved)
        return out

    # -------------------------------------------------------------- lists
    def extend(self, ref, v, st):
        segs = self.segments(v, st)
        w = st.w(ref)
        for s in segs:
            if s[0] == "one":
                w.ent.append((s[1], s[2]))
            else:
                w.ent.append((s[1], s[3] if len(s) > 3 else TRUE, s[2]))

    def fld_at(self, f, k):
        """value of a station array at end index k."""
        if k in f.patch:
            return f.patch[k]
        if not isinstance(f.elem, (Poly, Cond)):
            return f.elem
        if f.st is None or not (f.elem.syms() if isinstance(f.elem, Poly) else _csyms(f.elem)) & f.st.x.syms():
            return f.elem
        if k == 0 and f.st.lo is not None:
            return alg.subst(f.elem, {f.st.x: f.st.lo})
        if k == -1 and f.st.hi is not None:
            return alg.subst(f.elem, {f.st.x: f.st.hi})
        x = f.st.x
        s = sym(f"{f.st.name}[{k}]", None, dim=next(iter(x.atoms())).dim)
        return alg.subst(f.elem, {x: s})

    # ------------------------------------------------------------- entry
    def analyze_call(self, dotted, args=(), kw=None, st=None, selfv=None):
        st = st or State()
        info = self.prog.func(dotted)
        if selfv is None and info.is_class and info.cls is not None and not (args and isinstance(args[0], ClsV)):
            selfv = ClsV(info.cls)
        top = Frame(None, info.module)
        self.stack.append(top)
        try:
            if selfv is not None:
                v = self.call_info(info, st, list(args), kw or {}, selfv=selfv)
            else:
                v = self.call_info(info, st, list(args), kw or {})
        finally:
            self.stack.pop()
        return v, st

    def new(self, clsname, st, *args, **kw):
        ci = self.prog.cls(clsname)
        top = Frame(None, ci.module)
        self.stack.append(top)
        try:
            return self.instantiate(ci, st, list(args), kw)
        finally:
            self.stack.pop()

    def meth(self, ref, name, st, *args, **kw):
        c = st.cell(ref)
        m = self.prog.find_method(c.cls, name)
        if m is None:
            from .prog import AnchorMissing

            raise AnchorMissing(f"{c.cls.name}.{name}")
        top = Frame(None, m.module)
        self.stack.append(top)
        try:
            if m.is_static:
                return self.call_info(m, st, list(args), kw)
            return self.call_info(m, st, list(args), kw, selfv=ref)
        finally:
            self.stack.pop()


def _csyms(c):
    s = set()
    for a in c.atoms():
        s |= a.syms
    return s


class _Loop:
    def __init__(self, node, key, val, guard=TRUE, lid=None):
        self.node, self.key, self.val, self.guard, self.lid = node, key, val, guard, lid
        self.breaks, self.continues = [], []


class _H:
    def __init__(self, st):
        self.heap_keys = st.heap


def _join_pc(p1, p2, c):
    if p1 == p2:
        return p1
    # (p & c) | (p & not c) -> p : common conjuncts
    a = set(p1.a) if p1.k == "and" else ({p1} if p1.k != "T" else set())
    b = list(p2.a) if p2.k == "and" else ([p2] if p2.k != "T" else [])
    return cand(*[x for x in b if x in a])


def _own_nodes(fn):
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


class _Manager:
    def __init__(self, info, onyield):
        self.info, self.onyield = info, onyield


_CAPT = {}


def _captured(fn):
    """locals of fn that an inner function rebinds, or that an inner function reads
    while fn binds them more than once: they live in shared cells"""
    if id(fn) in _CAPT:
        return _CAPT[id(fn)][1]
    inner = [n for n in ast.walk(fn) if n is not fn and isinstance(n, (ast.FunctionDef, ast.Lambda))]
    out = set()
    if inner:
        own = {}
        a = fn.args
        for p in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]:
            own[p.arg] = 1
        glob = set()

        def walk(n, loop):
            for ch in ast.iter_child_nodes(n):
                if isinstance(ch, (ast.Global, ast.Nonlocal)):
                    glob.update(ch.names)
                if isinstance(ch, ast.Name) and isinstance(ch.ctx, ast.Store):
                    own[ch.id] = own.get(ch.id, 0) + (2 if loop else 1)
                if isinstance(ch, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    continue
                walk(ch, loop or isinstance(ch, (ast.For, ast.While)))
        walk(fn, False)
        for f in inner:
            bound = {p.arg for p in f.args.posonlyargs + f.args.args + f.args.kwonlyargs}
            for p in (f.args.vararg, f.args.kwarg):
                if p:
                    bound.add(p.arg)
            nl = set()
            body = f.body if isinstance(f.body, list) else [f.body]
            for b in body:
                for x in ast.walk(b):
                    if isinstance(x, ast.Nonlocal):
                        nl.update(x.names)
            for b in body:
                for x in ast.walk(b):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in nl:
                        bound.add(x.id)
            for b in body:
                for x in ast.walk(b):
                    if isinstance(x, ast.Name) and x.id in own and x.id not in glob and x.id not in bound:
                        if x.id in nl or own[x.id] > 1:
                            out.add(x.id)
    _CAPT[id(fn)] = (fn, frozenset(out))
    return _CAPT[id(fn)][1]


def _opname(op):
    return {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/"}.get(type(op), "?")


from collections import namedtuple

W = namedtuple("W", "op ix val g loops site")
from .vals import _vid as _VID  # noqa

_METHODLIKE = {
    "append", "extend", "copy", "items", "keys", "values", "get", "strip", "upper",
    "lower", "split", "join", "format", "astype", "reshape", "tolist", "max", "min",
    "sum", "mean", "clip", "dot", "any", "all", "flatten", "ravel", "startswith",
    "endswith", "replace", "item", "sort", "pop", "update", "setdefault", "insert",
}

from .npmodel import NpModel  # noqa


def make(prog, hooks=None, tol0=False, **kw):
    it = Interp(prog, hooks, **kw)
    it.tol0 = tol0
    it.npm = NpModel(it)
    return it
