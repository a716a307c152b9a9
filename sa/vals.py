"""Abstract values and heap cells of the value-graph interpreter."""
from __future__ import annotations
from itertools import count
from .alg import *  # noqa

_vid = count(1)


class V:
    pass


class K(V):
    """Python constant that is not a number (None, str, Ellipsis, ...)."""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, K) and type(self.v) is type(o.v) and self.v == o.v

    def __hash__(self):
        return hash(("K", self.v))

    def __repr__(self):
        return repr(self.v)


NONE = K(None)


class Tup(V):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, Tup) and self.items == o.items

    def __hash__(self):
        return hash(self.items)

    def __repr__(self):
        return f"({', '.join(map(repr, self.items))})"


class Ref(V):
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return isinstance(o, Ref) and self.id == o.id

    def __hash__(self):
        return hash(("Ref", self.id))

    def __repr__(self):
        return f"ref{self.id}"


class GV(V):
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __eq__(self, o):
        return isinstance(o, GV) and (self.c, self.a, self.b) == (o.c, o.a, o.b)

    def __hash__(self):
        return hash((self.c, self.a, self.b))

    def __repr__(self):
        return f"[{self.c} ? {self.a!r} : {self.b!r}]"


class Opq(V):
    __slots__ = ("tag", "cls", "id", "num")

    def __init__(self, tag="?", cls=None):
        self.tag, self.cls, self.id = tag, cls, next(_vid)
        self.num = None

    def __repr__(self):
        return f"<?{self.tag}>"

    def as_num(self):
        if self.num is None:
            self.num = opaque(self.tag)
        return self.num


class FnV(V):
    __slots__ = ("info", "env", "defaults")

    def __init__(self, info, env=None, defaults=None):
        self.info, self.env, self.defaults = info, env, defaults

    def __repr__(self):
        return f"<fn {self.info.qual}>"


class PartV(V):
    """a callable with leading arguments (and keywords) already bound"""

    __slots__ = ("fn", "args", "kw")

    def __init__(self, fn, args=(), kw=None):
        self.fn, self.args, self.kw = fn, tuple(args), dict(kw or {})

    def __repr__(self):
        return f"<partial {self.fn!r}>"


class PrimV(V):
    """a callable defined by the analysis: f(args, kw, state) -> value"""

    __slots__ = ("name", "f")

    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return f"<prim {self.name}>"


class MemoV(V):
    """a function behind functools.lru_cache: results are shared objects"""

    __slots__ = ("fn", "ref")

    def __init__(self, fn, ref):
        self.fn, self.ref = fn, ref

    def __repr__(self):
        return f"<memo {self.fn!r}>"


class Box(V):
    """a local variable that lives in a shared cell (captured by a closure that
    rebinds it, or declared global)"""

    __slots__ = ("ref", "attr")

    def __init__(self, ref, attr="v"):
        self.ref, self.attr = ref, attr

    def __eq__(self, o):
        return isinstance(o, Box) and (self.ref, self.attr) == (o.ref, o.attr)

    def __hash__(self):
        return hash((self.ref, self.attr))


class BM(V):
    __slots__ = ("obj", "info")

    def __init__(self, obj, info):
        self.obj, self.info = obj, info

    def __repr__(self):
        return f"<bm {self.info.qual}>"


class NM(V):
    """bound method of a builtin/numpy value"""

    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class ReV(V):
    """a compiled pattern or a match of a constant string"""

    __slots__ = ("obj",)

    def __init__(self, obj):
        self.obj = obj


class ClsV(V):
    __slots__ = ("info",)

    def __init__(self, info):
        self.info = info

    def __eq__(self, o):
        return isinstance(o, ClsV) and self.info is o.info

    def __hash__(self):
        return hash(self.info)

    def __repr__(self):
        return f"<cls {self.info.name}>"


class ModV(V):
    __slots__ = ("mod",)

    def __init__(self, mod):
        self.mod = mod


class Ext(V):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and self.name == o.name

    def __hash__(self):
        return hash(("Ext", self.name))

    def __repr__(self):
        return f"<ext {self.name}>"


class Rng(V):
    __slots__ = ("lo", "hi", "st")

    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st


class SliceV(V):
    __slots__ = ("lo", "hi", "st")

    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st

    def __repr__(self):
        return f"{self.lo}:{self.hi}:{self.st}"


class IterV(V):
    """pre-computed iteration segments: ('one',guard,val) | ('many',key,val)"""

    __slots__ = ("segs", "stateful")

    def __init__(self, segs):
        self.segs, self.stateful = segs, False


# ------------------------------------------------------------------- cells


class Obj:
    __slots__ = ("cls", "attrs", "tag")

    def __init__(self, cls, attrs=None, tag=None):
        self.cls, self.attrs, self.tag = cls, attrs or {}, tag

    def copy(self):
        return Obj(self.cls, dict(self.attrs), self.tag)


class Lst:
    """entries: (guard, value) for one element, or (key, guard, value) star."""

    __slots__ = ("ent", "kind")

    def __init__(self, ent=(), kind=None):
        self.ent, self.kind = list(ent), kind     # kind: None (list) | "iter" | "set"

    def copy(self):
        return Lst(self.ent, self.kind)

    def concrete(self):
        return all(len(e) == 2 and e[0].k == "T" for e in self.ent)

    def values(self):
        return [e[-1] for e in self.ent]


class Dct:
    __slots__ = ("items", "open", "tag")

    def __init__(self, items=None, open=False, tag=None):
        self.items, self.open, self.tag = dict(items or {}), open, tag

    def copy(self):
        return Dct(self.items, self.open, self.tag)


class Arr:
    """explicit ndarray: shape of ints, flat list of Poly/Cond."""

    __slots__ = ("shape", "data")

    def __init__(self, shape, data):
        self.shape, self.data = tuple(shape), list(data)

    def copy(self):
        return Arr(self.shape, self.data)

    def at(self, *ix):
        o = 0
        for n, i in zip(self.shape, ix):
            o = o * n + i
        return self.data[o]


class Station:
    def __init__(self, x, lo=None, hi=None, n=None, name="x"):
        self.x, self.lo, self.hi, self.n, self.name = x, lo, hi, n, name


class Fld:
    """array over stations: generic element + patched end values."""

    __slots__ = ("elem", "st", "patch", "n")

    def __init__(self, elem, st=None, patch=None, n=None):
        self.elem, self.st, self.patch, self.n = elem, st, dict(patch or {}), n

    def copy(self):
        return Fld(self.elem, self.st, self.patch, self.n)


class Cat:
    """concatenation of station fields (piecewise quadrature nodes)."""

    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = list(parts)

    def copy(self):
        return Cat(self.parts)


class Sym:
    """array of symbolic shape: reads are atoms name[idx]; writes are logged."""

    __slots__ = ("shape", "name", "log", "init", "fun")

    def __init__(self, shape, name, init=None, log=(), fun=None):
        self.shape, self.name, self.init, self.log, self.fun = tuple(shape), name, init, list(log), fun

    def copy(self):
        return Sym(self.shape, self.name, self.init, self.log, self.fun)


class Undef(V):
    def __repr__(self):
        return "<undef>"

    def __eq__(self, o):
        return isinstance(o, Undef)

    def __hash__(self):
        return 7


UNDEF = Undef()


class State:
    __slots__ = ("env", "heap", "pc")

    def __init__(self, env=None, heap=None, pc=None):
        self.env = {} if env is None else env
        self.heap = {} if heap is None else heap
        self.pc = TRUE if pc is None else pc

    def fork(self):
        return State(dict(self.env), dict(self.heap), self.pc)

    def new(self, cell):
        i = next(_vid)
        self.heap[i] = cell
        return Ref(i)

    def cell(self, v):
        return self.heap.get(v.id) if isinstance(v, Ref) else None

    def w(self, v):
        """writable (copied) cell"""
        c = self.heap[v.id].copy()
        self.heap[v.id] = c
        return c
