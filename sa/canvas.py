"""A recording stand-in for the plotting libraries: what is drawn, on which axes.

Every axes object is an abstract heap object whose drawing methods append to a
log (method, arguments read out at the moment of drawing, path condition).
Nothing is drawn; the log is what the figure would show."""
from __future__ import annotations

from fractions import Fraction

from . import alg
from .alg import Poly, Cond, const, TRUE
from .vals import *  # noqa

DRAW = ("plot", "fill_between", "fill_betweenx", "fill", "bar", "barh", "scatter", "step", "stem", "axvline", "axhline", "axvspan", "axhspan", "vlines", "hlines",
        "annotate", "text", "add_patch", "add_line", "add_collection", "arrow", "quiver", "broken_barh", "errorbar", "imshow", "bar_label")
SETUP = ("invert_yaxis", "invert_xaxis", "set_ylabel", "set_xlabel", "set_title", "set_ylim", "set_xlim", "set_yticks", "set_xticks", "set_xticklabels", "set_yticklabels",
         "legend", "grid", "set_aspect", "tick_params", "cla", "clear", "axis", "set", "margins", "autoscale", "relim", "autoscale_view", "set_axisbelow", "set_visible", "set_yscale", "set_xscale")
PYPLOT_CURRENT = DRAW + ("title", "xlabel", "ylabel", "grid", "legend", "xlim", "ylim")


class Mark:
    def __init__(self, axes, kind, args, kw, pc):
        self.axes, self.kind, self.args, self.kw, self.pc = axes, kind, args, kw, pc

    def __repr__(self):
        return f"{self.kind}@{self.axes}{tuple(self.args)}"


class Canvas:
    def __init__(self, it, enumerate=False):
        self.enumerate = enumerate      # evenly spaced stations are listed one by one
        self.it, self.log, self.n, self.panels = it, [], 0, {}
        npm = it.npm
        base, a1, asarr = npm.call_ext, npm.n_atleast_1d, npm.n_asarray

        def call_ext(name, args, kw, st):
            if name.split(".")[0] in ("matplotlib", "plotly"):
                return self.ext(name, args, kw, st)
            return base(name, args, kw, st)
        npm.call_ext = call_ext

        grid = npm.n_linspace

        def linspace(args, kw, st):
            v = self.it.num(args[2] if len(args) > 2 else kw.get("num", const(50)), st)
            if self.enumerate and v.is_const() and 2 <= v.const() <= 400 and kw.get("endpoint", TRUE) == TRUE and "retstep" not in kw:
                n = int(v.const())
                a, b = self.it.num(args[0], st), self.it.num(args[1], st)
                return st.new(Arr((n,), [a + (b - a) * const(Fraction(i, n - 1)) for i in range(n)]))
            return grid(args, kw, st)
        npm.n_linspace = linspace

        def keep(f):
            def g(args, kw, st):
                c = st.cell(args[0]) if args else None
                if isinstance(c, Obj) and c.tag and c.tag[0] == "axes":
                    return st.new(Lst([(TRUE, args[0])]))
                if isinstance(c, Lst) and c.ent and self.is_axes(c.values()[0], st):
                    return args[0]
                return f(args, kw, st)
            return g
        for nm in ("n_atleast_1d", "n_asarray", "n_array", "n_ravel"):
            setattr(npm, nm, keep(getattr(npm, nm)))

    def is_axes(self, v, st):
        c = st.cell(v) if isinstance(v, Ref) else None
        return isinstance(c, Obj) and bool(c.tag) and c.tag[0] == "axes"

    # ------------------------------------------------------------ objects
    def axes(self, st, fig=None, twin=None):
        k = self.n
        self.n += 1
        ref = st.new(Obj(None, {}, ("axes", k)))
        self.panels[k] = dict(ref=ref, fig=fig, twin=twin)
        at = st.w(ref).attrs
        for m in DRAW + SETUP:
            at[m] = PrimV(m, self.method(k, m, st))
        at["twinx"] = PrimV("twinx", lambda a, kw, s: self.axes(s, fig, twin=k))
        at["twiny"] = PrimV("twiny", lambda a, kw, s: self.axes(s, fig, twin=k))
        at["get_ylim"] = PrimV("get_ylim", lambda a, kw, s: Tup([alg.sym(f"ylo{k}", None), alg.sym(f"yhi{k}", None)]))
        at["get_xlim"] = PrimV("get_xlim", lambda a, kw, s: Tup([alg.sym(f"xlo{k}", None), alg.sym(f"xhi{k}", None)]))
        at["figure"] = fig if fig is not None else self.figure(st)
        return ref

    def method(self, k, m, st0):
        def f(args, kw, st):
            self.record(k, m, args, kw, st)
            if m == "plot":
                return st.new(Lst([(TRUE, Opq("line"))]))
            if m == "bar":
                return Opq("bars")
            return NONE if m.startswith(("set_", "invert", "axis", "grid")) else Opq(m)
        return f

    def record(self, k, m, args, kw, st):
        self.log.append(Mark(k, m, [self.read(a, st) for a in args], {n: self.read(v, st) for n, v in kw.items()}, self.it.fullpc(st)))

    def figure(self, st):
        ref = st.new(Obj(None, {}, ("figure", self.n)))
        at = st.w(ref).attrs
        at["subplots"] = PrimV("subplots", lambda a, kw, s: self.grid(a, kw, s, ref))
        at["add_subplot"] = PrimV("add_subplot", lambda a, kw, s: self.axes(s, ref))
        at["add_axes"] = at["gca"] = at["add_subplot"]
        at["subfigures"] = PrimV("subfigures", lambda a, kw, s: self.grid(a, kw, s, ref, self.figure))
        return ref

    def grid(self, args, kw, st, fig, make=None):
        make = make or (lambda s: self.axes(s, fig))

        def size(i, nm):
            v = args[i] if len(args) > i else kw.get(nm, const(1))
            if isinstance(v, Poly) and v.is_const():
                return int(v.const())
            raise_unsup("subplot grid of unknown size")
        r, c = size(0, "nrows"), size(1, "ncols")
        if r == 1 and c == 1:
            return make(st)
        if r > 1 and c > 1:
            return st.new(Lst([(TRUE, st.new(Lst([(TRUE, make(st)) for _ in range(c)]))) for _ in range(r)]))
        return st.new(Lst([(TRUE, make(st)) for _ in range(max(r, c, 0))]))

    # ------------------------------------------------------------ plotly
    def pfigure(self, st, rows=1):
        ref = st.new(Obj(None, {}, ("plotly", self.n)))
        base = self.n
        self.n += rows
        for i in range(rows):
            self.panels[base + i] = dict(ref=ref, fig=ref, twin=None, row=i + 1)
        at = st.w(ref).attrs

        def rows_of(kw):
            v = kw.get("row", None)
            if v is None or v is NONE:
                return list(range(rows))
            if isinstance(v, Poly) and v.is_const() and 1 <= int(v.const()) <= rows:
                return [int(v.const()) - 1]
            if isinstance(v, Poly) and v.is_const() or v == K("all"):
                return list(range(rows)) if v == K("all") else []
            raise_unsup("plotly row")

        def trace(args, kw, st2, one=None):
            t = one if one is not None else args[0]
            c = st2.cell(t) if isinstance(t, Ref) else None
            rs = rows_of(kw)
            if "row" not in kw:
                rs = rs[:1]
            for r in rs:
                if isinstance(c, Obj) and c.tag and c.tag[0] == "trace":
                    d = dict(c.attrs)
                    self.log.append(Mark(base + r, "plot", [d.get("x", NONE), d.get("y", NONE)], {k: v for k, v in d.items() if k not in "xy"}, self.it.fullpc(st2)))
                else:
                    self.log.append(Mark(base + r, "plot", [Opq("trace")], {}, self.it.fullpc(st2)))
            return ref
        at["add_trace"] = PrimV("add_trace", trace)

        def traces(args, kw, st2):
            for t in st2.cell(args[0]).values():
                trace([t], kw, st2)
            return ref
        at["add_traces"] = PrimV("add_traces", traces)
        at["add_scatter"] = PrimV("add_scatter", lambda a, kw, s: trace([self.trace(kw, s)], kw, s))

        def yaxes(args, kw, st2):
            for r in rows_of(kw):
                if "title_text" in kw or "title" in kw:
                    self.log.append(Mark(base + r, "set_ylabel", [kw.get("title_text", kw.get("title"))], {}, self.it.fullpc(st2)))
                if "autorange" in kw:
                    self.log.append(Mark(base + r, "autorange", [kw["autorange"]], {}, self.it.fullpc(st2)))
            return ref
        at["update_yaxes"] = PrimV("update_yaxes", yaxes)

        def xaxes(args, kw, st2):
            for r in rows_of(kw):
                if "title_text" in kw:
                    self.log.append(Mark(base + r, "set_xlabel", [kw["title_text"]], {}, self.it.fullpc(st2)))
            return ref
        at["update_xaxes"] = PrimV("update_xaxes", xaxes)

        def hline(args, kw, st2):
            for r in rows_of(kw):
                self.log.append(Mark(base + r, "axhline", [self.read(kw.get("y", args[0] if args else NONE), st2)], {}, self.it.fullpc(st2)))
            return ref
        at["add_hline"] = PrimV("add_hline", hline)
        for m in ("update_layout", "update_traces"):
            at[m] = PrimV(m, lambda a, kw, s: ref)
        return ref

    def trace(self, kw, st):
        return st.new(Obj(None, {k: self.read(v, st) for k, v in kw.items()}, ("trace", 0)))

    # ------------------------------------------------------------ entry
    def ext(self, name, args, kw, st):
        short = name.split(".")[-1]
        if name.startswith("plotly"):
            if short == "Figure":
                f = self.pfigure(st)
                d = args[0] if args else kw.get("data", NONE)
                c = st.cell(d) if isinstance(d, Ref) else None
                ts = c.values() if isinstance(c, Lst) else [d] if d is not NONE else []
                for t in ts:
                    self.it.call(st.cell(f).attrs["add_trace"], [t], {}, st)
                return f
            if short == "make_subplots":
                v = kw.get("rows", args[0] if args else const(1))
                if not (isinstance(v, Poly) and v.is_const()):
                    raise_unsup("subplot grid of unknown size")
                return self.pfigure(st, int(v.const()))
            if short in ("Scatter", "Scattergl"):
                return self.trace(kw, st)
            return Opq(short)
        if name.startswith("matplotlib.pyplot"):
            if short == "subplots":
                fig = self.figure(st)
                return Tup([fig, self.grid(args, kw, st, fig)])
            if short == "figure":
                return self.figure(st)
            if short in ("gca", "subplot", "axes"):
                return self.axes(st)
            if short in PYPLOT_CURRENT:
                raise_unsup(f"pyplot.{short} on the current axes")
            if short in ("show", "tight_layout", "close", "pause", "savefig", "draw"):
                self.log.append(Mark(None, short, [], {}, self.it.fullpc(st)))
                return NONE
        if short and short[0].isupper():
            return st.new(Obj(None, {"args": Tup([self.read(a, st) for a in args]), "kw": st.new(Dct({K(k): self.read(v, st) for k, v in kw.items()}))}, ("patch", short)))
        return Opq(short)

    # ------------------------------------------------------------ reading
    def read(self, v, st):
        """the value as it is now: nested python lists of scalars where possible"""
        c = st.cell(v) if isinstance(v, Ref) else None
        if isinstance(v, Tup):
            return [self.read(x, st) for x in v.items]
        if isinstance(c, Arr) and len(c.shape) <= 1:
            return list(c.data) if c.shape else c.data[0]
        if isinstance(c, Arr):
            n = c.shape[-1]
            return [list(c.data[i:i + n]) for i in range(0, len(c.data), n)]
        if isinstance(c, Lst) and c.concrete():
            return [self.read(x, st) for x in c.values()]
        if isinstance(c, Obj) and c.tag and c.tag[0] == "patch":
            return ("patch", c.tag[1], list(c.attrs["args"].items))
        if isinstance(v, Rng):
            return v
        return v

    # ------------------------------------------------------------ queries
    def of(self, k, *kinds):
        return [m for m in self.log if m.axes == k and (not kinds or m.kind in kinds)]

    def curves(self, k):
        """(x, y) data of every line drawn on axes k"""
        out = []
        for m in self.of(k, "plot", "step", "scatter"):
            a = [x for x in m.args if not isinstance(x, K)]
            if len(a) == 1:
                out.append((None, a[0], m))
            for i in range(0, len(a) - 1, 2):
                out.append((a[i], a[i + 1], m))
        return out

    def label(self, k, which="set_ylabel"):
        ms = self.of(k, which)
        return ms[-1].args[0] if ms and ms[-1].args else None

    def inverted(self, k):
        """True / False / None: is the value axis drawn downwards"""
        n = False
        for m in self.of(k, "invert_yaxis", "autorange", "set_ylim"):
            if m.pc.k != "T":
                return None
            if m.kind == "invert_yaxis":
                n = not n
            elif m.kind == "autorange":
                n = m.args[0] == K("reversed")
            else:
                a = m.args[0] if len(m.args) == 1 and isinstance(m.args[0], list) else m.args
                if len(a) == 2 and all(isinstance(x, Poly) for x in a):
                    d = alg.sign(a[1] - a[0]) if hasattr(alg, "sign") else None
                    n = n if d is None else d == "-"
        return n


def raise_unsup(msg):
    from .interp import Unsup
    raise Unsup(msg)
