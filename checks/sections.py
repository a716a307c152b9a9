"""H: section builder, prestress tendon profiles and equivalent loads."""
import ast
from .envelopes import *  # noqa
from .envelopes import arr, data, sv
from .loads import ints, rejects
from sa import heap
from sa.prog import FuncInfo


def stations(n, tag="g"):
    """0 and n cumulative stations with positive symbolic spacings"""
    x, out = ZERO, [ZERO]
    for k in range(n):
        x = x + sym(f"{tag}{k}")
        out.append(x)
    return out


def pw(x0, x1, y0, y1, x):
    return y0 + (y1 - y0) * (x - x0) / (x1 - x0)


class Sec:
    """reference section: segments as entered"""

    def __init__(self, spec, order="free", unit=None):
        """spec: string of segment kinds: c(onst) l(inear) p(wl, 3 stations) q(pwl, 4);
        order: how the entered values compare with each other; unit: stations at given
        distances instead of arbitrary ones"""
        n = sum({"c": 1, "l": 1, "p": 2, "q": 3}[k] for k in spec)
        self.x = stations(n)
        if unit is not None:
            self.x = [ZERO]
            for k in range(n):
                self.x.append(self.x[-1] + const(Fraction(unit) * (1 + (2 * k) % 3)))
        nv = [0]

        def val(s, j=None):
            i, nv[0] = nv[0], nv[0] + 1
            up = lambda m: sum((sym(f"u{q}") for q in range(m + 1)), ZERO)
            N = 12
            return {"free": lambda: sym(f"e{s}" if j is None else f"e{s}_{j}"), "rising": lambda: up(i), "falling": lambda: up(N - i),
                    "equal": lambda: sym("u0"), "pairs": lambda: up(i // 2), "pairs, shifted": lambda: up(N - (i + 1) // 2),
                    "alternating": lambda: up(i % 2), "returning": lambda: up(abs(i % 4 - 2))}[order]()
        self.seg, self.pieces = [], []
        i = 0
        for s, k in enumerate(spec):
            m = {"c": 1, "l": 1, "p": 2, "q": 3}[k]
            xs = self.x[i:i + m + 1]
            if k == "c":
                v = val(s)
                self.seg.append(("const", [xs[0], xs[1]], v))
                self.pieces.append((xs[0], xs[1], v, v))
            else:
                ys = [val(s, j) for j in range(m + 1)]
                self.seg.append(("linear" if k == "l" else "pwl", xs, ys))
                for j in range(m):
                    self.pieces.append((xs[j], xs[j + 1], ys[j], ys[j + 1]))
            i += m
        self.L = self.x[-1]


def put_spec(st, sg, form="tuple"):
    k, xs, e = sg
    ev = lst(st, e) if isinstance(e, list) else e
    if form == "dict":
        return st.new(Dct({K("seg_type"): K(k), K("x"): lst(st, xs), K("ei"): ev}))
    return Tup([K(k), lst(st, xs), ev])


def chain(it, st, segs):
    sec = it.new("section.SectionEI", st)
    for sg in segs:
        t = put_spec(st, sg)
        sec2 = it.meth(sec, "add_segment", st, *t.items)
        yield sec, sec2


def build(it, st, segs, form="chain"):
    if form == "chain":
        sec = it.new("section.SectionEI", st)
        for sg in segs:
            sec = it.meth(sec, "add_segment", st, *put_spec(st, sg).items)
        return sec
    return it.new("section.SectionEI", st, lst(st, [put_spec(st, s, form) for s in segs]))


def lam(it, src):
    """a caller-supplied function, given by its source"""
    mod = it.prog.modules["section"]
    return FnV(FuncInfo(ast.parse(src, mode="eval").body, mod), ({}, None))


@prop("H01", floor=400, rule="For every arrangement of constant, linear and piecewise-linear segments with symbolic stations and values the assembled section evaluates, at a general point of each piece, at each join (the value of the piece ending there) and at the start, to the entered values or the straight line between them, as polynomial identities, for scalar and array queries alike and for chained, tuple and mapping construction; covered length and breakpoints are the entered stations; polynomial segments reproduce the polynomial their samples or function come from. Invalid segments end in an exception on every path and leave the section structurally unchanged; a coverage different from the span is refused by the validator and by the beam.")
def h01(cx):
    it = cx.interp(tol0=True)
    site = cx.loc("section.SectionEI")
    sc = cx.loc("section.SectionEI.__call__")
    specs = ("c", "l", "p", "q", "cc", "cl", "lc", "lcl", "pc", "cp", "lp", "pl", "qc", "ccc")
    # entered values in every kind of relative order; stations at arbitrary and at given distances
    kinds = [(sp, "free", None) for sp in specs] + [(sp, o, None) for sp in ("cc", "l", "p", "q", "pl", "lp", "qc", "ccc", "lcl", "pcq") for o in
             ("rising", "falling", "equal", "pairs", "pairs, shifted", "alternating", "returning")]
    kinds += [(sp, o, u) for sp in ("cl", "q", "pc", "lp") for o in ("free", "equal", "pairs") for u in (1, Fraction(1, 10 ** 4), 10 ** 4)]
    for spec, order, unit in kinds:
        ref = Sec(spec, order, unit)
        spec = spec + (f", values {order}" if order != "free" else "") + (f", stations in {unit}" if unit else "")

        def go(spec=spec, ref=ref):
            for form in ("chain", "tuple", "dict"):
                st = State()
                sec = build(it, st, ref.seg, form)
                cx.eq("covered length", f"{spec}:{form}", it.getattr(sec, "length", st), ref.L, site)
                b = data(st, it.getattr(sec, "breakpoints", st))
                if len(b) != len(ref.x):
                    cx.bad("breakpoints", f"{spec}:{form}", f"{len(b)} breakpoints, {len(ref.x)} stations", site)
                else:
                    for i, (u, v) in enumerate(zip(b, ref.x)):
                        cx.eq("breakpoints", f"{spec}:{form}:{i}", u, v, site)
                qs, want, names = [], [], []
                for i, (x0, x1, y0, y1) in enumerate(ref.pieces):
                    t = sym(f"t{i}")
                    # a general interior point of the piece
                    x = x0 + (x1 - x0) * t / (ONE + t)
                    qs += [x, x1]
                    want += [pw(x0, x1, y0, y1, x), y1]
                    names += [f"inside piece {i}", f"end of piece {i}"]
                qs.append(ZERO)
                want.append(ref.pieces[0][2])
                names.append("start")
                for x, w, nm in zip(qs, want, names):
                    cx.eq("value", f"{spec}:{form}:{nm}", it.call(sec, [x], {}, st), w, sc)
                r = data(st, it.call(sec, [arr(st, qs)], {}, st))
                for a, w, nm in zip(r, want, names):
                    cx.eq("value (array)", f"{spec}:{form}:{nm}", a, w, sc)
        cx.guard("value", spec, go, site)

    poly(cx, it, site, sc)
    refuse(cx, it, site)
    attach(cx, it, site)


def poly(cx, it, site, sc):
    """polynomial segments"""
    t = sym("t")
    for n, deg in ((2, None), (3, None), (4, None), (3, 2), (2, 1)):
        for lead in (0, 1):
            def go(n=n, deg=deg, lead=lead):
                st = State()
                co = [sym(f"c{k}") for k in range(n)]        # positive coefficients

                def f(x):
                    r = ZERO
                    for c in reversed(co):
                        r = r * x + c
                    return r
                off = sym("o") if lead else ZERO
                xs = [off + g for g in stations(n - 1)]
                sec = it.new("section.SectionEI", st)
                if lead:
                    it.meth(sec, "add_segment", st, K("const"), lst(st, [ZERO, off]), sym("e0"))
                kw = {} if deg is None else {"degree": const(deg)}
                it.meth(sec, "add_segment", st, K("poly"), lst(st, xs), lst(st, [f(x) for x in xs]), **kw)
                nm = f"poly through {n} samples, degree {deg}, {'after a constant segment' if lead else 'alone'}"
                x = xs[0] + (xs[-1] - xs[0]) * t / (ONE + t)
                cx.eq("polynomial value", nm, it.call(sec, [x], {}, st), f(x), sc)
                b = data(st, it.getattr(sec, "breakpoints", st))
                want = ([ZERO] if lead else []) + [xs[0], xs[-1]]
                (cx.ok if len(b) == len(want) and all(alg.equal(p, q) for p, q in zip(b, want)) else cx.bad)("polynomial breakpoints", nm, f"{b}", site)
                cx.eq("covered length", nm, it.getattr(sec, "length", st), xs[-1], site)
            cx.guard("polynomial value", f"{n} samples", go, site)
    # any order of fit at least that of the polynomial the samples lie on
    for n in (2, 3, 4, 5):
        for deg in range(n):
            for k in range(deg + 1):
                for unit in (1, Fraction(1, 10)):
                    for lead in (0, 1):
                        def go(n=n, deg=deg, k=k, lead=lead, unit=unit):
                            st = State()
                            co = [sym(f"c{j}") for j in range(k + 1)]
                            f = lambda x: sum((c * x ** j for j, c in enumerate(co)), ZERO)
                            xs = [const(Fraction(unit) * v) for v in (2, 3, 6, 7, 11)[:n]]
                            if not lead:
                                xs = [x - xs[0] for x in xs]
                            sec = it.new("section.SectionEI", st)
                            if lead:
                                it.meth(sec, "add_segment", st, K("const"), lst(st, [ZERO, xs[0]]), sym("e0"))
                            it.meth(sec, "add_segment", st, K("poly"), lst(st, xs), lst(st, [f(x) for x in xs]), **{"degree": const(deg)})
                            x = xs[0] + (xs[-1] - xs[0]) * t / (ONE + t)
                            cx.eq("polynomial value", f"order {k} from {n} samples, fitted order {deg}, unit {unit}{', second segment' if lead else ''}", it.call(sec, [x], {}, st), f(x), sc)
                        cx.guard("polynomial value", f"order {k} from {n} samples, fitted order {deg}", go, site)
    # arbitrary samples: the fitted polynomial's residual is orthogonal to every lower power
    for n in (2, 3, 4, 5):
        for deg in range(n):
            def go(n=n, deg=deg):
                st = State()
                xs = ints(0, 2, 3, 7, 8)[:n]
                ys = [sym(f"y{j}") for j in range(n)]
                sec = it.new("section.SectionEI", st)
                it.meth(sec, "add_segment", st, K("poly"), lst(st, xs), lst(st, ys), **{"degree": const(deg)})
                nm = f"{n} arbitrary samples, fitted order {deg}"
                g = [as_num(it.call(sec, [x], {}, st)) for x in xs]
                for k in range(deg + 1):
                    cx.eq("least-squares fit", f"{nm}: power {k}", sum(((a - b) * x ** k for a, b, x in zip(g, ys, xs)), ZERO), ZERO, sc)
                # and it is of that order: divided differences beyond it vanish
                q = [const(Fraction(v, 2)) for v in range(deg + 3)]
                q = [v * xs[-1] / const(deg + 3) for v in q]
                dd = [as_num(it.call(sec, [v], {}, st)) for v in q]
                for k in range(1, len(q)):
                    dd = [(b - a) / (q[i + k] - q[i]) for i, (a, b) in enumerate(zip(dd, dd[1:]))]
                    if k > deg:
                        for i, v in enumerate(dd):
                            cx.eq("least-squares fit", f"{nm}: difference {k},{i}", v, ZERO, sc)
            cx.guard("least-squares fit", f"{n} samples, order {deg}", go, site)
    # least-squares fit and caller-supplied function reproduce a polynomial of the fitted order
    c0, c1, c2 = sym("c0"), sym("c1"), sym("c2")
    for form in ("samples", "function", "function/default order"):
        def go(form=form):
            st = State()
            sec = it.new("section.SectionEI", st)
            f = lambda x: c0 + c1 * x + c2 * x ** 2
            if form == "samples":
                xs = ints(0, 1, 3, 4, 6)
                it.meth(sec, "add_segment", st, K("poly"), lst(st, xs), lst(st, [f(x) for x in xs]), const(2))
            else:
                fv = lam(it, "lambda x: c0 + c1 * x + c2 * x * x")
                fv.env = ({"c0": c0, "c1": c1, "c2": c2}, None)
                it.meth(sec, "add_segment", st, K("poly"), lst(st, ints(0, 6)), fv, *([const(2)] if form == "function" else []))
            x = const(6) * t / (ONE + t)
            cx.eq("polynomial value", f"quadratic by {form}", it.call(sec, [x], {}, st), f(x), sc)
        cx.guard("polynomial value", form, go, site)


def refuse(cx, it, site):
    a, b, c = sym("a"), sym("b"), sym("c")
    e, f, g, h = sym("e"), sym("f"), sym("g"), sym("h")
    E = lambda *v: list(v)
    first = [
        ("unknown kind", "spline", [ZERO, a], e),
        ("first segment not starting at zero", "const", [b, a + b], e),
        ("first segment starting before zero", "const", [-b, a], e),
        ("one station", "const", [ZERO], e),
        ("no station", "const", [], e),
        ("repeated station (const)", "const", [ZERO, ZERO], e),
        ("decreasing stations", "linear", [ZERO, -a], E(e, f)),
        ("repeated interior station", "pwl", [ZERO, a, a, a + b], E(e, f, g, h)),
        ("decreasing interior station", "pwl", [ZERO, a + b, a, a + b + c], E(e, f, g, h)),
        ("repeated sample station", "poly", [ZERO, a, a, a + b], E(e, f, g, h)),
        ("linear over three stations", "linear", [ZERO, a, a + b], E(e, f, g)),
        ("too few values (linear)", "linear", [ZERO, a], E(e)),
        ("scalar value (linear)", "linear", [ZERO, a], e),
        ("too many values (linear)", "linear", [ZERO, a], E(e, f, g)),
        ("too few values (pwl)", "pwl", [ZERO, a, a + b], E(e, f)),
        ("too many values (pwl)", "pwl", [ZERO, a, a + b], E(e, f, g, h)),
        ("too few values (poly)", "poly", [ZERO, a, a + b], E(e, f)),
        ("too many values (poly)", "poly", [ZERO, a, a + b], E(e, f, g, h)),
        ("two values (const)", "const", [ZERO, a], E(e, f)),
    ]
    for v, nm in ((ZERO, "zero"), (-h, "negative")):
        first.append((f"{nm} rigidity (const)", "const", [ZERO, a], v))
        for k in range(2):
            first.append((f"{nm} rigidity {k} (linear)", "linear", [ZERO, a], [v if j == k else e for j in range(2)]))
        for kind in ("pwl", "poly"):
            for k in range(3):
                first.append((f"{nm} rigidity {k} ({kind})", kind, [ZERO, a, a + b], [v if j == k else e for j in range(3)]))
    t = sym("t")
    later = [
        ("gap", "const", [a + b, a + b + c], e),
        ("overlap", "const", [a / (ONE + t), a + c], e),
        ("restart at zero", "const", [ZERO, a + c], e),
        ("gap (linear)", "linear", [a + b, a + b + c], E(e, f)),
        ("overlap (pwl)", "pwl", [a / (ONE + t), a + b, a + b + c], E(e, f, g)),
        ("gap (poly)", "poly", [a + b, a + b + c], E(e, f)),
        ("unknown kind", "", [a, a + b], e),
        ("zero rigidity", "linear", [a, a + b], E(e, ZERO)),
        ("negative rigidity", "pwl", [a, a + b, a + b + c], E(e, -f, g)),
        ("decreasing stations", "pwl", [a, a + b + c, a + b], E(e, f, g)),
        ("wrong number of values", "pwl", [a, a + b, a + b + c], E(e, f)),
    ]
    for nm, kind, xs, ev in first + later:
        lead = (nm, kind, xs, ev) in later
        name = f"{nm}, {'second' if lead else 'first'} segment"

        def go(nm=nm, kind=kind, xs=xs, ev=ev, lead=lead, name=name):
            def mk(st):
                sec = it.new("section.SectionEI", st)
                if lead:
                    it.meth(sec, "add_segment", st, K("const"), lst(st, [ZERO, a]), sym("e9"))
                return sec

            def args(st):
                return [K(kind), lst(st, xs), lst(st, ev) if isinstance(ev, list) else ev]
            rejects(cx, it, name, lambda st: it.meth(mk(st), "add_segment", st, *args(st)), site, "invalid segment rejected")
            st = State()
            sec = mk(st)
            ar = args(st)
            pre = heap.snapshot(st, None)
            v, exits = it.attempt(lambda: it.meth(sec, "add_segment", st, *ar))
            for ex in exits:
                heap.unchanged(cx, "rejected segment leaves the section as it was", name, pre, sec, ex[2], sec, site)
        cx.guard("invalid segment rejected", name, go, site)
    for nm, src in (("function", "lambda x: 0 * x"), ("negative function", "lambda x: 0 * x - 1")):
        rejects(cx, it, f"non-positive rigidity by {nm}", lambda st, src=src: it.meth(it.new("section.SectionEI", st), "add_segment", st, K("poly"), lst(st, ints(0, 6)), lam(it, src), const(2)), site, "invalid segment rejected")


def attach(cx, it, site):
    """constant-ness, coverage validation, evaluation of an empty section, caller data"""
    L, d, e, t = sym("L"), sym("d"), sym("e"), sym("t")
    s2 = cx.loc("section.SectionEI.validate_length")

    def seg(st, *ls, e2=None):
        sec = it.new("section.SectionEI", st)
        x = ZERO
        for i, l in enumerate(ls):
            it.meth(sec, "add_segment", st, K("const"), lst(st, [x, x + l]), e if e2 is None or i == 0 else e2)
            x = x + l
        return sec

    def accepts(nm, fn):
        def go():
            st = State()
            n0 = len(it.events)
            v, exits = it.attempt(lambda: fn(st))
            if not exits:
                return cx.ok("matching coverage accepted", nm, "no path raises", s2)
            if v is None:
                return cx.bad("matching coverage accepted", nm, f"always raises {exits[0][0]}", s2)
            cx.und("matching coverage accepted", nm, "raises under an undecided condition", s2)
        cx.guard("matching coverage accepted", nm, go, s2)
    accepts("one segment", lambda st: it.meth(seg(st, L), "validate_length", st, L))
    accepts("two segments", lambda st: it.meth(seg(st, L, d), "validate_length", st, L + d))
    for nm, cov, span in (("short section", [L], L + d), ("long section", [L, d], L), ("two segments, short", [L, d], L + d + t)):
        rejects(cx, it, nm, lambda st, cov=cov, span=span: it.meth(seg(st, *cov), "validate_length", st, span), s2, "wrong coverage rejected")
        for which in ("EI", "GAv"):
            def beam(st, cov=cov, span=span, which=which):
                sec = seg(st, *cov)
                kw = {"GAv": lst(st, [sec])} if which == "GAv" else {}
                return it.new("analysis.BeamAnalysis", st, lst(st, [span]), lst(st, [sec if which == "EI" else e]), lst(st, ints(-1, 0, -1, 0)), **kw)
            rejects(cx, it, f"{nm}, given to a beam as {which}", beam, cx.loc("beam.Beam"), "wrong coverage rejected")
        rejects(cx, it, f"{nm}, given to a later span", lambda st, cov=cov, span=span: it.new("analysis.BeamAnalysis", st, lst(st, [L, span]), lst(st, [e, seg(st, *cov)]), lst(st, ints(-1, 0, -1, 0, -1, 0))), cx.loc("beam.Beam"), "wrong coverage rejected")
    rejects(cx, it, "empty section", lambda st: it.meth(it.new("section.SectionEI", st), "validate_length", st, L), s2, "wrong coverage rejected")
    rejects(cx, it, "empty section evaluated", lambda st: it.call(it.new("section.SectionEI", st), [L], {}, st), site, "wrong coverage rejected")

    def const_ness():
        st = State()
        for nm, sec, want in (("one constant segment", seg(st, L), True), ("two equal constant segments", seg(st, L, d), True),
                              ("two unequal constant segments", seg(st, L, d, e2=e + t), False), ("three segments, last two differ from the first", seg(st, L, d, t, e2=e + t), False),
                              ("empty section", it.new("section.SectionEI", st), False),
                              ("linear segment", build(it, st, [("linear", [ZERO, L], [e, e + d])]), False),
                              ("constant then linear", build(it, st, [("const", [ZERO, L], e), ("linear", [L, L + d], [e, e + d])]), False)):
            c = it.truth(it.getattr(sec, "is_constant", st), st)
            if c.k not in "TF":
                cx.und("constant rigidity recognised", nm, f"{c!r}", site)
            else:
                (cx.ok if (c.k == "T") == want else cx.bad)("constant rigidity recognised", nm, f"{c.k}", site)
    cx.guard("constant rigidity recognised", "sections", const_ness, site)

    def own():
        st = State()
        xs, es = arr(st, [ZERO, L, L + d]), arr(st, [sym("y0"), sym("y1"), sym("y2")])
        sec = it.new("section.SectionEI", st)
        pre = heap.snapshot(st, None)
        it.meth(sec, "add_segment", st, K("pwl"), xs, es)
        for nm, v in (("stations", xs), ("values", es)):
            heap.unchanged(cx, "caller's data not changed", nm, pre, v, st, v, site)
        st.w(xs).data = [sym(f"z{i}") for i in range(3)]
        st.w(es).data = [sym(f"w{i}") for i in range(3)]
        cx.eq("section keeps its own data", "pwl", it.call(sec, [L + d * t / (ONE + t)], {}, st), pw(L, L + d, sym("y1"), sym("y2"), L + d * t / (ONE + t)), site)
    cx.guard("section keeps its own data", "pwl", own, site)
