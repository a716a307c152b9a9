"""I02: the schematic shows the model it is drawn from."""
import itertools
import re

from .plots import *  # noqa
from .plots import data, verdict
from .loads import lst, LMv, ints

RP = "render.BeamPlotter"
F = Fraction


def num(v):
    return as_num(v)


def beam_of(it, st, L, R, LM=None, **kw):
    n = len(L)
    kw = {k: lst(st, v) for k, v in kw.items()}
    if LM is not None:
        kw["LM"] = LMv(st, LM)
    ba = it.new(BA, st, lst(st, L), lst(st, [sym("EI")] * n), lst(st, R), **kw)
    return it.getattr(ba, "beam", st)


def items(it, st, ref, attrs):
    c = st.cell(ref)
    if not isinstance(c, Lst) or not c.concrete():
        raise Unsup("list of unknown length")
    return [tuple(it.getattr(x, a, st) for a in attrs) for x in c.values()]


def same(cx, rule, nm, got, want, site):
    """lists of tuples of numbers / texts"""
    if len(got) != len(want):
        return cx.bad(rule, nm, f"{len(got)} shown, {len(want)} expected: {[tuple(alg.show(v, 60) if isinstance(v, Poly) else v for v in g) for g in got][:6]}", site)
    left = list(range(len(got)))
    worst, msg = "ok", ""
    for w in want:
        best = None
        for i in left:
            s = "ok"
            for g, x in zip(got[i], w):
                g = num(g) if isinstance(x, Poly) else g
                if isinstance(g, Poly) and isinstance(x, Poly):
                    q = compare(g, x)[0]
                elif isinstance(g, (K, Cond)) or isinstance(x, (K, Cond)):
                    q = "ok" if g == x else "bad" if isinstance(g, (K, Poly, Cond)) and isinstance(x, (K, Poly, Cond)) and not (isinstance(g, Cond) and g.k not in "TF") else "und"
                else:
                    q = "und"
                s = "bad" if "bad" in (s, q) else "und" if "und" in (s, q) else "ok"
            if s == "ok":
                best = i
                break
            if s == "und":
                worst = "und" if worst == "ok" else worst
        if best is None:
            if worst != "und":
                worst, msg = "bad", f"expected {tuple(alg.show(v, 80) if isinstance(v, Poly) else v for v in w)} among {[tuple(alg.show(v, 80) if isinstance(v, Poly) else v for v in got[i]) for i in left][:4]}"
        else:
            left.remove(best)
    if left and worst == "ok":
        worst = "und"
    {"ok": cx.ok, "bad": cx.bad, "und": cx.und}[worst](rule, nm, msg or f"{len(want)}", site)


# ------------------------------------------------------------ loads read from the matrix
def loads_table(L0, L1):
    w = sym("w", None)
    w2 = sym("w2", None)
    P = sym("P", None)
    q = lambda x, a, b: const(F(a, b)) * x
    for sp, off, L in ((1, ZERO, L0), (2, L0, L1)):
        s = const(sp)
        yield f"UDL, span {sp}", [s, const(1), w], "d", [(off, off + L, w, w)]
        for t, a, c in (("inside", (1, 4), (1, 2)), ("from the start", (0, 1), (1, 3)), ("to the end", (1, 4), (3, 4)), ("the whole span", (0, 1), (1, 1))):
            yield f"part UDL {t}, span {sp}", [s, const(3), w, q(L, *a), q(L, *c)], "d", [(off + q(L, *a), off + q(L, *a) + q(L, *c), w, w)]
        yield f"part UDL past the end, span {sp}", [s, const(3), w, q(L, 1, 2), q(L, 2, 3)], "d", [(off + q(L, 1, 2), off + L, w, w)]
        yield f"part UDL beyond the span, span {sp}", [s, const(3), w, q(L, 3, 2), q(L, 1, 3)], "d", []
        yield f"trapezoid, span {sp}", [s, const(5), w, w2], "d", [(off, off + L, w, w2)]
        for t, a, c in (("inside", (1, 4), (1, 2)), ("from the start", (0, 1), (1, 3)), ("to the end", (1, 4), (3, 4))):
            yield f"trapezoid {t}, span {sp}", [s, const(5), w, w2, q(L, *a), q(L, *c)], "d", [(off + q(L, *a), off + q(L, *a) + q(L, *c), w, w2)]
        yield f"trapezoid past the end, span {sp}", [s, const(5), w, w2, q(L, 1, 2), L], "d", [(off + q(L, 1, 2), off + L, w, (w + w2) / const(2))]
        for a in ((0, 1), (1, 3), (1, 1)):
            yield f"point load at {a[0]}/{a[1]}, span {sp}", [s, const(2), P, q(L, *a)], "p", [(off + q(L, *a), P)]
            yield f"moment at {a[0]}/{a[1]}, span {sp}", [s, const(4), P, q(L, *a)], "m", [(off + q(L, *a), P)]


def descriptors(cx, it, st, bp):
    d = [(x[0], x[1], x[2], x[3]) for x in items(it, st, it.getattr(bp, "dist_loads", st), ("x0", "x1", "w0", "w1"))]
    p = items(it, st, it.getattr(bp, "point_loads", st), ("x", "P"))
    m = items(it, st, it.getattr(bp, "moment_loads", st), ("x", "M"))
    return dict(d=d, p=p, m=m, s=items(it, st, it.getattr(bp, "skipped_loads", st), ()))


def shown_loads(cx):
    rule = "loads of the model"
    site = cx.loc(RP)
    L0, L1 = sym("L0"), sym("L1")
    pins = ints(-1, 0, -1, 0, -1, 0)
    table = list(loads_table(L0, L1))

    def check(nm, rows, want, how):
        def go():
            it, st = cx.interp(tol0=True), State()
            if how == "beam":
                b = beam_of(it, st, [L0, L1], pins, rows)
                bp = it.new(RP, st, b)
            else:
                b = beam_of(it, st, [L0, L1], pins, [[const(1), const(1), sym("other")]])
                bp = it.new(RP, st, b, LMv(st, rows))
            got = descriptors(cx, it, st, bp)
            for k, t in (("d", "distributed"), ("p", "point loads"), ("m", "moments"), ("s", "not drawn")):
                same(cx, rule, f"{nm}: {t}", got[k], want.get(k, []), site)
        cx.guard(rule, nm, go, site)
    for nm, row, k, w in table:
        check(nm, [row], {k: w}, "beam")
        check(f"{nm}, given loads", [row], {k: w}, "given")
    # several loads at once, in any order
    for i in range(0, len(table) - 3, 3):
        t = table[i:i + 3]
        for o, g in (("", t), (", reversed", t[::-1])):
            want = {}
            for _, _, k, w in t:
                want.setdefault(k, []).extend(w)
            check("together: " + "; ".join(x[0] for x in t) + o, [x[1] for x in g], want, "beam")

    def none():
        it, st = cx.interp(tol0=True), State()
        b = beam_of(it, st, [L0, L1], pins, [[const(1), const(1), sym("w")]])
        got = descriptors(cx, it, st, it.new(RP, st, b, lst(st, [])))
        for k in "dpms":
            same(cx, rule, f"no loads asked for: {k}", got[k], [], site)
        b = beam_of(it, st, [L0, L1], pins)
        got = descriptors(cx, it, st, it.new(RP, st, b))
        for k in "dpms":
            same(cx, rule, f"unloaded beam: {k}", got[k], [], site)
    cx.guard(rule, "no loads", none, site)

    def curvature():
        it, st = cx.interp(tol0=True), State()
        b = beam_of(it, st, [L0, L1], pins, [[const(1), const(6), sym("kap", None)], [const(2), const(2), sym("P", None), ZERO]])
        got = descriptors(cx, it, st, it.new(RP, st, b))
        same(cx, rule, "imposed curvature: point loads", got["p"], [(L0, sym("P", None))], site)
        same(cx, rule, "imposed curvature: distributed", got["d"], [], site)
        verdict(cx, len(got["s"]) == 1, rule, "imposed curvature: listed as not drawn", f"{len(got['s'])}", site)
    cx.guard(rule, "imposed curvature", curvature, site)

    def case():
        it, st = cx.interp(tol0=True), State()
        b = beam_of(it, st, [L0, L1], pins, [[const(1), const(1), sym("other")]])
        w, P = sym("w", None), sym("P", None)
        lc = it.new("load_cases.LoadCases", st, b)
        a1 = it.meth(lc, "add_case", st, K("A"), LMv(st, [[const(2), const(1), w]]))
        it.meth(lc, "add_case", st, K("B"), LMv(st, [[const(1), const(2), P, L0 / const(3)]]))
        got = descriptors(cx, it, st, it.new(RP, st, b, it.meth(lc, "case", st, K("A"))))
        same(cx, rule, "a load case: distributed", got["d"], [(L0, L0 + L1, w, w)], site)
        same(cx, rule, "a load case: point loads", got["p"], [], site)
        f1, f2 = sym("fc1"), sym("fc2")
        for nm, fs in (("both", {K("A"): f1, K("B"): f2}), ("the second", {K("B"): f2})):
            co = it.new("load_cases.LoadCombination", st, K("C"), st.new(Dct(dict(fs))))
            got = descriptors(cx, it, st, it.new(RP, st, b, co, load_cases=lc))
            d = got["d"]
            if K("A") in fs:
                same(cx, rule, f"a combination of {nm}: distributed", d, [(L0, L0 + L1, f1 * w, f1 * w)], site)
            else:
                verdict(cx, all(compare(num(v), ZERO)[0] == "ok" for t in d for v in t[2:]), rule, f"a combination of {nm}: distributed", f"{d}", site)
            same(cx, rule, f"a combination of {nm}: point loads", got["p"], [(L0 / const(3), f2 * P)], site)
    cx.guard(rule, "load cases", case, site)


# ------------------------------------------------------------ supports and hinges
KINDS = {"f": (-1, -1), "p": (-1, 0), "q": (-1, "k"), "s": ("k", 0), "g": (0, -1), "t": (0, "k"), "o": (0, 0)}


def expected(word):
    fixed = "f" in word
    first = True
    out = []
    for i, c in enumerate(word):
        if c == "o":
            continue
        if c == "f":
            k = "fixed"
        elif c in "pq":
            k = "roller" if fixed or not first else "pin"
            first = False
        else:
            k = {"s": "spring", "g": "guided", "t": "torsion_spring"}[c]
        out.append((i, k, c == "q"))
    return out


def restraints(word):
    return [const(x) if isinstance(x, int) else sym("ks") for c in word for x in KINDS[c]]


def shown_supports(cx):
    rule = "supports of the model"
    site = cx.loc(RP)
    L = [sym("L0"), sym("L1")]
    X = [ZERO, L[0], L[0] + L[1]]
    words = ["".join(w) for w in itertools.product("fpqsgto", repeat=3)]
    for w in words:
        def go(w=w):
            it, st = cx.interp(tol0=True), State()
            b = beam_of(it, st, L, restraints(w))
            bp = it.new(RP, st, b)
            got = items(it, st, it.getattr(bp, "supports", st), ("x", "kind", "node", "at_left_end", "at_right_end", "rot_spring"))
            got = [tuple(list(g[:2]) + [num(g[2])] + list(g[3:])) for g in got]
            want = [(X[i], K(k), const(i), alg.TRUE if i == 0 else alg.FALSE, alg.TRUE if i == 2 else alg.FALSE, alg.TRUE if q else alg.FALSE) for i, k, q in expected(w)]
            same(cx, rule, w, got, want, site)
        cx.guard(rule, w, go, site)
    rule = "hinges of the model"
    L = [sym("L0"), sym("L1"), sym("L2")]
    X = [ZERO, L[0], L[0] + L[1], L[0] + L[1] + L[2]]
    for et in itertools.product((1, 2, 3, 4), repeat=3):
        def go(et=et):
            it, st = cx.interp(tol0=True), State()
            b = beam_of(it, st, L, ints(*([-1, 0] * 4)), eletype=ints(*et))
            bp = it.new(RP, st, b)
            got = [(g[0], num(g[1])) for g in items(it, st, it.getattr(bp, "hinges", st), ("x", "node"))]
            want = [(X[i], const(i)) for i in (1, 2) if et[i - 1] in (2, 4) or et[i] in (3, 4)]
            same(cx, rule, f"element types {et}", got, want, site)
        cx.guard(rule, f"element types {et}", go, site)


# ------------------------------------------------------------ the drawing
def draw(cx, L, R, LM, units="US-ft", **opt):
    it, st = cx.interp(tol0=True), State()
    it.holes = []
    cv = Canvas(it, True)
    b = beam_of(it, st, [const(x) for x in L], R, LM)
    opt = {k: (alg.TRUE if v is True else alg.FALSE if v is False else v) for k, v in opt.items()}
    it.meth(b, "plot", st, units=K(units), **opt)
    return it, cv


def text_value(it, t):
    """(value, format, text around it) of a text with one hole"""
    if not isinstance(t, K) or not isinstance(t.v, str):
        return None
    h = re.findall("\u27e6(\\d+)\u27e7", t.v)
    return [it.holes[int(i)][0] for i in h], re.sub("\u27e6\\d+\u27e7", "#", t.v)


def flatnums(v):
    if isinstance(v, (list, tuple)):
        return [x for y in v for x in flatnums(y)]
    return [v] if isinstance(v, Poly) else []


def arrows(cv):
    """(x, from height, to height) of every vertical arrow"""
    out = []
    for m in cv.log:
        if m.kind == "annotate" and m.pc.k == "T" and "xy" in m.kw and "xytext" in m.kw:
            a, b = m.kw["xy"], m.kw["xytext"]
            if alg.equal(num(a[0]), num(b[0])):
                out.append((num(a[0]), num(b[1]), num(a[1])))
    return out


def sgn(p):
    """+1 / 0 / -1 / None of a value whose symbols are all positive"""
    if not isinstance(p, Poly):
        return None
    if alg.is_zero(p):
        return 0
    r = alg.sign_cleared(p)
    return int(r) if r in (1, -1) else None


DIST = {"US-ft": "kip/ft", "SI": "kN/m"}
FORCE = {"US-ft": "kip", "SI": "kN"}
MOM = {"US-ft": "kip-ft", "SI": "kNm"}
LEN = {"US-ft": "ft", "SI": "m"}


def unit_labels(cx):
    """the labels of the unit systems as the library defines them"""
    it, st = cx.interp(tol0=True), State()
    for u in ("US-ft", "SI"):
        us = it.analyze_call("units.resolve", [K(u)], st=st)[0]
        for d, a in ((DIST, "distributed"), (FORCE, "force"), (MOM, "moment"), (LEN, "length")):
            v = it.getattr(us, a, st)
            if isinstance(v, K):
                d[u] = v.v


def texts(it, cv, unit):
    """values and positions of the texts that end in the unit"""
    out = []
    for m in cv.log:
        if m.kind == "text" and len(m.args) > 2 and m.pc.k == "T":
            t = text_value(it, m.args[2])
            if t and t[1].strip().endswith(" " + unit) or t and t[1].strip() == unit:
                out.append((num(m.args[0]), num(m.args[1]), t[0], t[1], m))
    return out


def fixednum(it, t):
    """number written out in a text without holes"""
    r = re.match(r"^\s*(-?[0-9.]+(?:e[-+]?\d+)?)", t)
    return const(F(r.group(1))) if r else None


def drawing(cx):
    rule = "the drawing"
    site = cx.loc(f"{RP}.render_mpl")
    pins = ints(-1, 0, -1, 0, -1, 0)
    P = sym("Pp")
    for u in ("US-ft", "SI"):
        for sg in (1, -1):
            for sp, off in ((1, 0), (2, 8)):
                for a in (0, 3, 6):
                    nm = f"point load {'down' if sg > 0 else 'up'} at {a} of span {sp}, {u}"

                    def go(sg=sg, sp=sp, off=off, a=a, nm=nm, u=u):
                        it, cv = draw(cx, [8, 12], pins, [[const(sp), const(2), const(sg) * P, const(a)]], u)
                        ar = arrows(cv)
                        good = [x for x in ar if compare(x[0], const(off + a))[0] == "ok"]
                        verdict(cx, len(ar) == 1 and len(good) == 1, rule, f"{nm}: one arrow", f"{[alg.show(x[0]) for x in ar]}", site)
                        if good:
                            d = sgn(good[0][1] - good[0][2])
                            (cx.und if d is None else cx.ok if d == sg else cx.bad)(rule, f"{nm}: direction", f"from {alg.show(good[0][1])} to {alg.show(good[0][2])}", site)
                        t = texts(it, cv, FORCE[u])
                        ok = len(t) == 1 and len(t[0][2]) == 1 and compare(t[0][2][0], P)[0] == "ok" and compare(t[0][0], const(off + a))[0] == "ok"
                        verdict(cx, ok, rule, f"{nm}: its value", f"{[(alg.show(x[0]), [alg.show(v) for v in x[2]], x[3]) for x in t]}", site)
                    cx.guard(rule, nm, go, site)
                    nm2 = f"moment {'anticlockwise' if sg > 0 else 'clockwise'} at {a} of span {sp}, {u}"

                    def mo(sg=sg, sp=sp, off=off, a=a, nm=nm2, u=u):
                        it, cv = draw(cx, [8, 12], pins, [[const(sp), const(4), const(sg) * P, const(a)]], u)
                        verdict(cx, not arrows(cv), rule, f"{nm}: no straight arrow", "", site)
                        arcs = [m for m in cv.log if m.kind == "add_patch" and m.args and isinstance(m.args[0], tuple) and m.args[0][1] == "Arc"]
                        at = [flatnums(m.args[0][2][0].items if isinstance(m.args[0][2][0], Tup) else m.args[0][2][0])[0] for m in arcs]
                        verdict(cx, len(at) == 1 and compare(at[0], const(off + a))[0] == "ok", rule, f"{nm}: one arc", f"{at}", site)
                        t = texts(it, cv, MOM[u])
                        ok = len(t) == 1 and len(t[0][2]) == 1 and compare(t[0][2][0], P)[0] == "ok" and compare(t[0][0], const(off + a))[0] == "ok"
                        verdict(cx, ok, rule, f"{nm}: its value", f"{[(alg.show(x[0]), [alg.show(v) for v in x[2]], x[3]) for x in t]}", site)
                    cx.guard(rule, nm2, mo, site)
    # distributed loads
    w, v = sym("wp"), sym("vp")
    forms = [("UDL", lambda s: [const(1), s * w], 0, None, lambda s: (s * w, s * w)), ("part UDL", lambda s: [const(3), s * w, const(2), const(3)], 2, 3, lambda s: (s * w, s * w)),
             ("part UDL past the end", lambda s: [const(3), s * w, const(5), const(30)], 5, None, lambda s: (s * w, s * w)),
             ("rising load", lambda s: [const(5), s * w, s * (w + v)], 0, None, lambda s: (s * w, s * (w + v))), ("falling load", lambda s: [const(5), s * (w + v), s * w], 0, None, lambda s: (s * (w + v), s * w)),
             ("triangle", lambda s: [const(5), ZERO, s * w, const(1), const(4)], 1, 4, lambda s: (ZERO, s * w))]
    for u in ("US-ft", "SI"):
        for sg in (1, -1):
            for sp, off, L in ((1, 0, 8), (2, 8, 12)):
                for f, row, a, c, val in forms:
                    nm = f"{f} {'down' if sg > 0 else 'up'}, span {sp}, {u}"

                    def go(sg=sg, sp=sp, off=off, L=L, row=row, a=a, c=c, val=val, nm=nm, u=u):
                        s = const(sg)
                        it, cv = draw(cx, [8, 12], pins, [[const(sp)] + row(s)], u)
                        x0, x1 = const(off + a), const(off + (L if c is None else a + c))
                        ar = arrows(cv)
                        if not ar:
                            cx.bad(rule, f"{nm}: arrows", "none", site)
                        else:
                            out = [x for x in ar if sgn(x[0] - x0) == -1 or sgn(x1 - x[0]) == -1]
                            verdict(cx, not out, rule, f"{nm}: arrows where the load is", f"{[alg.show(x[0]) for x in out][:4]}", site)
                            ds = [sgn(x[1] - x[2]) for x in ar]
                            (cx.und if None in ds else cx.ok if all(d in (sg, 0) for d in ds) else cx.bad)(rule, f"{nm}: direction", f"{len(ar)} arrows", site)
                            far = [x for x in ar if compare(x[0], x1)[0] == "ok"]
                            verdict(cx, len(far) == 1 and any(sgn(x[0] - x0) is not None and float((x[0] - x0).const()) <= 0.06 * 20 * 2 for x in ar if (x[0] - x0).is_const()), rule, f"{nm}: arrows over the whole length", f"{len(ar)}", site)
                        w0, w1 = val(s)
                        # the outline: heights in proportion to the values, both ends
                        lines = [(num(xx[0]), num(xx[1]), num(yy[0]), num(yy[1])) for xx, yy, m in cv.curves(0) if isinstance(xx, list) and len(xx) == 2 and m.pc.k == "T"
                                 if compare(num(xx[0]), x0)[0] == "ok" and compare(num(xx[1]), x1)[0] == "ok" and not (alg.is_zero(num(yy[0])) and alg.is_zero(num(yy[1])))]
                        d0, d1 = sgn(w0), sgn(w1)
                        big = sgn((w0 - w1) * s)
                        lines = [l for l in lines if d0 in (0, None) or sgn(l[2]) == sg]
                        hit = [l for l in lines if sgn((l[2] - l[3]) * s) == big]
                        (cx.ok if hit else cx.und if any(sgn(l[2] - l[3]) is None for l in lines) else cx.bad)(rule, f"{nm}: outline", f"{[(alg.show(l[2]), alg.show(l[3])) for l in lines][:3]}", site)
                        if hit and ar:
                            l = hit[0]
                            at = lambda x: l[2] + (l[3] - l[2]) * ((x - x0) / (x1 - x0))
                            ss = [compare(x[1], at(x[0]))[0] for x in ar]
                            (cx.bad if "bad" in ss else cx.und if "und" in ss else cx.ok)(rule, f"{nm}: arrows start on the outline", f"{[(alg.show(x[0]), alg.show(x[1])) for x, q in zip(ar, ss) if q != 'ok'][:2]}", site)
                        t = texts(it, cv, DIST[u])
                        want = [w0 * s, w1 * s]
                        got = t[0][2] if len(t) == 1 else []
                        if len(t) == 1 and len(got) < len(t[0][3].split("\u2192")):
                            # a zero is written out
                            parts = t[0][3].replace(DIST[u], "").split("\u2192")
                            q = iter(got)
                            got = [next(q) if "#" in p else fixednum(it, p) for p in parts]
                        ok = len(t) == 1 and (len(got) == 1 and alg.equal(want[0], want[1]) and compare(got[0], want[0])[0] == "ok" or len(got) == 2 and compare(got[0], want[0])[0] == "ok" and compare(got[1], want[1])[0] == "ok")
                        verdict(cx, ok, rule, f"{nm}: its value", f"{[([alg.show(g) for g in x[2]], x[3]) for x in t]}", site)
                        if t:
                            verdict(cx, compare(t[0][0], (x0 + x1) / const(2))[0] == "ok", rule, f"{nm}: where the value stands", alg.show(t[0][0]), site)
                        # the extent of a partial load
                        ext = [x for x in texts(it, cv, LEN[u])]
                        part = a > 0 or c is not None
                        if part:
                            n = fixednum(it, ext[0][3]) if len(ext) == 1 else None
                            verdict(cx, n is not None and compare(n, x1 - x0)[0] == "ok", rule, f"{nm}: its extent", f"{[x[3] for x in ext]}", site)
                        else:
                            verdict(cx, not ext, rule, f"{nm}: no extent", f"{[x[3] for x in ext]}", site)
                    cx.guard(rule, nm, go, site)
    # span dimensions and node letters
    for u in ("US-ft", "SI"):
        def dim(u=u):
            nm = f"span dimensions, {u}"
            it, cv = draw(cx, [8, 12, 5], ints(-1, 0, -1, 0, -1, 0, -1, 0), None, u, dimensions=True)
            ext = sorted(((x[0].const(), fixednum(it, x[3]).const()) for x in texts(it, cv, LEN[u])))
            verdict(cx, ext == [(4, 8), (14, 12), (F(45, 2), 5)], rule, nm, f"{ext}", site)
            ax = [m for m in cv.log if m.kind == "set_xlabel"]
            verdict(cx, bool(ax) and isinstance(ax[-1].args[0], K) and ax[-1].args[0].v.endswith(f"({LEN[u]})"), rule, f"axis label, {u}", f"{ax[-1].args if ax else ''}", site)
        cx.guard(rule, f"dimensions {u}", dim, site)
    for w_ in ("ppp", "fop", "osf", "gpt", "ofo", "pop", "sqs", "tpo", "foo", "qpg"):
        def letters(w_=w_):
            it, cv = draw(cx, [8, 12], restraints(w_), None)
            X = [0, 8, 20]
            got = {}
            for m in cv.log:
                if m.kind == "text" and isinstance(m.args[2], K) and isinstance(m.args[2].v, str) and re.fullmatch("[A-Z]", m.args[2].v):
                    got[m.args[2].v] = num(m.args[0])
            want = {chr(65 + i): X[i] for i, k, q in expected(w_)}
            ok = set(got) == set(want) and all(got[k].is_const() and abs(got[k].const() - want[k]) < 2 for k in want)
            verdict(cx, ok, rule, f"node letters {w_}", f"{ {k: alg.show(v) for k, v in got.items()} }", site)
            # something is drawn at every support and nothing at a free node
            marks = []
            for m in cv.log:
                if m.kind in ("plot", "fill_between"):
                    xs = [num(v) for v in (m.args[0] if isinstance(m.args[0], list) else [])]
                elif m.kind == "add_patch" and isinstance(m.args[0], tuple):
                    a = m.args[0][2][0]
                    a = it_read(a)
                    xs = a
                else:
                    continue
                xs = [v for v in xs if isinstance(v, Poly) and v.is_const()]
                if xs and max(v.const() for v in xs) - min(v.const() for v in xs) < 4:
                    marks.append(sum(v.const() for v in xs) / len(xs))
            for i, c in enumerate(w_):
                near = [x for x in marks if abs(x - X[i]) < 2]
                verdict(cx, bool(near) == (c != "o"), rule, f"supports {w_}: node {i}", f"{len(near)} marks", site)
        cx.guard(rule, f"node letters {w_}", letters, site)

    def found():
        it, st = cx.interp(tol0=True), State()
        for kf, on in (((None, "k"), [False, True]), (("k", None), [True, False]), ((None, None), [False, False]), (("k", "k"), [True, True])):
            cv = Canvas(it, True)
            b = beam_of(it, st, [const(8), const(12)], pins, None, kf=[NONE if x is None else sym("kf") for x in kf])
            it.meth(b, "plot", st)
            ground = []
            for xx, yy, m in cv.curves(0):
                if isinstance(xx, list) and len(xx) == 2 and all(num(x).is_const() for x in xx):
                    ground.append((num(xx[0]).const(), num(xx[1]).const(), num(yy[0])))
            for i, (a, b2) in enumerate(((0, 8), (8, 20))):
                hit = [g for g in ground if g[0] == a and g[1] == b2 and not alg.is_zero(g[2])]
                verdict(cx, bool(hit) == on[i], rule, f"foundation {kf}: member {i + 1}", f"{len(hit)} ground lines", site)
    cx.guard(rule, "foundation", found, site)


def it_read(a):
    """abscissae of the first argument of a patch: a centre or a list of corners"""
    v = a.items if isinstance(a, Tup) else a
    if isinstance(v, (list, tuple)):
        if v and all(isinstance(x, (list, tuple, Tup)) for x in v):
            r = []
            for x in v:
                x = x.items if isinstance(x, Tup) else x
                r.append(x[0])
            return [as_num(x) for x in r]
        return [as_num(v[0])]
    return []


# ------------------------------------------------------------ the LaTeX text
def latex(cx, L, R, LM, units="US-ft", **opt):
    it, st = cx.interp(tol0=True), State()
    it.holes = []
    b = beam_of(it, st, L, R, LM, **{k: v for k, v in opt.items() if k == "eletype"})
    opt = {k: (alg.TRUE if v is True else alg.FALSE if v is False else v) for k, v in opt.items() if k != "eletype"}
    t = it.meth(b, "to_tikz", st, units=K(units), **opt)
    if not isinstance(t, K):
        raise Unsup("text of unknown content")
    return it, [x.strip() for x in t.v.split("\n")]


def hole(it, t):
    t = t.strip().strip("$").strip()
    m = re.fullmatch("\u27e6(\\d+)\u27e7", t)
    if m:
        return it.holes[int(m.group(1))][0]
    try:
        return const(F(t))
    except (ValueError, ZeroDivisionError):
        return None


class Tikz:
    """points, beams, supports, hinges and loads of the text, by node name"""

    def __init__(self, it, lines):
        self.it = it
        self.pt, self.beams, self.sup, self.hinge, self.node, self.load, self.note, self.line, self.dims = {}, [], [], [], {}, [], {}, [], []
        for l in lines:
            for m in re.finditer(r"\\point\{(\w+)\}\{([^}]*)\}\{([^}]*)\}", l):
                self.pt[m.group(1)] = (hole(it, m.group(2)), hole(it, m.group(3)))
            for m in re.finditer(r"\\beam\{\d+\}\{(\w+)\}\{(\w+)\}", l):
                self.beams.append((m.group(1), m.group(2)))
            for m in re.finditer(r"\\support\{(\w+)\}\{(\w+)\}(?:\[(-?\d+)\])?", l):
                self.sup.append((m.group(2), m.group(1), m.group(3)))
            for m in re.finditer(r"\\hinge\{(\d)\}\{(\w+)\}", l):
                self.hinge.append((m.group(2), m.group(1)))
            for m in re.finditer(r"\\node \((\w+)\) at \(\$\((\w+)\)!([^!]*)!\((\w+)\)\$\)", l):
                self.node[m.group(1)] = (m.group(2), hole(it, m.group(3)), m.group(4))
            for m in re.finditer(r"\\load\{(\d)\}\{(\w+)\}(?:\[(-?\d+)\])?", l):
                self.load.append((m.group(2), m.group(1), m.group(3)))
            for m in re.finditer(r"\\lineload\{(\d)\}\{(\w+)\}\{(\w+)\}\[([^]]*)\]\[([^]]*)\]", l):
                self.line.append((m.group(2), m.group(3), hole(it, m.group(4)), hole(it, m.group(5))))
            for m in re.finditer(r"\\notation\{\d\}\{(\w+)\}\{\$(.*?)\$([^}]*)\}", l):
                self.note.setdefault(m.group(1), []).append((m.group(2), m.group(3).strip()))
            for m in re.finditer(r"\\notation\{5\}\{(\w+)\}\{(\w+)\}\[\$(.*?)\$([^]]*)\]", l):
                self.note.setdefault((m.group(1), m.group(2)), []).append((m.group(3), m.group(4).strip()))
            for m in re.finditer(r"\\dimensioning\{1\}\{(\w+)\}\{(\w+)\}\{([^}]*)\}\[\$([^$]*)\$~?([^]]*)\]", l):
                self.dims.append((m.group(1), m.group(2), hole(it, m.group(4)), m.group(5)))

    def x(self, n):
        if n in self.pt:
            return self.pt[n][0]
        if n in self.node:
            a, f, b = self.node[n]
            if f is None or a not in self.pt or b not in self.pt:
                return None
            return self.pt[a][0] + f * (self.pt[b][0] - self.pt[a][0])
        return None


STANLI = {"pin": "1", "roller": "2ooo", "fixed": "4", "spring": "5", "guided": "3", "torsion_spring": "6"}


def latex_text(cx):
    rule = "the LaTeX text"
    site = cx.loc(f"{RP}.render_tikz")
    L = [sym("L0"), sym("L1")]
    X = [ZERO, L[0], L[0] + L[1]]
    pins = ints(-1, 0, -1, 0, -1, 0)

    def near(t, x):
        return [n for n in t.pt if t.pt[n][0] is not None and compare(t.pt[n][0], x)[0] == "ok"]
    for w in ("".join(v) for v in itertools.product("fpqsgto", repeat=3)):
        def sup(w=w):
            it, lines = latex(cx, L, restraints(w), None)
            t = Tikz(it, lines)
            names = [near(t, x) for x in X]
            if len(t.pt) != 3 or any(len(n) != 1 for n in names):
                return cx.bad(rule, f"supports {w}: points", f"{t.pt}", site)
            cx.ok(rule, f"supports {w}: points", "3", site)
            names = [n[0] for n in names]
            verdict(cx, sorted(t.beams) == sorted([(names[0], names[1]), (names[1], names[2])]), rule, f"supports {w}: members", f"{t.beams}", site)
            want = sorted((names[i], STANLI[k]) for i, k, q in expected(w))
            verdict(cx, sorted((a, b) for a, b, r in t.sup) == want, rule, f"supports {w}", f"{t.sup}", site)
            for a, b, r in t.sup:
                if b == "4" and a != names[1]:
                    verdict(cx, r == ("90" if a == names[2] else "-90"), rule, f"supports {w}: fixed end {a}", f"turned {r}", site)
            letters = sorted((a, x[0]) for a, v in t.note.items() for x in v)
            verdict(cx, letters == sorted((names[i], chr(65 + i)) for i, k, q in expected(w)), rule, f"supports {w}: letters", f"{letters}", site)
            dims = [(a, b, c, u) for a, b, c, u in t.dims]
            ok = len(dims) == 2 and all(any(a == names[i] and b == names[i + 1] and c is not None and compare(c, L[i])[0] == "ok" and u == LEN["US-ft"] for a, b, c, u in dims) for i in (0, 1))
            verdict(cx, ok, rule, f"supports {w}: dimensions", f"{dims}", site)
        cx.guard(rule, f"supports {w}", sup, site)
    L3 = [sym("L0"), sym("L1"), sym("L2")]
    X3 = [ZERO, L3[0], L3[0] + L3[1], L3[0] + L3[1] + L3[2]]
    for et in itertools.product((1, 2, 3, 4), repeat=3):
        def hin(et=et):
            it, lines = latex(cx, L3, ints(-1, -1, 0, 0, 0, 0, -1, -1), None, eletype=ints(*et))
            t = Tikz(it, lines)
            want = sorted(near(t, X3[i])[0] for i in (1, 2) if et[i - 1] in (2, 4) or et[i] in (3, 4))
            verdict(cx, sorted(a for a, k in t.hinge) == want, rule, f"hinges {et}", f"{t.hinge}", site)
        cx.guard(rule, f"hinges {et}", hin, site)
    P, w, v = sym("Pp"), sym("wp"), sym("vp")
    q = lambda x, f: const(f) * x
    for u in ("US-ft", "SI", "none"):
        F_, M_, D_, N_ = (FORCE.get(u, ""), MOM.get(u, ""), DIST.get(u, ""), LEN.get(u, ""))
        for sp in (1, 2):
            for sg in (1, -1):
                off, Ls = X[sp - 1], L[sp - 1]
                for f in (F(0), F(1, 4), F(1)):
                    def pl(f=f, sg=sg, sp=sp, off=off, Ls=Ls, u=u, F_=F_, M_=M_):
                        for typ, unit in ((2, F_), (4, M_)):
                            nm = f"{'point load' if typ == 2 else 'moment'} {sg} at {f} of span {sp}, {u}"
                            it, lines = latex(cx, L, pins, [[const(sp), const(typ), const(sg) * P, q(Ls, f)]], u)
                            t = Tikz(it, lines)
                            if len(t.load) != 1:
                                cx.bad(rule, nm, f"{len(t.load)} loads", site)
                                continue
                            n, k, ang = t.load[0]
                            x = t.x(n)
                            verdict(cx, x is not None and compare(x, off + q(Ls, f))[0] == "ok", rule, f"{nm}: position", f"{x}", site)
                            if typ == 2:
                                verdict(cx, k == "1" and ang == ("90" if sg > 0 else "270"), rule, f"{nm}: direction", f"type {k} turned {ang}", site)
                            else:
                                verdict(cx, k == ("3" if sg > 0 else "2"), rule, f"{nm}: direction", f"type {k}", site)
                            no = t.note.get(n, [])
                            g = hole(it, no[0][0]) if len(no) == 1 else None
                            verdict(cx, g is not None and compare(g, P)[0] == "ok" and no[0][1] == unit, rule, f"{nm}: its value", f"{no}", site)
                    cx.guard(rule, f"loads at {f} of span {sp}, {sg}, {u}", pl, site)
                off, Ls = [ZERO, const(8)][sp - 1], [const(8), const(12)][sp - 1]
                for f, row, a, c, val in (("UDL", lambda s: [const(1), s * w], F(0), F(1), (w, w)), ("part UDL", lambda s, Ls=Ls: [const(3), s * w, q(Ls, F(1, 4)), q(Ls, F(1, 2))], F(1, 4), F(1, 2), (w, w)),
                                          ("part UDL past the end", lambda s, Ls=Ls: [const(3), s * w, q(Ls, F(1, 4)), q(Ls, 2)], F(1, 4), F(3, 4), (w, w)),
                                          ("rising load", lambda s: [const(5), s * w, s * (w + v)], F(0), F(1), (w, w + v)), ("falling load", lambda s: [const(5), s * (w + v), s * w], F(0), F(1), (w + v, w)),
                                          ("triangle", lambda s, Ls=Ls: [const(5), ZERO, s * w, q(Ls, F(1, 4)), q(Ls, F(1, 4))], F(1, 4), F(1, 4), (ZERO, w))):
                    def dl(f=f, row=row, a=a, c=c, val=val, sg=sg, sp=sp, off=off, Ls=Ls, u=u, D_=D_, N_=N_):
                        nm = f"{f} {sg} of span {sp}, {u}"
                        it, lines = latex(cx, [const(8), const(12)], pins, [[const(sp)] + row(const(sg))], u, dimensions=False)
                        t = Tikz(it, lines)
                        if len(t.line) != 1:
                            return cx.bad(rule, nm, f"{len(t.line)} distributed loads", site)
                        n0, n1, h0, h1 = t.line[0]
                        x0, x1 = t.x(n0), t.x(n1)
                        verdict(cx, x0 is not None and x1 is not None and compare(x0, off + q(Ls, a))[0] == "ok" and compare(x1, off + q(Ls, a + c))[0] == "ok", rule, f"{nm}: extent", f"{x0} to {x1}", site)
                        big = sgn(val[0] - val[1])
                        (cx.und if h0 is None or h1 is None or sgn(h0 - h1) is None else cx.ok if abs(sgn(h0 - h1)) == abs(big) and (sg < 0 or sgn(h0 - h1) == big) else cx.bad)(rule, f"{nm}: shape", f"{h0} to {h1}", site)
                        no = t.note.get((n0, n1), [])
                        parts = [hole(it, p) for p in re.split(r"\\rightarrow", no[0][0])] if len(no) == 1 else []
                        want = [val[0]] if alg.equal(val[0], val[1]) else list(val)
                        verdict(cx, len(parts) == len(want) and all(p is not None and compare(p, x)[0] == "ok" for p, x in zip(parts, want)) and no[0][1] == D_, rule, f"{nm}: its value", f"{no}", site)
                        if c < 1:
                            verdict(cx, len(t.dims) == 1 and t.dims[0][2] is not None and compare(t.dims[0][2], q(Ls, c))[0] == "ok" and t.dims[0][3] == N_, rule, f"{nm}: its extent", f"{t.dims}", site)
                        else:
                            verdict(cx, not t.dims, rule, f"{nm}: no extent", f"{t.dims}", site)
                    cx.guard(rule, f"{f} {sg} of span {sp}, {u}", dl, site)

    def uplift():
        a = latex(cx, L, pins, [[const(1), const(1), w]])[1]
        b = latex(cx, L, pins, [[const(1), const(1), -w]])[1]
        verdict(cx, a != b, rule, "an upward distributed load looks different from a downward one", "the same text" if a == b else "", site)
    cx.guard(rule, "direction of distributed loads", uplift, site)


@prop("I02", floor=800, rule="The schematic (drawing and LaTeX text) shows the model it is made from: nodes, members, the supports by kind, releases, every load at its own position, extent, direction and value, and dimensions, all in the chosen unit system.")
def i02(cx):
    unit_labels(cx)
    shown_loads(cx)
    shown_supports(cx)
    drawing(cx)
    latex_text(cx)
