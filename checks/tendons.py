"""H02: tendon profiles and their equivalent loads."""
from .sections import *  # noqa
from .loads import ints, rejects
from .envelopes import arr, data, sv


def member(entries, span):
    """(q terms) of the load-matrix entries on one span: lists of (magnitude, position)
    for point loads and couples, (intensity, from, to) for distributed loads"""
    P, m, w = [], [], []
    for e in entries:
        s = e[0]
        if not s.is_const():
            raise Unsup("member number")
        if int(s.const()) != span:
            continue
        k = int(e[1].const())
        if k == 1:
            w.append((e[2], None, None))
        elif k == 2:
            P.append((e[2], e[3]))
        elif k == 3:
            w.append((e[2], e[3], e[3] + e[4]))
        elif k == 4:
            m.append((e[2], e[3]))
        else:
            raise Unsup(f"load type {k}")
    return P, m, w


def pos(p):
    s = alg.sign(p)
    if s in (1,):
        return p
    if s in (0, -1, -0.5):
        return ZERO
    if s == 0.5:
        return p
    raise Unsup(f"position order {p}")


def after(x, a):
    s = alg.sign(x - a)
    if s == 1:
        return ONE
    if s in (-1, 0):
        return ZERO
    raise Unsup(f"position order {x} {a}")


def moment(loads, L, x, kind):
    """sagging moment at x: on a simple span ('ss'), a span fixed at its start and free
    at its end ('right') or the reverse ('left'), by statics alone"""
    P, m, w = loads
    w = [(q, ZERO if a is None else a, L if b is None else b) for q, a, b in w]
    left = ZERO             # moment at x of everything to the left
    for p, a in P:
        left = left - p * pos(x - a)
    for c, a in m:
        if alg.is_zero(a):
            left = left - c
        elif alg.is_zero(a - L):
            pass
        else:
            left = left - c * after(x, a)
    for q, a, b in w:
        left = left - q * (pos(x - a) ** 2 - pos(x - b) ** 2) / const(2)
    if kind == "left":
        return left
    tot, mom = ZERO, ZERO   # resultant, and its moment about the far end
    for p, a in P:
        tot, mom = tot + p, mom + p * (L - a)
    for c, a in m:
        mom = mom + c
    for q, a, b in w:
        tot, mom = tot + q * (b - a), mom + q * ((L - a) ** 2 - (L - b) ** 2) / const(2)
    if kind == "ss":
        return left + mom / L * x
    return left + tot * x + (mom - tot * L)


class Ten:
    """a tendon profile: constructor arguments and the piecewise curve they describe
    (pieces (x0, x1, function))"""

    def __init__(self, name, cls, args, L, pieces, cant=None):
        self.name, self.cls, self.args, self.L, self.pieces, self.cant = name, cls, args, L, pieces, cant

    def e(self, x, i):
        return self.pieces[i][2](x)

    def make(self, it, st):
        return it.new(f"prestress.{self.cls}", st, **self.args)


def lin(x0, y0, x1, y1):
    return lambda x: y0 + (y1 - y0) * (x - x0) / (x1 - x0)


def par3(x0, y0, x1, y1, x2, y2):
    def f(x):
        return (y0 * (x - x1) * (x - x2) / ((x0 - x1) * (x0 - x2)) + y1 * (x - x0) * (x - x2) / ((x1 - x0) * (x1 - x2))
                + y2 * (x - x0) * (x - x1) / ((x2 - x0) * (x2 - x1)))
    return f


def flat(y):
    return lambda x: y


def vee(x0, y0, x1, y1):
    """parabola from (x0, y0), where its slope is zero, to (x1, y1)"""
    return lambda x: y0 + (y1 - y0) * (x - x0) ** 2 / (x1 - x0) ** 2


def lengths(tag=""):
    return [sym(f"s{k}a{tag}") + sym(f"s{k}b{tag}") for k in range(5)]


def inside(x0, x1, tag=""):
    """a general point strictly between two consecutive stations"""
    for k, l in enumerate(lengths(tag)):
        if alg.is_zero(x1 - x0 - l):
            return x0 + sym(f"s{k}a{tag}")
    raise Unsup("piece length")


def tens(tag="", cant=None):
    """profiles of every kind, with end eccentricities above, at and below the centroid"""
    out = []
    g = lambda n: sym(f"{n}{tag}")
    LV = [("below", g("hl")), ("centroid", ZERO), ("above", -g("hl"))]
    RV = [("below", g("hr")), ("centroid", ZERO), ("above", -g("hr"))]
    l0, l1, l2, l3, l4 = lengths(tag)
    ends = [(a, b) for a in LV for b in RV]
    for (ln, el), (rn, er) in ends:
        lo = g("hl") + g("hr") + g("hm")                      # below both ends
        E = f"{ln}/{rn}"
        if cant is None:
            for cl in (0, 1):
                for cr in (0, 1):
                    a, b = (l0 if cl else ZERO), (l4 if cr else ZERO)
                    c = ({"c_left": a} if cl else {}) | ({"c_right": b} if cr else {})
                    F = f"{E}" + (" set-back start" if cl else "") + (" set-back end" if cr else "")
                    pre = [(ZERO, a, flat(el))] if cl else []

                    def post(L, cr=cr, b=b, er=er):
                        return [(L - b, L, flat(er))] if cr else []
                    L = a + l1 + b
                    for sg, em in (("sag", lo), ("hump", -lo)):
                        out.append(Ten(f"parabola {F} {sg}", "Parabola", dict(e_left=el, e_mid=em, e_right=er, **c), L,
                                       pre + [(a, L - b, par3(a, el, a + l1 / const(2), em, a + l1, er))] + post(L)))
                    L = a + l1 + l2 + b
                    out.append(Ten(f"harp {F}", "Harp", dict(e_left=el, e_mid=lo, e_right=er, a=a + l1, **c), L,
                                   pre + [(a, a + l1, lin(a, el, a + l1, lo)), (a + l1, L - b, lin(a + l1, lo, L - b, er))] + post(L)))
                    L = a + l1 + l2 + l3 + b
                    xa, xb = a + l1, a + l1 + l2
                    for k, (e1, e2) in enumerate(((lo, lo), (lo, -lo))):
                        if k and (cl or cr):
                            continue
                        out.append(Ten(f"double harp {F} {k}", "DoubleHarp", dict(e_left=el, e_1=e1, e_2=e2, e_right=er, a=xa, b=xb, **c), L,
                                       pre + [(a, xa, lin(a, el, xa, e1)), (xa, xb, lin(xa, e1, xb, e2)), (xb, L - b, lin(xb, e2, L - b, er))] + post(L)))
            L = l1 + l2 + l3 + l4
            a, c, d = l1, l1 + l2, l1 + l2 + l3
            ea, ed = el + (lo - el) * a / c, er + (lo - er) * l4 / (L - c)
            out.append(Ten(f"compound parabola {E}", "CompoundParabola", dict(e_left=el, e_mid=lo, e_right=er, a=a, b=l4, c=c), L,
                           [(ZERO, a, vee(ZERO, el, a, ea)), (a, c, vee(c, lo, a, ea)), (c, d, vee(c, lo, d, ed)), (d, L, vee(L, er, d, ed))]))
        else:
            if ln == "centroid" and rn == "centroid":
                continue
            for setb in (0, 1):
                a, b = (l0 if setb and cant == "right" else ZERO), (l4 if setb and cant == "left" else ZERO)
                F = f"{E} cantilever {cant}" + (" set-back" if setb else "")
                c = ({"c_left": a} if cant == "right" and setb else {}) | ({"c_right": b} if cant == "left" and setb else {})
                pre = [(ZERO, a, flat(el))] if cant == "right" and setb else []
                L = a + l1 + b
                post = [(L - b, L, flat(er))] if cant == "left" and setb else []
                if alg.sign(el - er) in (1, -1):
                    out.append(Ten(f"parabola {F}", "Parabola", dict(e_left=el, e_mid=g("hx"), e_right=er, **c), L,
                                   pre + [(a, L - b, vee(a, el, L, er) if cant == "right" else vee(L - b, er, ZERO, el))] + post, cant))
                L = a + l1 + l2 + b
                post = [(L - b, L, flat(er))] if cant == "left" and setb else []
                out.append(Ten(f"harp {F}", "Harp", dict(e_left=el, e_mid=lo, e_right=er, a=a + l1, **c), L,
                               pre + [(a, a + l1, lin(a, el, a + l1, lo)), (a + l1, L - b, lin(a + l1, lo, L - b, er))] + post, cant))
                L = a + l1 + l2 + l3 + b
                post = [(L - b, L, flat(er))] if cant == "left" and setb else []
                xa, xb = a + l1, a + l1 + l2
                out.append(Ten(f"double harp {F}", "DoubleHarp", dict(e_left=el, e_1=lo, e_2=-lo, e_right=er, a=xa, b=xb, **c), L,
                               pre + [(a, xa, lin(a, el, xa, lo)), (xa, xb, lin(xa, lo, xb, -lo)), (xb, L - b, lin(xb, -lo, L - b, er))] + post, cant))
    return out


def beam_of(it, st, Ls, R):
    return it.new("analysis.BeamAnalysis", st, lst(st, Ls), lst(st, [sym("EI")] * len(Ls)), lst(st, ints(*R)))


def eq_loads(it, st, ba, F, profs):
    r, _ = it.analyze_call("prestress.equivalent_loads", [ba, F, lst(st, profs)], st=st)
    return entries_num(it, st, r)


def entries_num(it, st, r):
    c = st.cell(r)
    if not isinstance(c, Lst) or any(len(e) != 2 for e in c.ent):
        raise Unsup(f"load matrix {r!r}")
    out = []
    for g, e in c.ent:
        c = st.cell(e)
        row = [as_num(v, it, st) for v in (c.values() if isinstance(c, Lst) else list(e.items))]
        if g.k != "T":
            row[2] = alg.gamma(g, row[2], ZERO)       # a load present under a condition
        out.append(row)
    return out


SUP = {"ss": [-1, 0, -1, 0], "right": [-1, -1, 0, 0], "left": [0, 0, -1, -1]}


@prop("H02", floor=800, rule="For every profile kind, end eccentricity sign, set-back and cantilever side with symbolic geometry, the moment that the returned load matrix causes by statics alone on a determinate span equals minus force times the documented eccentricity at a general point of every piece (polynomial identity); on continuous beams the same span by span relative to the chord, with the anchorage moment of F times e where a tendon begins or ends and nowhere else, full F times e on overhangs; impossible geometry and wrong counts raise on every path; inputs are structurally unchanged.")
def h02(cx):
    it = cx.interp(tol0=True)
    site = cx.loc("prestress.equivalent_loads")
    F = sym("F")
    for cant in (None, "right", "left"):
        for tn in tens(cant=cant):
            def go(tn=tn, cant=cant):
                st = State()
                kind = cant or "ss"
                ba = beam_of(it, st, [tn.L], SUP[kind])
                LM = eq_loads(it, st, ba, F, [tn.make(it, st)])
                ld = member(LM, 1)
                for i, (x0, x1, f) in enumerate(tn.pieces):
                    x = inside(x0, x1)
                    cx.eq("balanced moment of a determinate span", f"{tn.name}: piece {i}", moment(ld, tn.L, x, kind), -F * f(x), cx.loc(f"prestress.{tn.cls}.segments"))
            cx.guard("balanced moment of a determinate span", tn.name, go, site)
    compound(cx, it)
    subdivided(cx, it, site)
    continuous(cx, it, site)
    refuse_profiles(cx, it, site)


def compound(cx, it):
    """compound parabolas over scaled geometries (proportions fixed, scales free)"""
    F, u, h = sym("F"), sym("u"), sym("h")
    props = [((2, 3, 3, 2), (0, 4, 0)), ((1, 4, 3, 2), (1, 5, -2)), ((3, 1, 2, 5), (-1, 2, 0)), ((1, 2, 5, 1), (2, 1, 3)), ((2, 2, 2, 2), (3, 3, 1)), ((1, 1, 1, 7), (-3, -1, -2)), ((5, 1, 1, 1), (0, -2, 0))]
    for ls, es in props:
        l1, l2, l3, l4 = (const(k) * u for k in ls)
        el, lo, er = (const(k) * h for k in es)
        L = l1 + l2 + l3 + l4
        a, c, d = l1, l1 + l2, l1 + l2 + l3
        ea, ed = el + (lo - el) * a / c, er + (lo - er) * l4 / (L - c)
        tn = Ten(f"compound parabola {ls} {es}", "CompoundParabola", dict(e_left=el, e_mid=lo, e_right=er, a=a, b=l4, c=c), L,
                 [(ZERO, a, vee(ZERO, el, a, ea)), (a, c, vee(c, lo, a, ea)), (c, d, vee(c, lo, d, ed)), (d, L, vee(L, er, d, ed))])

        def go(tn=tn):
            st = State()
            LM = eq_loads(it, st, beam_of(it, st, [tn.L], SUP["ss"]), F, [tn.make(it, st)])
            ld = member(LM, 1)
            for i, (x0, x1, f) in enumerate(tn.pieces):
                for k in (1, 2, 3):
                    x = x0 + (x1 - x0) * const(Fraction(k, 4))
                    cx.eq("balanced moment of a determinate span", f"{tn.name}: piece {i} at {k}/4", moment(ld, tn.L, x, "ss"), -F * f(x), cx.loc("prestress.CompoundParabola.segments"))
        cx.guard("balanced moment of a determinate span", tn.name, go, cx.loc("prestress.CompoundParabola.segments"))


def pick(tag, cant=None, names=("parabola below/above sag", "harp above/below set-back start", "double harp centroid/below 1", "parabola above/centroid set-back start set-back end hump")):
    ts = {t.name: t for t in tens(tag, cant)}
    return [ts[n] for n in names]


def shifted(loads, off):
    P, m, w = loads
    return [(p, a + off) for p, a in P], [(c, a + off) for c, a in m], w


def whole(LM, Ls):
    """all loads of a chain of members in one coordinate"""
    P, m, w = [], [], []
    x = ZERO
    for i, L in enumerate(Ls):
        p, c, q = member(LM, i + 1)
        P += [(v, a + x) for v, a in p]
        m += [(v, a + x) for v, a in c]
        w += [(v, (ZERO if a is None else a) + x, (L if b is None else b) + x) for v, a, b in q]
        x = x + L
    return P, m, w


def moment2(loads, L, x, kind):
    """as moment(), couples at intermediate stations counted on the proper side"""
    return moment(loads, L, x, kind)


def subdivided(cx, it, site):
    """determinate beams made of two members joined at an unsupported node: the tendon is
    continuous in eccentricity there, and free to change slope"""
    F = sym("F")
    la, lb, lc = sym("pa"), sym("pb"), sym("pc")
    h0, h1 = sym("h0"), sym("h1")
    l = [sym("q0a") + sym("q0b"), sym("q1a") + sym("q1b")]
    u = sym("u")
    # parabola on each member, sharing the eccentricity at the joint; proportions fixed so
    # that the slope change there has a definite sign
    for R, kind in (([-1, 0, 0, 0, -1, 0], "ss"), ([-1, -1, 0, 0, 0, 0], "right"), ([0, 0, 0, 0, -1, -1], "left"), ([-1, 0, 0, -1, -1, 0], None)):
        for nm, e1, e2 in (("sag then sag", (1, 4, 2), (2, 5, -1)), ("sag then hump", (0, 3, 1), (1, -2, 0)), ("smooth", (0, 3, 4), (4, 3, 0))):
            if kind is None:
                continue

            def go(R=R, kind=kind, nm=nm, e1=e1, e2=e2):
                st = State()
                Ls = [const(4) * u, const(4) * u]
                h = sym("h")
                mk = lambda e: it.new("prestress.Parabola", st, **dict(zip(("e_left", "e_mid", "e_right"), [const(k) * h for k in e])))
                LM = eq_loads(it, st, beam_of(it, st, Ls, R), F, [mk(e1), mk(e2)])
                ld = whole(LM, Ls)
                for j, e in enumerate((e1, e2)):
                    x0 = const(4 * j) * u
                    free_end = (kind == "right" and j == 1) or (kind == "left" and j == 0)
                    x1 = x0 + const(4) * u
                    a, b, c = (const(k) * h for k in e)
                    if free_end:
                        f = vee(x0, a, x1, c) if kind == "right" else vee(x1, c, x0, a)
                    else:
                        f = par3(x0, a, x0 + const(2) * u, b, x1, c)
                    for k in (1, 2, 3):
                        x = x0 + const(k) * u
                        cx.eq("balanced moment across an unsupported joint", f"{nm}, {kind}, member {j+1} at {k}/4", moment(ld, Ls[0] + Ls[1], x, kind), -F * f(x), site)
            cx.guard("balanced moment across an unsupported joint", f"{nm}, {kind}", go, site)


def continuous(cx, it, site):
    """span by span on continuous beams: the loads on each member give, on that member
    alone, minus F times the offset from the chord, with the anchorage moment of a tendon
    end; overhangs give minus F e at every section"""
    R3 = {"three spans": [-1, 0] * 4, "start fixed": [-1, -1] + [-1, 0] * 3, "overhang at the end": [-1, 0] * 3 + [0, 0], "overhang at the start": [0, 0] + [-1, 0] * 3,
          "overhangs": [0, 0, -1, 0, -1, 0, 0, 0]}
    profs = {None: [pick(f"_{i}") for i in range(3)]}
    for side in ("left", "right"):
        i = 0 if side == "left" else 2
        names = tuple(f"{n} cantilever {side}" for n in ("parabola below/above", "harp above/below", "double harp centroid/below", "parabola centroid/above")) + (f"parabola above/below cantilever {side} set-back",)
        profs[side] = pick(f"_{i}", side, names)
    Fs = [sym(f"F{i}") for i in range(3)]
    for nm, R in R3.items():
        free = [R[0] == 0 and R[1] == 0, R[6] == 0 and R[7] == 0]
        for combo in range(4):
            for missing in (None, 0, 1, 2, (0, 1), (1, 2), (0, 2), (0, 1, 2)):
                gone = () if missing is None else missing if isinstance(missing, tuple) else (missing,)
                if gone and combo not in (0, 1):
                    continue
                for fm in ("one force", "force per span"):
                    name = f"{nm}, profiles {combo}, unstressed {[g + 1 for g in gone]}, {fm}"

                    def go(nm=nm, R=R, free=free, combo=combo, gone=gone, fm=fm, name=name):
                        st = State()
                        tl = [profs["left"][combo] if free[0] else profs[None][0][combo], profs[None][1][(combo + 1) % 4], profs["right"][combo] if free[1] else profs[None][2][combo]]
                        F = [Fs[0]] * 3 if fm == "one force" else Fs
                        fv = Fs[0] if fm == "one force" else lst(st, Fs)
                        LM = eq_loads(it, st, beam_of(it, st, [t.L for t in tl], R), fv, [NONE if i in gone else t.make(it, st) for i, t in enumerate(tl)])
                        for i, tn in enumerate(tl):
                            P, m, w = ld = member(LM, i + 1)
                            if i in gone:
                                (cx.bad if P or m or w else cx.ok)("unstressed span carries no load", f"{name}: span {i+1}", f"{ld}", site)
                                continue
                            kind = "left" if i == 0 and free[0] else "right" if i == 2 and free[1] else "ss"
                            e0, e1 = tn.pieces[0][2](ZERO), tn.pieces[-1][2](tn.L)
                            starts = i == 0 or i - 1 in gone
                            ends = i == 2 or i + 1 in gone
                            for j, (x0, x1, f) in enumerate(tn.pieces):
                                x = inside(x0, x1, f"_{i}")
                                if kind == "ss":
                                    want = f(x) - (ZERO if starts else e0 * (tn.L - x) / tn.L) - (ZERO if ends else e1 * x / tn.L)
                                elif kind == "right" and starts:
                                    want = f(x)
                                elif kind == "left" and ends:
                                    want = f(x)
                                else:
                                    want = f(x)
                                cx.eq("balanced moment span by span", f"{name}: span {i+1} ({tn.name}) piece {j}", moment(ld, tn.L, x, kind), -F[i] * want, site)
                    cx.guard("balanced moment span by span", name, go, site)


def refuse_profiles(cx, it, site):
    L, a, b, c = sym("L"), sym("a"), sym("b"), sym("c")
    e = dict(e_left=sym("e0"), e_mid=sym("e1"), e_right=sym("e2"))
    d = dict(e_left=sym("e0"), e_1=sym("e1"), e_2=sym("e3"), e_right=sym("e2"))
    cases = [
        ("parabola, high points coincide", "Parabola", dict(e, c_left=a, c_right=b), a + b, "ss"),
        ("parabola, high points cross", "Parabola", dict(e, c_left=a + c, c_right=b), a + b, "ss"),
        ("harp, bend at the start", "Harp", dict(e, a=ZERO), L, "ss"),
        ("harp, bend at the end", "Harp", dict(e, a=L), L, "ss"),
        ("harp, bend before the span", "Harp", dict(e, a=-a), L, "ss"),
        ("harp, bend after the span", "Harp", dict(e, a=L + a), L, "ss"),
        ("harp, bend before the high point", "Harp", dict(e, a=a, c_left=a + b), a + b + c, "ss"),
        ("harp, bend after the high point", "Harp", dict(e, a=a + b, c_right=b + c), a + b + c, "ss"),
        ("harp on a cantilever, bend after the tip", "Harp", dict(e, a=L + a), L, "right"),
        ("double harp, bends coincide", "DoubleHarp", dict(d, a=a, b=a), a + b, "ss"),
        ("double harp, bends reversed", "DoubleHarp", dict(d, a=a + b, b=a), a + b + c, "ss"),
        ("double harp, second bend at the end", "DoubleHarp", dict(d, a=a, b=a + b), a + b, "ss"),
        ("double harp, first bend at the start", "DoubleHarp", dict(d, a=ZERO, b=a), a + b, "ss"),
        ("double harp, bend before the high point", "DoubleHarp", dict(d, a=a, b=a + b + c, c_left=a + b), a + b + c + L, "ss"),
        ("double harp, bend after the high point", "DoubleHarp", dict(d, a=a, b=a + b, c_right=c + b / const(2)), a + b + c, "ss"),
        ("compound, inflection at the start", "CompoundParabola", dict(e, a=ZERO, b=b, c=a), a + b + c, "ss"),
        ("compound, low point before the inflection", "CompoundParabola", dict(e, a=a + b, b=c, c=a), a + b + c + L, "ss"),
        ("compound, low point at the inflection", "CompoundParabola", dict(e, a=a, b=c, c=a), a + b + c, "ss"),
        ("compound, low point after the second inflection", "CompoundParabola", dict(e, a=a, b=b + c, c=a + b), a + b + c, "ss"),
        ("compound, second inflection at the end", "CompoundParabola", dict(e, a=a, b=ZERO, c=a + b), a + b + c, "ss"),
        ("compound on a cantilever", "CompoundParabola", dict(e, a=a, b=c, c=a + b), a + b + c + L, "right"),
        ("compound on a cantilever (left)", "CompoundParabola", dict(e, a=a, b=c, c=a + b), a + b + c + L, "left"),
    ]
    for nm, cls, kw, Ls, kind in cases:
        rejects(cx, it, nm, lambda st, cls=cls, kw=kw, Ls=Ls, kind=kind: eq_loads(it, st, beam_of(it, st, [Ls], SUP[kind]), sym("F"), [it.new(f"prestress.{cls}", st, **kw)]), cx.loc(f"prestress.{cls}"), "impossible geometry rejected")
    for nm, n, F in (("one profile for two spans", 1, None), ("three profiles for two spans", 3, None), ("no profile", 0, None), ("one force in a list for two spans", 2, 1), ("three forces for two spans", 2, 3)):
        def f(st, n=n, F=F):
            ba = beam_of(it, st, [L, L + a], [-1, 0] * 3)
            fv = sym("F") if F is None else lst(st, [sym(f"F{i}") for i in range(F)])
            return eq_loads(it, st, ba, fv, [it.new("prestress.Parabola", st, **e) for _ in range(n)])
        rejects(cx, it, nm, f, site, "wrong number of profiles or forces rejected")

    def own():
        st = State()
        ba = beam_of(it, st, [L, L + a], [-1, 0] * 3)
        p = [it.new("prestress.Parabola", st, e_left=ZERO, e_mid=b, e_right=-c), it.new("prestress.Harp", st, e_left=-c, e_mid=b, e_right=ZERO, a=L / const(2))]
        pv, fv = lst(st, p), lst(st, [sym("F0"), sym("F1")])
        pre = heap.snapshot(st, None)
        r, _ = it.analyze_call("prestress.equivalent_loads", [ba, fv, pv], st=st)
        for k, v in (("beam", ba), ("profiles", pv), ("forces", fv)):
            heap.unchanged(cx, "preprocessor leaves its inputs unchanged", k, pre, v, st, v, site)
        bm = it.getattr(ba, "beam", st)
        r2, _ = it.analyze_call("prestress.equivalent_loads", [bm, fv, pv], st=st)
        heap.unchanged(cx, "same loads from the beam and from the analysis", "two spans", st, r, st, r2, site)
    cx.guard("preprocessor leaves its inputs unchanged", "two spans", own, site)
