"""A05: member effects reconstructed from the nodal solution."""
from .elements import *  # noqa
from .elements import beam_with, fixed_timo, released, section_hooks, usec, RELN, Gen, STEPPED, stepped_loads, stepped_form, curvature, one_segment
from sa.npmodel import *  # noqa


def member_ref(ld, X, d, EI, GA, et, f=None):
    """exact fields of a member with end displacements d (moment end releases
    et), load ld:   V, M, R (section rotation), D.  With end forces f given they
    are used as they are and an unreleased member is integrated from its left end
    (its right-end compatibility is the stiffness / load-vector identity)."""
    L = ld.L
    given = f is not None
    if not given:
        phi = const(12) * EI / (GA * L ** 2) if GA is not None else ZERO
        f0, _ = fixed_timo(ld, EI, GA)
        fr, k = released(et, f0, EI, L, phi, ld.ss())
        f = [fr[i] + sum((k[i][j] * d[j] for j in range(4)), ZERO) for i in range(4)]
    fld, Va, Ra = ld.field(X)
    Ma, Mb = f[1], f[3]
    V = fld["V"] + (Ma + Mb) / L
    mm = lambda x: (Ma + Mb) / L * x - Ma
    M = fld["M"] + mm(X)
    q = (Ma + Mb) / L
    R0 = Ma * L / const(2) - q * L ** 2 / const(6)
    Rm = q * X ** 2 / const(2) - Ma * X + R0
    Dm = q * X ** 3 / const(6) - Ma * X ** 2 / const(2) + R0 * X
    th = (d[2] - d[0]) / L
    R = th + (fld["R"] + Rm) / EI
    D = d[0] + th * X + (fld["D"] + Dm) / EI
    if GA is not None:
        def intV(x):
            fx, _, _ = ld.field(x)
            r = fx["M"] + mm(x) + Ma
            for c, a, n in ld.terms:
                if n == -2:
                    r = r + c * mech.brk(x, a, 0)
            return r
        g = lambda x: -intV(x) / GA
        R = R - g(L) / L
        D = D + g(X) - X / L * g(L)
    if given and et == 1:
        R00 = th + (Ra + R0) / EI - (g(L) / L if GA is not None else ZERO)
        R = R - R00 + d[1]
        D = D + (d[1] - R00) * X
    return dict(V=V, M=M, R=R, D=D), f


def two_span(it, st, L, ei, et, entry, ga, other, more=()):
    """beam of two members; the loaded one second, with `more` loads on it"""
    L0, E0 = sym("L0"), sym("E0")
    lmv = []
    if other and more:
        lmv.append(st.new(Lst([(TRUE, e) for e in (const(1), const(2), sym("q1", None), L0 / const(3))])))
    for e in [entry] + list(more):
        lmv.append(st.new(Lst([(TRUE, x) for x in [const(2)] + list(e)[1:]])))
    if other:
        lmv.append(st.new(Lst([(TRUE, e) for e in (const(1), const(1), sym("q0", None))])))
    kw = dict(
        L=st.new(Lst([(TRUE, L0), (TRUE, L)])), EI=st.new(Lst([(TRUE, E0), (TRUE, ei)])),
        R=st.new(Lst([(TRUE, const(-1))] * 6)), eletype=st.new(Lst([(TRUE, const(1)), (TRUE, const(et))])),
        LM=st.new(Lst([(TRUE, e) for e in lmv])),
    )
    if ga is not None:
        kw["GAv"] = st.new(Lst([(TRUE, NONE), (TRUE, ga)]))
    b = it.new("beam.Beam", st, **kw)
    it.meth(b, "_set_loads", st)
    return b, L0


def beam_results(it, st, b, nd, npts=None, **kw):
    d = [sym(f"d{i}", None) for i in range(nd)]
    o = it.new("results.BeamResults", st, b, st.new(Arr((nd,), d)), st.new(Arr((0,), [])),
               npts if npts is not None else sym("npts", intlike=True), **kw)
    return o, d


def vres(it, st, o, i):
    c = st.cell(it.getattr(o, "vRes", st))
    return st.cell(c.ent[i][1])


def end_force_hooks(log):
    """member stiffness and equivalent end forces as fresh symbols per member
    (their values are the subject of the stiffness and load-vector properties)"""
    def idx(v):
        p = as_num(v)
        return int(p.const()) if p.is_const() else None

    def k(it, st, full, kw):
        i = idx(full[1] if len(full) > 1 else list(kw.values())[0])
        if i is None:
            return NotImplemented
        log.add(("k", i))
        return st.new(Arr((4, 4), [sym(f"k{i}_{min(a, b)}{max(a, b)}", None) for a in range(4) for b in range(4)]))

    def ref(it, st, full, kw):
        i = idx(full[1] if len(full) > 1 else list(kw.values())[0])
        if i is None:
            return NotImplemented
        log.add(("r", i))
        return st.new(Arr((4,), [sym(f"r{i}_{a}", None) for a in range(4)]))

    return {"beam.Beam.get_span_k": k, "beam.Beam.get_ref": ref}


def given_f(i, d):
    return [sym(f"r{i}_{a}", None) + sum((sym(f"k{i}_{min(a, b)}{max(a, b)}", None) * d[b] for b in range(4)), ZERO) for a in range(4)]


@prop("A05", floor=500, rule="The effects stored for a member, as value-graph normal forms in the nodal displacements, lengths, rigidities and load parameters, equal at a generic station of every zone the exact solution of the member boundary-value problem: shear and moment from the member end forces and the load, rotation and deflection from the curvature (and shear strain) with end deflections equal to the nodal values, end rotations equal to the nodal values where unreleased and zero moment where released; loads of other members do not enter. Quadrature along the station grid is taken as exact integration.")
def a05(cx):
    EI, GA = sym("EI"), sym("GA")
    site = cx.loc("results.BeamResults._member_values")
    npts = sym("npts", intlike=True)
    X = sym("x", None)
    log = set()
    H = end_force_hooks(log)
    its = {(0, 0): cx.interp(), (1, 0): cx.interp(hooks=section_hooks(), tol0=True),
           (0, 1): cx.interp(hooks=H), (1, 1): cx.interp(hooks=dict(section_hooks(), **H), tol0=True)}
    for ld in mech.families():
        for form in ("prismatic", "shear-flexible", "variable", "variable-shear"):
            for et in (1, 2, 3, 4):
                var = form.startswith("variable")
                if var and cx.tier != "thorough" and (len(ld.gaps) > 2 or ld.name in ("pudl/overhang", "trap/overhang", "pudl/to-end")):
                    continue
                whole = len(ld.gaps) == 1 or (form == "prismatic" and len(ld.gaps) == 2)
                if ld.name == "trap/full" and form != "prismatic":
                    whole = False
                for hooked in ((0, 1) if whole else (1,)):
                    def go(ld=ld, form=form, et=et, hooked=hooked, it=its[(int(var), hooked)]):
                        st = State()
                        L = ld.L
                        ei, ga = EI, None
                        if form == "variable":
                            ei = usec(it, st, (L, EI))
                        if form == "variable-shear":
                            ga = usec(it, st, (L, GA))
                        elif form == "shear-flexible":
                            ga = GA
                        b, L0 = two_span(it, st, L, ei, et, ld.entry, ga, True)
                        log.clear()
                        o, d = beam_results(it, st, b, 6, npts)
                        if hooked and not {("k", 1), ("r", 1)} <= log:
                            cx.und("member-effects", f"{form}:{RELN[et]}:{ld.name}", "member end forces not obtained from the member stiffness/load-vector accessors", site)
                            return
                        m = vres(it, st, o, 1)
                        want, f = member_ref(ld, X, d[2:], EI, GA if ga is not None else None, et, given_f(1, d[2:]) if hooked else None)
                        nm = f"{form}:{RELN[et]}:{ld.name}" + (":own-end-forces" if hooked else "")
                        c = st.cell(m.attrs["x"])
                        cx.eq("member-x", nm, alg.subst(as_num(c.elem), {c.st.x: X * npts / L}), L0 + X, site)
                        for att in ("V", "M", "R", "D"):
                            c = st.cell(m.attrs[att])
                            if not isinstance(c, Fld):
                                cx.und("member-effects", f"{nm}:{att}", f"not a field: {c!r}", site)
                                continue
                            g = alg.subst(as_num(c.elem), {c.st.x: X * npts / L}) if c.st is not None else as_num(c.elem)
                            for lab, mp in gap_points(ld):
                                gg, ww = alg.subst(g, mp), alg.subst(want[att], mp)
                                cx.eq("member-effects", f"{nm}:{att}:{lab}", gg, ww, site)
                    cx.guard("member-effects", f"{form}:{RELN[et]}:{ld.name}", go, site)
    # several loads on the member (and others before and after them on its neighbour)
    w3, P3, m3 = (sym(n, None) for n in ("w3", "P3", "m3"))
    a, b, L = sym("a"), sym("b"), sym("a") + sym("b")
    point = mech.Load("udl+point", [const(2), const(2), P3, a], [a, b], [(P3, a, -1), (w3, ZERO, 0)], "")
    triple = mech.Load("udl+moment+point", [const(2), const(4), m3, a], [a, b], [(m3, a, -2), (w3, ZERO, 0), (P3, a, -1)], "")
    udl = [const(2), const(1), w3]
    for ld, more in ((point, [udl]), (triple, [udl, [const(2), const(2), P3, a]]), (triple, [[const(2), const(2), P3, a], udl])):
        for form in ("prismatic", "shear-flexible"):
            for et in (1, 2, 3, 4):
                nm = f"{form}:{RELN[et]}:{ld.name}" + (":reordered" if more[-1] is udl and ld is triple else "")

                def go(ld=ld, more=more, form=form, et=et, nm=nm):
                    it = its[(0, 1)]
                    st = State()
                    ga = GA if form == "shear-flexible" else None
                    b_, L0 = two_span(it, st, L, EI, et, ld.entry, ga, True, more)
                    log.clear()
                    o, d = beam_results(it, st, b_, 6, npts)
                    if not {("k", 1), ("r", 1)} <= log:
                        raise Unsup("member end forces not obtained from the member stiffness/load-vector accessors")
                    m = vres(it, st, o, 1)
                    want, f = member_ref(ld, X, d[2:], EI, ga, et, given_f(1, d[2:]))
                    for att in ("V", "M", "R", "D"):
                        c = st.cell(m.attrs[att])
                        if not isinstance(c, Fld):
                            raise Unsup("not a field")
                        g = alg.subst(as_num(c.elem), {c.st.x: X * npts / L}) if c.st is not None else as_num(c.elem)
                        for lab, mp in gap_points(ld):
                            cx.eq("several-loads", f"{nm}:{att}:{lab}", alg.subst(g, mp), alg.subst(want[att], mp), site)
                cx.guard("several-loads", nm, go, site)


    a05_more(cx)


def a05_more(cx):
    """stepped members and imposed curvature, own end forces"""
    site = cx.loc("results.BeamResults._member_values")
    EI, GA = sym("EI"), sym("GA")
    npts = sym("npts", intlike=True)
    X = Gen.X
    log = set()
    it = cx.interp(hooks=dict(section_hooks(), **end_force_hooks(log)), tol0=True)

    def judge(nm, ld, et, make, zones):
        def go():
            st = State()
            ei, ga, EIp, GAp, kap = make(st)
            b, L0 = two_span(it, st, ld.L, ei, et, ld.entry, ga, True)
            log.clear()
            o, d = beam_results(it, st, b, 6, npts)
            if not {("k", 1), ("r", 1)} <= log:
                raise Unsup("member end forces not obtained from the member stiffness/load-vector accessors")
            m = vres(it, st, o, 1)
            d = d[2:]
            want = Gen(ld, EIp, GAp, kap).field(given_f(1, d), d, d[1] if et == 1 else None)
            for att in ("V", "M", "R", "D"):
                c = st.cell(m.attrs[att])
                if not isinstance(c, Fld):
                    raise Unsup("not a field")
                g = alg.subst(as_num(c.elem), {c.st.x: X * npts / ld.L}) if c.st is not None else as_num(c.elem)
                for lab, mp in zones:
                    mp2 = {k: v for k, v in mp.items() if k != "at"}
                    w = want[att](mp["at"])      # the piece the zone lies in
                    cx.eq("member-effects", f"{nm}:{att}:{lab}", alg.subst(g, mp2), alg.subst(w, mp2), site)
        cx.guard("member-effects", nm, go, site)

    def zones_of(ld):
        out, pre = [], ZERO
        for (lab, mp), g in zip(gap_points(ld), ld.gaps):
            out.append((lab, dict(mp, at=pre + g / const(2))))
            pre = pre + g
        return out
    quick = cx.tier != "thorough"
    for form in STEPPED:
        for ld, s in stepped_loads():
            for et in (1, 2, 3, 4):
                few = ("udl", "point at the step")
                if quick and ld.name not in few + (("point before the step", "moment after the step", "partial load across the step", "trapezoid") if et == 1 and form == "stepped EI" else ("moment before the step",) if et == 1 and form == "stepped shear" else ()):
                    continue
                if quick and form == "stepped both" and ld.name != "udl":
                    continue
                judge(f"{form}:{RELN[et]}:{ld.name}:own-end-forces", ld, et, lambda st, form=form, s=s, ld=ld: stepped_form(it, st, form, s, ld.L) + (ZERO,), zones_of(ld))
    L = sym("L")
    for form in ("prismatic", "shear-flexible", "one segment", "one segment both") + STEPPED:
        for n in (1, 2, 3):
            for et in (1, 2, 3, 4):
                if quick and form not in ("prismatic", "shear-flexible") and n != 2:
                    continue
                if form in STEPPED:
                    s, r = sym("a"), sym("b")
                    ld, kap = curvature(n, s + r)
                    ld.gaps = [s, r]
                    mk = lambda st, form=form, s=s, r=r, kap=kap: stepped_form(it, st, form, s, s + r) + (kap,)
                elif form.startswith("one segment"):
                    ld, kap = curvature(n, L)
                    mk = lambda st, form=form, kap=kap: one_segment(it, st, form) + (kap,)
                else:
                    ld, kap = curvature(n, L)
                    g = form == "shear-flexible"
                    mk = lambda st, g=g, kap=kap: (EI, GA if g else None, [(ZERO, L, EI)], [(ZERO, L, GA)] if g else [], kap)
                judge(f"{form}:{RELN[et]}:{ld.name}:own-end-forces", ld, et, mk, zones_of(ld))
    # special shapes of imposed curvature: no mean, none at either end, none in the middle, none at all
    c = sym("k0", None)
    for form in ("prismatic", "shear-flexible"):
        g = form == "shear-flexible"
        for tag, ks in (("zero mean", [-c * L / const(2), c]), ("zero at the left end", [ZERO, c]), ("zero at the right end", [-c * L, c]),
                        ("zero at both ends", [ZERO, c * L, -c]), ("zero mean, order 2", [c * L ** 2, -const(6) * c * L, const(6) * c]), ("none", [ZERO])):
            for et in (1, 2, 3, 4):
                ld, kap = curvature(len(ks), L, ks)
                judge(f"{form}:{RELN[et]}:{ld.name}:{tag}:own-end-forces", ld, et, lambda st, g=g, kap=kap: (EI, GA if g else None, [(ZERO, L, EI)], [(ZERO, L, GA)] if g else [], kap), zones_of(ld))


# ------------------------------------------------------------------ A06
class SolveLog:
    def __init__(self, it, n0="u"):
        self.calls = []
        npm = it.npm

        def solve(args, kw, st):
            A = npm.to_arr(args[0], st)
            b = npm.to_arr(args[1], st)
            if not (isinstance(A, Arr) and isinstance(b, Arr) and len(A.shape) == 2 and len(b.shape) == 1):
                raise Unsup("solve of a non-enumerated system")
            m = b.shape[0]
            u = [sym(f"{n0}{len(self.calls)}_{j}", None) for j in range(m)]
            self.calls.append(([[as_num(A.at(i, j)) for j in range(m)] for i in range(m)], [as_num(x) for x in b.data], u))
            return st.new(Arr((m,), u))

        npm.n_numpy_linalg_solve = solve
        npm.n_scipy_linalg_solve = solve


def trivial_rows(A, b, u):
    """unknowns fixed by identity rows"""
    sub = {}
    rest = []
    for row, r in zip(A, b):
        nz = [j for j, x in enumerate(row) if not alg.is_zero(x)]
        if len(nz) == 1 and alg.is_zero(row[nz[0]] - ONE) and not (set(r.atoms()) & {atom_of(x) for x in u}):
            sub[atom_of(u[nz[0]])] = r
        else:
            rest.append((row, r))
    eqs = []
    for row, r in rest:
        e = -r
        for x, y in zip(row, u):
            e = e + x * y
        eqs.append(alg.subst(e, sub) if sub else e)
    return sub, eqs


def atom_of(p):
    return next(iter(p.atoms()))


FIX, FREE, SPR, SET, FSET, SSET = "fixed", "free", "spring", "settled", "free+imposed", "spring+imposed"


class Kind(str):
    """a kind of freedom with its imposed displacement (zero, or of known sign) or its
    spring stiffness given"""

    def __new__(cls, kind, d=None, ks=None):
        o = str.__new__(cls, kind)
        o.d, o.ks = d, ks
        return o


def dof_spec(kind, i):
    """-> (R entry, D entry or None)"""
    ks, dl = sym(f"s{i}"), sym(f"t{i}", None)
    if isinstance(kind, Kind):
        ks = ks if kind.ks is None else kind.ks
        dl = {None: dl, "0": ZERO, "+": sym(f"t{i}"), "-": -sym(f"t{i}")}[kind.d]
    return {FIX: (const(-1), None), FREE: (ZERO, None), SPR: (ks, None), SET: (const(-1), dl),
            FSET: (ZERO, dl), SSET: (ks, dl)}[kind]


A06_CONFIGS = {
    "1-span clamped-free": [FIX, FIX, FREE, FREE],
    "1-span simply supported": [FIX, FREE, FIX, FREE],
    "1-span fixed-fixed": [FIX] * 4,
    "1-span on springs": [SPR, FREE, SPR, FREE],
    "1-span rotational spring": [FIX, SPR, FIX, FREE],
    "1-span settlement": [SET, FIX, FIX, FREE],
    "2-span continuous": [FIX, FREE, FIX, FREE, FIX, FREE],
    "2-span middle settlement": [FIX, FREE, SET, FREE, FIX, FIX],
    "2-span middle spring": [FIX, FIX, SPR, FREE, FIX, FREE],
    "2-span two settlements": [SET, FREE, SET, FREE, FIX, SET],
    "2-span imposed free displacement": [FIX, FREE, FSET, FREE, FIX, FREE],
    "2-span all kinds": [SET, SPR, FREE, FREE, SPR, FIX],
    "3-span continuous": [FIX, FIX, FIX, FREE, FIX, FREE, FIX, FREE],
    "3-span mixed": [SPR, FREE, SET, FREE, FREE, FREE, FIX, FIX],
}


SET0, FSET0, SSET0 = Kind(SET, "0"), Kind(FSET, "0"), Kind(SSET, "0")
A06_CONFIGS.update({
    "1-span zero settlement": [SET0, FIX, FIX, FREE],
    "1-span held by a zero displacement": [FIX, FREE, FSET0, FREE],
    "1-span held by a zero rotation": [FIX, FSET0, FIX, FREE],
    "1-span spring with a zero displacement": [FIX, FREE, SSET0, FREE],
    "2-span held at the middle": [FIX, FREE, FSET0, FREE, FIX, FREE],
    "2-span all imposed displacements zero": [SET0, FSET0, SSET0, FSET0, FIX, FREE],
    "2-span downward settlement": [FIX, FREE, Kind(SET, "-"), FREE, FIX, Kind(FSET, "+")],
    "2-span zero and other settlements": [SET0, FREE, SET, FREE, Kind(SET, "+"), SET0],
    "2-span equal springs": [Kind(SPR, ks=sym("s")), FREE, Kind(SPR, ks=sym("s")), FREE, Kind(SPR, ks=sym("s")), FIX],
    "3-span held by imposed displacements only": [FSET0, FREE, FSET, FREE, FSET0, FREE, Kind(FSET, "-"), FREE],
    "4-span continuous": [FIX, FREE] * 5,
    "4-span mixed": [FIX, FREE, SPR, FREE, FREE, FREE, SET, FREE, FIX, SPR],
})


def more_layouts(count, seed=11):
    """a fixed spread over the layouts of one to three spans: every freedom of every kind
    next to every other"""
    pool = [FIX, FREE, SPR, SET, FSET, SSET, SET0, FSET0, SSET0, FIX, FREE]
    x, out = seed, {}
    for q in range(count):
        n = 1 + q % 3
        ks = []
        for _ in range(2 * n + 2):
            x = (1103515245 * x + 12345) % 2 ** 31
            ks.append(pool[(x >> 12) % len(pool)])
        if not any(k in (FIX, SET) for k in ks):
            ks[0] = FIX
        out[f"{n}-span layout {q}: " + ", ".join(k + (" (zero)" if isinstance(k, Kind) else "") for k in ks)] = ks
    return out


def analysed(it, st, kinds, ent=None, etype=None):
    nd = len(kinds)
    n = nd // 2 - 1
    R, D = zip(*[dof_spec(k, i) for i, k in enumerate(kinds)])
    mk = lambda xs: st.new(Lst([(TRUE, x) for x in xs]))
    kw = dict(R=mk(R))
    if any(x is not None for x in D):
        kw["D"] = mk([NONE if x is None else x for x in D])
    L, EI = [sym(f"L{i}") for i in range(n)], [sym(f"E{i}") for i in range(n)]
    if ent:
        kw["LM"] = mk([mk(e) for e in ent])
    ba = it.new("analysis.BeamAnalysis", st, mk(L), mk(EI), **kw)
    it.meth(ba, "analyze", st, check_stability=FALSE_())
    return ba, L, EI, R, D


def FALSE_():
    return alg.FALSE


@prop("A06", floor=60, rule="For enumerated support layouts (fixed, free, spring, settled, imposed displacement; 1-3 members) with symbolic member stiffness, equivalent end forces, spring stiffness and imposed displacements: the linear system handed to the solver is, row by row, the nodal equilibrium of the overlapped member stiffness plus springs, with every constrained displacement exactly its prescribed value; the reported reactions are the nodal residuals at fixed freedoms in order and the spring forces are minus stiffness times displacement.")
def a06(cx):
    site = cx.loc("analysis.BeamAnalysis.analyze")
    for name, kinds in {**A06_CONFIGS, **more_layouts(150)}.items():
        def go(name=name, kinds=kinds):
            log = set()
            it = cx.interp(hooks=end_force_hooks(log))
            sl = SolveLog(it)
            st = State()
            ba, L, EI, R, D = analysed(it, st, kinds)
            nd = len(kinds)
            n = nd // 2 - 1
            if len(sl.calls) != 1 or not {("k", i) for i in range(n)} | {("r", i) for i in range(n)} <= log:
                cx.und("equilibrium", name, f"solver calls {len(sl.calls)}, member accessors {sorted(log)}", site)
                return
            A, b, u = sl.calls[0]
            sub, eqs = trivial_rows(A, b, u)
            br = st.cell(it.getattr(ba, "beam_results", st))
            vec = lambda a: [as_num(x) for x in it.npm.to_arr(br.attrs[a], st).data]
            d, r, rs = vec("D"), vec("R"), vec("Rs")
            d = [alg.subst(x, sub) if sub else x for x in d]
            K = [[ZERO] * nd for _ in range(nd)]
            f = [ZERO] * nd
            for i in range(n):
                for a in range(4):
                    f[2 * i + a] = f[2 * i + a] - sym(f"r{i}_{a}", None)
                    for c in range(4):
                        K[2 * i + a][2 * i + c] = K[2 * i + a][2 * i + c] + sym(f"k{i}_{min(a, c)}{max(a, c)}", None)
            res0 = [sum((K[i][j] * d[j] for j in range(nd)), ZERO) - f[i] for i in range(nd)]
            wr, ws = [], []
            for i, k in enumerate(kinds):
                ks = R[i] if k in (SPR, SSET) else ZERO
                if D[i] is not None or k == FIX:
                    cx.eq("constraint", f"{name}:u{i}", d[i], D[i] if D[i] is not None else ZERO, site)
                else:
                    e = res0[i] + ks * d[i]
                    if any(alg.is_zero(e - q) or alg.is_zero(e + q) for q in eqs):
                        cx.ok("equilibrium", f"{name}:dof{i}", "row present in the solved system", site)
                    elif all(plain(q) for q in eqs) and len(eqs) == sum(1 for j, q in enumerate(kinds) if D[j] is None and q in (FREE, SPR)):
                        best = min(eqs, key=lambda q: len((e - q).t))
                        cx.bad("equilibrium", f"{name}:dof{i}", f"no row of the solved system is the equilibrium of freedom {i}; nearest row differs by {alg.show(best - e, 300)}", site)
                    else:
                        cx.und("equilibrium", f"{name}:dof{i}", "row not recognised", site)
                if k in (FIX, SET):
                    wr.append(res0[i])
                if k in (SPR, SSET):
                    ws.append(-ks * d[i])
            for lab, got, want in (("reaction", r, wr), ("spring-force", rs, ws)):
                if len(got) != len(want):
                    cx.bad(lab, name, f"{len(got)} values reported for {len(want)} supported freedoms", cx.loc("analysis.BeamAnalysis"))
                    continue
                for i, (g, w) in enumerate(zip(got, want)):
                    cx.eq(lab, f"{name}:{i}", alg.subst(g, sub) if sub else g, w, site)
        cx.guard("equilibrium", name, go, site)
