"""A01-A04: load tables, simply-supported fields, releases, element stiffness."""
from sa.report import *  # noqa
from sa import alg, mech
from sa.vals import *  # noqa
from sa.alg import sym, const, ZERO, ONE

COMP = ("Va", "Ma", "Vb", "Mb")


def lm(st, *entries):
    return st.new(Lst([(TRUE, st.new(Lst([(TRUE, v) for v in e]))) for e in entries]))


def parse(it, st, entry):
    """load-matrix entry -> abstract Load object through the public parser"""
    r, _ = it.analyze_call("load.parse_LM", [lm(st, entry)], st=st)
    c = st.cell(r)
    if not isinstance(c, Lst) or len(c.ent) != 1:
        raise Unsup(f"parser produced {len(c.ent) if isinstance(c, Lst) else c} loads")
    return c.ent[0][1]


def comps(it, st, v):
    """LoadCNL / 4-vector -> dict"""
    c = st.cell(v)
    if isinstance(c, Obj):
        return {k: c.attrs.get(k) for k in COMP}
    if isinstance(c, Arr) and len(c.data) == 4:
        return dict(zip(COMP, c.data))
    if isinstance(c, Lst) and c.concrete() and len(c.ent) == 4:
        return dict(zip(COMP, c.values()))
    if isinstance(v, Tup) and len(v.items) == 4:
        return dict(zip(COMP, v.items))
    if isinstance(v, GV):
        a, b = comps(it, st, v.a), comps(it, st, v.b)
        return {k: it.merge(v.c, a[k], b[k]) for k in COMP}
    raise Unsup(f"end-action vector {v!r}")


def want_comps(cx, rule, name, got, want, site):
    for k in COMP:
        cx.eq(rule, f"{name}:{k}", got.get(k), want[k], site)


def station(it, st, L):
    x = sym("x", None)
    n = sym("n", intlike=True)
    return st.new(Fld(x, Station(x, ZERO, L, n), {0: ZERO, -1: L}, n)), x


def released(et, f, EI, L, phi, ss):
    """reference static condensation for the four end-release patterns, closed form:
    f fully fixed end actions, ss simply-supported shears -> (actions, stiffness)"""
    k = kref(EI, L, phi)
    if et == 1:
        return list(f), k
    Z = ZERO
    if et == 4:
        return [ss[0], Z, ss[1], Z], [[Z] * 4 for _ in range(4)]
    r, t = (3, 1) if et == 2 else (1, 3)   # released / retained moment
    carry = (const(2) - phi) / (const(4) + phi)
    sh = const(6) / L / (const(4) + phi)
    g = list(f)
    g[0] = f[0] - sh * f[r]
    g[2] = f[2] + sh * f[r]
    g[t] = f[t] - carry * f[r]
    g[r] = Z
    m = const(12) * EI / (L * (const(4) + phi))
    k = [[Z] * 4 for _ in range(4)]
    v = {0: ONE / L, 2: -ONE / L, t: ONE}
    for i in v:
        for j in v:
            k[i][j] = m * v[i] * v[j]
    return g, k


RELN = {1: "FF", 2: "FP", 3: "PF", 4: "PP"}


def kref(EI, L, phi=ZERO):
    c = EI / (ONE + phi)
    kv, kt = const(12) * c / L ** 3, const(6) * c / L ** 2
    km, kh = (const(4) + phi) * c / L, (const(2) - phi) * c / L
    return [[kv, kt, -kv, kt], [kt, km, -kt, kh], [-kv, -kt, kv, -kt], [kt, kh, -kt, km]]


@prop("A01", floor=30, rule="For every load type of the load-matrix format and every position region (interior, at an end, running past the end, off the member) the end actions returned for a fully fixed member equal, as polynomial normal forms in length, position and magnitude, those of the documented distribution (force-method: rotations of the released member restored to zero; end shears by statics). Dispatch is taken through the load-matrix parser.")
def a01(cx):
    it = cx.interp()
    site = cx.loc("load.parse_LM")
    for ld in mech.families(deep=True) + mech.offspan():
        def go(ld=ld):
            st = State()
            o = parse(it, st, ld.entry)
            cls = st.cell(o).cls
            s = cx.loc(f"load.{cls.name}.get_cnl") if cls else site
            r = it.meth(o, "get_cnl", st, ld.L, const(1))
            want = ld.fixed()
            want_comps(cx, "fixed-end-action", ld.name, comps(it, st, r), want, s)
            r = it.meth(o, "get_ref", st, ld.L, const(1))
            want_comps(cx, "fixed-member-end-force", ld.name, comps(it, st, r), want, cx.loc("load.Load.get_ref"))
        cx.guard("fixed-end-action", ld.name, go, site)
    # loads at the very ends of the member (limit values)
    P, m, L = sym("P", None), sym("m", None), sym("L")
    for name, entry, want in [
        ("point/at-start", [ONE, const(2), P, ZERO], dict(Va=P, Ma=ZERO, Vb=ZERO, Mb=ZERO)),
        ("point/at-end", [ONE, const(2), P, L], dict(Va=ZERO, Ma=ZERO, Vb=P, Mb=ZERO)),
        ("moment/at-start", [ONE, const(4), m, ZERO], dict(Va=ZERO, Ma=-m, Vb=ZERO, Mb=ZERO)),
        ("moment/at-end", [ONE, const(4), m, L], dict(Va=ZERO, Ma=ZERO, Vb=ZERO, Mb=-m)),
    ]:
        def go(name=name, entry=entry, want=want):
            st = State()
            o = parse(it, st, entry)
            r = it.meth(o, "get_cnl", st, L, const(1))
            want_comps(cx, "fixed-end-action", name, comps(it, st, r), want, cx.loc(f"load.{st.cell(o).cls.name}.get_cnl"))
        cx.guard("fixed-end-action", name, go, site)
    # imposed curvature  kappa(x)=k0+k1 x+k2 x^2, uniform EI
    ks = [sym(f"k{i}", None) for i in range(3)]
    EI = sym("EI")
    for n in (1, 2, 3):
        def go(n=n):
            st = State()
            o = parse(it, st, [ONE, const(6)] + ks[:n])
            it.setattr(o, "EI", EI, st)
            r = it.meth(o, "get_cnl", st, L, const(1))
            ti = ZERO
            tj = ZERO
            for i, k in enumerate(ks[:n]):
                # theta0 = int m_i k ; m_i = 1-x/L, m_j = -x/L
                i0 = k * L ** (i + 1) / const(i + 1)
                i1 = k * L ** (i + 1) / const(i + 2)
                ti = ti + i0 - i1
                tj = tj - i1
            Ma = EI / L * (const(4) * ti + const(2) * tj)
            Mb = EI / L * (const(2) * ti + const(4) * tj)
            want = dict(Va=(Ma + Mb) / L, Ma=Ma, Vb=-(Ma + Mb) / L, Mb=Mb)
            want_comps(cx, "fixed-end-action", f"curvature/order{n-1}", comps(it, st, r), want, cx.loc("load.LoadIC.get_cnl"))
        cx.guard("fixed-end-action", f"curvature/order{n-1}", go, site)


def gap_points(ld):
    """(label, substitution) putting a generic x inside each gap"""
    X = sym("x", None)
    out = []
    pre = ZERO
    for i, g in enumerate(ld.gaps):
        u, v = sym("u_"), sym("v_")
        out.append((f"zone{i}", {g: u + v, X: pre + u}))
        pre = pre + g
    return out


@prop("A02", floor=40, rule="For every load type and position region, the four effect arrays produced along a simply-supported unit-rigidity member equal, at a generic station of every zone between load discontinuities, the exact shear, moment, rotation and deflection of the documented load (dV/dx=-w, dM/dx=V, dR/dx=M, dD/dx=R with zero end moments and deflections); the end closure stations carry zero moment and shear.")
def a02(cx):
    it = cx.interp()
    site = cx.loc("load.parse_LM")
    fam = mech.families() + mech.offspan()
    for ld in fam:
        def go(ld=ld):
            st = State()
            o = parse(it, st, ld.entry)
            s = cx.loc(f"load.{st.cell(o).cls.name}.get_mbr_results")
            xs, X = station(it, st, ld.L)
            r = it.meth(o, "get_mbr_results", st, xs, ld.L)
            c = st.cell(r)
            if not isinstance(c, Obj):
                raise Unsup(f"result {r!r}")
            f, Va, Ra = ld.field(X)
            for att in ("V", "M", "R", "D"):
                a = st.cell(c.attrs.get(att))
                if not isinstance(a, Fld):
                    cx.und("member-field", f"{ld.name}:{att}", f"not an array: {c.attrs.get(att)!r}", s)
                    continue
                for lab, mp in gap_points(ld):
                    got = alg.subst(as_num(a.elem), mp)
                    want = alg.subst(f[att], mp)
                    cx.eq("member-field", f"{ld.name}:{att}:{lab}", got, want, s)
                if att in ("V", "M"):
                    for k in (0, -1):
                        cx.eq("closure-station", f"{ld.name}:{att}[{k}]", it.fld_at(a, k), ZERO, s)
        cx.guard("member-field", ld.name, go, site)
    # end-moment pair
    def ends():
        st = State()
        Ma, Mb, L = sym("Ma", None), sym("Mb", None), sym("L")
        o = it.new("load.LoadMaMb", st, ZERO, Ma, Mb)
        xs, X = station(it, st, L)
        c = st.cell(it.meth(o, "get_mbr_results", st, xs, L))
        s = cx.loc("load.LoadMaMb.get_mbr_results")
        V = (Ma + Mb) / L
        Ra = Ma * L / const(3) - Mb * L / const(6)
        want = dict(V=V, M=V * X - Ma, R=V * X ** 2 / const(2) - Ma * X + Ra, D=V * X ** 3 / const(6) - Ma * X ** 2 / const(2) + Ra * X)
        for att, w in want.items():
            cx.eq("member-field", f"end-moments:{att}", st.cell(c.attrs[att]).elem, w, s)
    cx.guard("member-field", "end-moments", ends)
    # imposed curvature: free deflected shape only
    def ic():
        st = State()
        ks = [sym("k0", None), sym("k1", None)]
        L = sym("L")
        o = parse(it, st, [ONE, const(6)] + ks)
        xs, X = station(it, st, L)
        c = st.cell(it.meth(o, "get_mbr_results", st, xs, L))
        s = cx.loc("load.LoadIC.get_mbr_results")
        rot = ks[0] * X + ks[1] * X ** 2 / const(2)
        dfl = ks[0] * X ** 2 / const(2) + ks[1] * X ** 3 / const(6)
        t0 = -(ks[0] * L / const(2) + ks[1] * L ** 2 / const(6))
        want = dict(V=ZERO, M=ZERO, R=rot + t0, D=dfl + t0 * X)
        for att, w in want.items():
            cx.eq("member-field", f"curvature:{att}", st.cell(c.attrs[att]).elem, w, s)
    cx.guard("member-field", "curvature", ic)

    # results of the loads on one member superpose, effect by effect
    def add():
        st = State()
        s = cx.loc("types.MemberResults.__add__")
        xs = [ZERO, sym("x1"), sym("L")]
        vals = {}

        def one(t):
            a = {k: [sym(f"{t}{k}{i}", None) for i in range(3)] for k in "MVRD"}
            vals[t] = a
            return it.new("types.MemberResults", st, vals=Tup([st.new(Arr((3,), list(v))) for v in (xs, a["M"], a["V"], a["R"], a["D"])]))
        p, q = one("p"), one("q")
        r = it.meth(p, "__add__", st, q)
        for k in "MVRD":
            for nm, o, w in (("sum", r, [a + b for a, b in zip(vals["p"][k], vals["q"][k])]), ("left operand", p, vals["p"][k]), ("right operand", q, vals["q"][k])):
                c = st.cell(it.getattr(o, k, st))
                if not isinstance(c, Arr) or len(c.data) != 3:
                    raise Unsup(f"{k} of {nm}")
                for i in range(3):
                    cx.eq("superposition", f"{k}[{i}] of the {nm}", as_num(c.data[i]), w[i], s)
        c = st.cell(it.getattr(r, "x", st))
        if isinstance(c, Arr):
            for i in range(3):
                cx.eq("superposition", f"x[{i}]", as_num(c.data[i]), xs[i], s)
        if not cx.prog.has("types.MemberResults.apply_EI"):
            return
        e = sym("EI")
        s = cx.loc("types.MemberResults.apply_EI")
        it.meth(p, "apply_EI", st, e)
        for k in "MVRD":
            c = st.cell(it.getattr(p, k, st))
            if not isinstance(c, Arr):
                raise Unsup(k)
            for i in range(3):
                v = vals["p"][k][i]
                cx.eq("rigidity applied", f"{k}[{i}]", as_num(c.data[i]), v / e if k in "RD" else v, s)
    cx.guard("superposition", "two loads", add)


def beam_with(it, st, L, EI, et, entry, GAv=None, kf=None):
    kw = dict(
        L=st.new(Lst([(TRUE, L)])), EI=st.new(Lst([(TRUE, EI)])),
        R=st.new(Lst([(TRUE, const(-1))] * 4)), eletype=st.new(Lst([(TRUE, const(et))])),
    )
    if entry is not None:
        kw["LM"] = lm(st, entry)
    if GAv is not None:
        kw["GAv"] = st.new(Lst([(TRUE, GAv)]))
    if kf is not None:
        kw["kf"] = st.new(Lst([(TRUE, kf)]))
    b = it.new("beam.Beam", st, **kw)
    if entry is not None:
        it.meth(b, "_set_loads", st)
    return b


def mat(st, v):
    c = st.cell(v)
    if isinstance(c, Arr) and c.shape == (4, 4):
        return [[c.at(i, j) for j in range(4)] for i in range(4)]
    raise Unsup(f"element matrix {v!r}")


@prop("A03", floor=60, rule="Equivalent nodal actions of a member with moment releases equal the static condensation of the fully fixed end actions by the member's own stiffness, for each release pattern, each load type, and each member formulation (prismatic, shear-flexible, variable rigidity evaluated at its uniform limit, shear-flexible variable rigidity at its uniform limit). For a shear-flexible member the fixed-end actions themselves are the force-method solution including shear strain.")
def a03(cx):
    EI, GA = sym("EI"), sym("GA")
    site = cx.loc("beam.Beam.get_ref")
    it0 = cx.interp()
    itu = cx.interp(hooks=section_hooks(), tol0=True)
    for ld in mech.families():
        L = ld.L
        for form, it in (("prismatic", it0), ("shear-flexible", it0), ("variable", itu), ("variable-shear", itu), ("variable-EI-shear", itu)):
            for et in (1, 2, 3, 4):
                def go(ld=ld, form=form, it=it, et=et):
                    st = State()
                    phi = ZERO
                    ei, ga = EI, None
                    if form.startswith("variable"):
                        ei = usec(it, st, (L, EI)) if form != "variable-shear" else EI
                        if form == "variable-shear":
                            ga = usec(it, st, (L, GA))
                        elif form == "variable-EI-shear":
                            ga = GA
                    elif form == "shear-flexible":
                        ga = GA
                    if ga is not None:
                        phi = const(12) * EI / (GA * L ** 2)
                    b = beam_with(it, st, L, ei, et, ld.entry, ga)
                    got = comps(it, st, it.meth(b, "get_ref", st, ZERO))
                    f, k = fixed_timo(ld, EI, GA if ga is not None else None)
                    f2, _ = released(et, f, EI, L, phi, ld.ss())
                    for c, w in zip(COMP, f2):
                        cx.eq("released-end-action", f"{form}:{RELN[et]}:{ld.name}:{c}", got[c], w, site)
                cx.guard("released-end-action", f"{form}:{RELN[et]}:{ld.name}", go, site)
    a03_more(cx)


def a03_more(cx):
    site = cx.loc("beam.Beam.get_ref")
    EI, GA, L = sym("EI"), sym("GA"), sym("L")

    def judge(nm, it, st, b, g, et):
        got = comps(it, st, it.meth(b, "get_ref", st, ZERO))
        for c, w in zip(COMP, g.actions(et)):
            cx.eq("released-end-action", f"{nm}:{c}", got[c], w, site)
    its = cx.interp(hooks=section_hooks(), tol0=True)
    for form in STEPPED:
        for ld, s in stepped_loads():
            for et in (1, 2, 3, 4):
                nm = f"{form}:{RELN[et]}:{ld.name}"
                if cx.tier != "thorough" and et in (2, 3) and ld.name not in ("udl", "point at the step") + (("point before the step", "moment after the step") if form in ("stepped EI", "stepped shear") else ()):
                    continue

                def go(form=form, ld=ld, s=s, et=et, nm=nm):
                    st = State()
                    ei, ga, EIp, GAp = stepped_form(its, st, form, s, ld.L)
                    judge(nm, its, st, beam_with(its, st, ld.L, ei, et, ld.entry, ga), Gen(ld, EIp, GAp), et)
                cx.guard("released-end-action", nm, go, site)
    # imposed curvature
    for form in ("prismatic", "shear-flexible", "one segment", "one segment, shear", "one segment both") + STEPPED:
        for n in (1, 2, 3):
            for et in (1, 2, 3, 4):
                nm = f"{form}:{RELN[et]}:curvature/order{n - 1}"

                def go(form=form, n=n, et=et, nm=nm):
                    st = State()
                    if form in STEPPED:
                        s, r = sym("a"), sym("b")
                        ei, ga, EIp, GAp = stepped_form(its, st, form, s, s + r)
                        ld, kap = curvature(n, s + r)
                    elif form.startswith("one segment"):
                        ei, ga, EIp, GAp = one_segment(its, st, form)
                        ld, kap = curvature(n, L)
                    else:
                        ei, ga, EIp, GAp = EI, GA if form != "prismatic" else None, [(ZERO, L, EI)], [(ZERO, L, GA)] if form != "prismatic" else []
                        ld, kap = curvature(n, L)
                    judge(nm, its, st, beam_with(its, st, ld.L, ei, et, ld.entry, ga), Gen(ld, EIp, GAp, kap), et)
                cx.guard("released-end-action", nm, go, site)


def fixed_timo(ld, EI, GA):
    """reference: force-method fixed-end actions with optional shear strain"""
    L = ld.L
    phi = const(12) * EI / (GA * L ** 2) if GA is not None else ZERO
    ti, tj = ld.theta0()
    ti, tj = ti / EI, tj / EI
    if GA is not None:
        # shear part of the released rotations: same at both ends,  int v V/GA,  v=-1/L
        # int V dx = M(L)-M(0) minus jumps of M = - sum of moment jumps
        jump = ZERO
        for c, a, n in ld.terms:
            if n == -2:
                jump = jump + c  # M drops... q = c<>^-2 => V has spike -c<>^-1, M jump -c
        intV = jump  # regular part of V integrates to (M end - M start) - (sum of jumps) = +c
        sh = -intV / (L * GA)
        ti, tj = ti - sh, tj - sh
    k = kref(EI, L, phi)
    Ma = -(k[1][1] * ti + k[1][3] * tj)
    Mb = -(k[3][1] * ti + k[3][3] * tj)
    Va, Vb = ld.ss()
    return [Va + (Ma + Mb) / L, Ma, Vb - (Ma + Mb) / L, Mb], k


def usec(it, st, *pieces):
    """a SectionEI built through its public builder from constant segments
    (length, value)"""
    x = ZERO
    sec = it.new("section.SectionEI", st)
    for ln, val in pieces:
        it.meth(sec, "add_segment", st, K("const"), st.new(Lst([(TRUE, x), (TRUE, x + ln)])), val)
        x = x + ln
    return sec


def piece_of(it, st, sec, lo, hi):
    """value of the constant segment covering exactly [lo, hi]"""
    ps = st.cell(it.getattr(sec, "pieces", st))
    for e in ps.ent:
        o = st.cell(e[1])
        x0, x1, co = as_num(o.attrs["x0"]), as_num(o.attrs["x1"]), st.cell(o.attrs["coeffs"])
        if isinstance(co, Arr) and len(co.data) == 1 and alg.sign(lo - x0) in (0, 0.5, 1) and alg.sign(x1 - hi) in (0, 0.5, 1):
            return co.data[0]
    raise Unsup("segment lookup")


def sorted_pieces(it, st, sec):
    """(start, value) of the constant segments in order"""
    out = []
    for e in st.cell(it.getattr(sec, "pieces", st)).ent:
        o = st.cell(e[1])
        co = st.cell(o.attrs["coeffs"])
        if not (isinstance(co, Arr) and len(co.data) == 1):
            raise Unsup("segment lookup")
        x0 = as_num(o.attrs["x0"])
        if out and alg.sign(x0 - out[-1][0]) != 1:
            raise Unsup("segment order")
        out.append((x0, as_num(co.data[0])))
    return out


def section_hooks():
    """evaluation of a piecewise-constant section on a station set lying inside
    one segment is that segment's value (the point-wise lookup itself is judged
    separately); everything else of the section class is the repository's."""
    def call(it, st, full, kw):
        x = it.npm.cell_of(full[1], st)
        parts = x.parts if isinstance(x, Cat) else [x]
        out = []
        for q in parts:
            if not isinstance(q, Fld) or q.st is None:
                return NotImplemented
            u = as_num(q.elem)
            ev = [alg.subst(u, {q.st.x: b}) for b in (q.st.lo, q.st.hi)]
            try:
                v = piece_of(it, st, full[0], *ev)
            except Unsup:
                # stations on both sides of a step: one value on either side of it
                ps = sorted_pieces(it, st, full[0])
                v, prev = ZERO, None
                for x0, val in ps:
                    f = ONE / val
                    v = f if prev is None else v + (f - prev) * mech.brk(u, x0, 0)
                    prev = f
                v = ONE / v
            out.append(Fld(v, q.st, {}, q.n))
        return st.new(Cat(out) if len(out) > 1 else out[0])

    return {"section.SectionEI.__call__": call}


class Gen:
    """force-method reference of a member with piecewise-constant rigidities EIp / GAp
    [(lo, hi, value)], a load ld and an imposed curvature kap (polynomial in x)"""
    X = sym("x", None)

    def __init__(self, ld, EIp, GAp=(), kap=ZERO):
        self.ld, self.EIp, self.GAp, self.kap, self.L = ld, EIp, GAp, kap, ld.L
        X, L = self.X, self.L
        m = [ONE - X / L, -X / L]
        self.m = m
        self.F = [[sum((alg.integral(m[i] * m[j], X, lo, hi) / e for lo, hi, e in EIp), ZERO)
                   + sum(((hi - lo) / (L * L * g) for lo, hi, g in GAp), ZERO) for j in range(2)] for i in range(2)]

    def K2(self, et):
        F = self.F
        Z = [[ZERO, ZERO], [ZERO, ZERO]]
        if et == 1:
            D = F[0][0] * F[1][1] - F[0][1] * F[1][0]
            return [[F[1][1] / D, -F[0][1] / D], [-F[0][1] / D, F[0][0] / D]]
        if et in (2, 3):
            i = et - 2
            Z[i][i] = ONE / F[i][i]
        return Z

    def stiffness(self, et):
        L, K = self.L, self.K2(et)
        B = [[ONE / L, ONE, -ONE / L, ZERO], [ONE / L, ZERO, -ONE / L, ONE]]
        return [[sum((B[a][i] * K[a][c] * B[c][j] for a in range(2) for c in range(2)), ZERO) for j in range(4)] for i in range(4)]

    def actions(self, et):
        X, L = self.X, self.L
        f, _, _ = self.ld.field(X)
        t = []
        for i in range(2):
            v = sum((alg.integral(self.m[i] * f["M"], X, lo, hi) / e for lo, hi, e in self.EIp), ZERO)
            v = v + alg.integral(self.m[i] * self.kap, X, ZERO, L)
            v = v - sum((alg.integral(f["V"], X, lo, hi) / (L * g) for lo, hi, g in self.GAp), ZERO)
            t.append(v)
        K = self.K2(et)
        Ma, Mb = (sum((K[i][j] * t[j] for j in range(2)), ZERO) for i in range(2))
        Va, Vb = self.ld.ss()
        return [Va + (Ma + Mb) / L, Ma, Vb - (Ma + Mb) / L, Mb]

    def field(self, f, d, r0=None):
        """effects at a generic station for end forces f and end deflections d[0], d[2]; the
        left rotation is r0, or follows from the right-end deflection"""
        X, L = self.X, self.L
        fl, _, _ = self.ld.field(X)
        M = fl["M"] + (f[1] + f[3]) / L * X - f[1]
        V = fl["V"] + (f[1] + f[3]) / L

        def cum(parts, g, extra=ZERO):
            """integral of g * flexibility from 0, piece by piece: {piece: expression}"""
            out, acc = [], ZERO
            for lo, hi, e in parts:
                F = alg.antideriv(g / e + extra, X)
                F = F - alg.subst(F, {X: lo}) + acc
                out.append((lo, hi, F))
                acc = alg.subst(F, {X: hi})
            return out, acc
        rot, _ = cum(self.EIp, M, self.kap)
        # second integral piece by piece
        dfl, acc = [], ZERO
        for lo, hi, R in rot:
            F = alg.antideriv(R, X)
            F = F - alg.subst(F, {X: lo}) + acc
            dfl.append((lo, hi, F))
            acc = alg.subst(F, {X: hi})
        sh, sacc = cum(self.GAp, -V) if self.GAp else ([(ZERO, L, ZERO)], ZERO)
        if r0 is None:
            r0 = (d[2] - d[0] - acc - sacc) / L
        at = lambda parts, u: next(F for lo, hi, F in parts if alg.sign(u - lo) in (0, 1, 0.5) and alg.sign(hi - u) in (0, 1, 0.5))

        def R(u):
            return at(rot, u) + r0

        def D(u):
            return d[0] + r0 * X + at(dfl, u) + at(sh, u)
        return dict(V=lambda u: V, M=lambda u: M, R=R, D=D)


def stepped_loads():
    """(load, position of the step): loads before, after and across the step"""
    w, w2, P, m = sym("w", None), sym("w2", None), sym("P", None), sym("m", None)
    a, b, c = (sym(n) for n in "abc")
    one = ONE
    S = (w2 - w) / (a + b)
    return [
        (mech.Load("udl", [one, const(1), w], [a, b], [(w, ZERO, 0)], ""), a),
        (mech.Load("point after the step", [one, const(2), P, a + b], [a, b, c], [(P, a + b, -1)], ""), a),
        (mech.Load("point before the step", [one, const(2), P, a], [a, b, c], [(P, a, -1)], ""), a + b),
        (mech.Load("point at the step", [one, const(2), P, a], [a, b], [(P, a, -1)], ""), a),
        (mech.Load("moment before the step", [one, const(4), m, a], [a, b, c], [(m, a, -2)], ""), a + b),
        (mech.Load("moment after the step", [one, const(4), m, a + b], [a, b, c], [(m, a + b, -2)], ""), a),
        (mech.Load("partial load across the step", [one, const(3), w, ZERO, a + b], [a, b, c], [(w, ZERO, 0), (-w, a + b, 0)], ""), a),
        (mech.Load("partial load to the end, across the step", [one, const(3), w, a, b + c], [a, b, c], [(w, a, 0)], ""), a + b),
        (mech.Load("trapezoid", [one, const(5), w, w2], [a, b], [(w, ZERO, 0), (S, ZERO, 1)], ""), a),
    ]


STEPPED = ("stepped EI", "stepped EI, uniform shear", "stepped shear", "stepped both")


def stepped_form(it, st, form, s, L):
    """(EI argument, GA argument, EI pieces, GA pieces)"""
    E1, E2, G1, G2, EI, GA = (sym(x) for x in ("E1", "E2", "G1", "G2", "EI", "GA"))
    ei, EIp, ga, GAp = EI, [(ZERO, L, EI)], None, []
    if form != "stepped shear":
        ei, EIp = usec(it, st, (s, E1), (L - s, E2)), [(ZERO, s, E1), (s, L, E2)]
    if form == "stepped EI, uniform shear":
        ga, GAp = GA, [(ZERO, L, GA)]
    elif form != "stepped EI":
        ga, GAp = usec(it, st, (s, G1), (L - s, G2)), [(ZERO, s, G1), (s, L, G2)]
    return ei, ga, EIp, GAp


def one_segment(it, st, form):
    """a variable section of a single constant segment as rigidity, shear rigidity or both"""
    EI, GA, L = sym("EI"), sym("GA"), sym("L")
    ei = EI if form == "one segment, shear" else usec(it, st, (L, EI))
    ga = None if form == "one segment" else usec(it, st, (L, GA))
    return ei, ga, [(ZERO, L, EI)], [] if ga is None else [(ZERO, L, GA)]


def curvature(n, L, ks=None):
    """imposed curvature of n coefficients: (load without terms, entry, polynomial)"""
    ks = ks or [sym(f"k{i}", None) for i in range(n)]
    kap = sum((k * Gen.X ** i for i, k in enumerate(ks)), ZERO)
    return mech.Load(f"curvature/order{n - 1}", [ONE, const(6)] + ks, [L], [], ""), kap


@prop("A04", floor=100, rule="Every member stiffness the package can produce (prismatic, shear-flexible, variable rigidity at its uniform limit) for every release pattern is symmetric, self-equilibrated (columns annihilate the two rigid-body motions), equals the static condensation of the fully fixed stiffness, and for zero shear flexibility equals the Euler-Bernoulli stiffness; the mesh kernels used by the vibration, foundation and plastic analyses agree with the member stiffness.")
def a04(cx):
    EI, GA, L = sym("EI"), sym("GA"), sym("L")
    site = cx.loc("beam.Beam.get_span_k")
    it0 = cx.interp()
    for form in ("prismatic", "shear-flexible", "variable", "variable-shear", "variable-EI-shear"):
        it = it0 if form in ("prismatic", "shear-flexible") else cx.interp(hooks=section_hooks(), tol0=True)
        for et in (1, 2, 3, 4):
            def go(form=form, et=et, it=it):
                st = State()
                ei, ga, phi = EI, None, ZERO
                if form in ("variable", "variable-EI-shear"):
                    ei = usec(it, st, (L, EI))
                if form == "variable-shear":
                    ga = usec(it, st, (L, GA))
                elif form in ("shear-flexible", "variable-EI-shear"):
                    ga = GA
                if ga is not None:
                    phi = const(12) * EI / (GA * L ** 2)
                b = beam_with(it, st, L, ei, et, None, ga)
                k = mat(st, it.meth(b, "get_span_k", st, ZERO))
                _, want = released(et, [ZERO] * 4, EI, L, phi, [ZERO] * 2)
                nm = f"{form}:{RELN[et]}"
                for i in range(4):
                    for j in range(4):
                        cx.eq("stiffness", f"{nm}:k[{i}{j}]", k[i][j], want[i][j], site)
            cx.guard("stiffness", f"{form}:{RELN[et]}", go, site)
    its = cx.interp(hooks=section_hooks(), tol0=True)
    ld, sa = stepped_loads()[0]
    for form in STEPPED:
        for et in (1, 2, 3, 4):
            def go(form=form, et=et):
                st = State()
                ei, ga, EIp, GAp = stepped_form(its, st, form, sa, ld.L)
                k = mat(st, its.meth(beam_with(its, st, ld.L, ei, et, None, ga), "get_span_k", st, ZERO))
                want = Gen(ld, EIp, GAp).stiffness(et)
                for i in range(4):
                    for j in range(4):
                        cx.eq("stiffness", f"{form}:{RELN[et]}:k[{i}{j}]", k[i][j], want[i][j], site)
            cx.guard("stiffness", f"{form}:{RELN[et]}", go, site)
