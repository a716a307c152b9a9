"""B: the load matrix, its editing functions, support and member-type vocabularies."""
from .elements import *  # noqa
from .elements import lm, parse, comps, want_comps
from sa.interp import Raised


def ints(*xs):
    return [const(x) for x in xs]


def lst(st, xs):
    return st.new(Lst([(TRUE, x) for x in xs]))


def rejects(cx, it, name, fn, site, rule="rejected"):
    """obligation: every path of fn ends in an exception; one on which some path
    raises under a condition the domain cannot decide is left undecided"""
    def go():
        st = State()
        n0 = len(it.events)
        try:
            fn(st)
        except Raised:
            return cx.ok(rule, name, "every path raises", site)
        if any(e[0] == "raise" for e in it.events[n0:]):
            return cx.und(rule, name, "raises under an undecided condition", site)
        cx.bad(rule, name, "accepted without an error", site)
    cx.guard(rule, name, go, site)


def LMv(st, entries):
    return lst(st, [lst(st, e) for e in entries])


def entries_of(st, v):
    c = st.cell(v)
    if not isinstance(c, Lst) or not c.concrete():
        raise Unsup(f"load matrix {v!r}")
    return c.values()


def base_ba(it, st, LMval=None, n=3, Ls=None):
    kw = dict(R=lst(st, [const(-1)] * (2 * n + 2)))
    if LMval is not None:
        kw["LM"] = LMval
    return it.new("analysis.BeamAnalysis", st, lst(st, Ls or [sym(f"L{i}") for i in range(n)]), lst(st, [sym(f"E{i}") for i in range(n)]), **kw)


def parsed(it, st, LMval):
    r, _ = it.analyze_call("load.parse_LM", [LMval], st=st)
    return entries_of(st, r)


def span_index(it, st, o):
    return as_num(it.getattr(o, "i_span", st))


def total_fixed(it, st, loads, span, L, EI=None):
    tot = dict(zip(COMP, [ZERO] * 4))
    for o in loads:
        i = span_index(it, st, o)
        if not i.is_const():
            raise Unsup("member index")
        if int(i.const()) != span:
            continue
        if EI is not None and "kappa" in st.cell(o).attrs:
            it.setattr(o, "EI", EI, st)
        c = comps(it, st, it.meth(o, "get_ref", st, L, const(1)))
        for k in COMP:
            tot[k] = tot[k] + as_num(c[k])
    return tot


def add_calls():
    """(name, load family, method, args) for every add method and documented form"""
    out = []
    F = {f.name: f for f in mech.families()}
    for nm, meth in (("udl", "add_udl"), ("point/interior", "add_pl"), ("pudl/interior", "add_pudl"), ("pudl/to-end", "add_pudl"),
                     ("moment/interior", "add_ml"), ("trap/full", "add_trap"), ("trap/interior", "add_trap")):
        out.append((nm, F[nm], meth, F[nm].entry[2:]))
    return out


@prop("B01", floor=50, rule="Each load-adding method leaves a load matrix whose parsed loads are exactly the previous loads plus one load with the documented fixed-end actions on the addressed member (1-based), none on any other member; the list passed by the caller is not changed; replacing the load matrix discards the previous loads; a load type outside the documented set and an incomplete trapezoid are rejected.")
def b01(cx):
    it = cx.interp()
    q = sym("q0", None)
    for nm, ld, meth, args in add_calls():
        for mem in (1, 2, 3):
            def go(nm=nm, ld=ld, meth=meth, args=args, mem=mem):
                st = State()
                site = cx.loc(f"analysis.BeamAnalysis.{meth}")
                user = LMv(st, [ints(1, 1) + [q]])
                ba = base_ba(it, st, user, Ls=[ld.L if i == mem - 1 else sym(f"L{i}") for i in range(3)])
                it.meth(ba, meth, st, const(mem), *args)
                LMnow = it.getattr(it.getattr(ba, "beam", st), "loads", st)
                loads = parsed(it, st, LMnow)
                for sp in range(3):
                    got = total_fixed(it, st, loads, sp, ld.L)
                    want = dict(zip(COMP, [ZERO] * 4))
                    if sp == mem - 1:
                        want = dict(ld.fixed())
                    if sp == 0:
                        w1 = mech.Load("u", None, ld.gaps, [(q, ZERO, 0)], "").fixed()
                        want = {k: want[k] + w1[k] for k in COMP}
                    want_comps(cx, "added-load", f"{meth}:{nm}:member{mem}:on{sp+1}", got, want, site)
                u = entries_of(st, user)
                (cx.ok if len(u) == 1 else cx.bad)("caller-list", f"{meth}:{nm}:member{mem}", f"caller's list has {len(u)} entries after the call (1 before)", site)
            cx.guard("added-load", f"{meth}:{nm}:member{mem}", go, cx.loc("analysis.BeamAnalysis"))

    # positions at the very ends of the addressed member, and beyond it
    P, L = sym("P", None), sym("L")
    ends = [("point/at-start", "add_pl", [P, ZERO], dict(Va=P, Ma=ZERO, Vb=ZERO, Mb=ZERO)),
            ("point/at-end", "add_pl", [P, L], dict(Va=ZERO, Ma=ZERO, Vb=P, Mb=ZERO)),
            ("moment/at-start", "add_ml", [P, ZERO], dict(Va=ZERO, Ma=-P, Vb=ZERO, Mb=ZERO)),
            ("moment/at-end", "add_ml", [P, L], dict(Va=ZERO, Ma=ZERO, Vb=ZERO, Mb=-P))]
    for f in mech.families() + mech.offspan():
        if f.name == "pudl/full" or f.name.startswith("pudl/") and f in mech.offspan():
            ends.append((f.name, "add_pudl", list(f.entry[2:]), f))
    for tag, f in (("udl/zero", ZERO),):
        ends.append((tag, "add_udl", [f], dict.fromkeys(COMP, ZERO)))
    for nm, meth, args, want in ends:
        for mem in (1, 2, 3):
            def at_end(nm=nm, meth=meth, args=args, want=want, mem=mem):
                st = State()
                site = cx.loc(f"analysis.BeamAnalysis.{meth}")
                Lm = L if isinstance(want, dict) else want.L
                w = want if isinstance(want, dict) else want.fixed()
                ba = base_ba(it, st, Ls=[Lm if i == mem - 1 else sym(f"L{i}") for i in range(3)])
                it.meth(ba, meth, st, const(mem), *args)
                loads = parsed(it, st, it.getattr(it.getattr(ba, "beam", st), "loads", st))
                for sp in range(3):
                    want_comps(cx, "added-load", f"{meth}:{nm}:member{mem}:on{sp+1}", total_fixed(it, st, loads, sp, Lm if sp == mem - 1 else sym(f"L{sp}")), w if sp == mem - 1 else dict.fromkeys(COMP, ZERO), site)
            cx.guard("added-load", f"{meth}:{nm}:member{mem}", at_end, cx.loc("analysis.BeamAnalysis"))

    def curv(scalar, zeros=()):
        st = State()
        site = cx.loc("analysis.BeamAnalysis.add_ic")
        sg = "+" if zeros else None      # the coefficients that are not zero
        n = "kp" if zeros else "k"
        ks = [sym(f"{n}0", sg)] + ([] if scalar else [sym(f"{n}1", sg), sym(f"{n}2", sg)][:2 if zeros else 1])
        for z in zeros:
            ks[z] = ZERO
        ba = base_ba(it, st)
        it.meth(ba, "add_ic", st, const(2), ks[0] if scalar else lst(st, ks))
        loads = parsed(it, st, it.getattr(it.getattr(ba, "beam", st), "loads", st))
        L, EI = sym("L"), sym("EI")
        got = total_fixed(it, st, loads, 1, L, EI)
        ti = tj = ZERO
        for i, k in enumerate(ks):
            i0, i1 = k * L ** (i + 1) / const(i + 1), k * L ** (i + 1) / const(i + 2)
            ti, tj = ti + i0 - i1, tj - i1
        Ma, Mb = EI / L * (const(4) * ti + const(2) * tj), EI / L * (const(2) * ti + const(4) * tj)
        want_comps(cx, "added-load", f"add_ic:{'scalar' if scalar else 'polynomial'}{''.join(f':k{z}=0' for z in zeros)}", got, dict(Va=(Ma + Mb) / L, Ma=Ma, Vb=-(Ma + Mb) / L, Mb=Mb), site)
    for s, z in ((True, ()), (False, ()), (True, (0,)), (False, (0,)), (False, (1,)), (False, (2,)), (False, (0, 1)), (False, (0, 2)), (False, (1, 2)), (False, (0, 1, 2))):
        cx.guard("added-load", f"add_ic:{s}:{z}", lambda s=s, z=z: curv(s, z))

    def replace():
        st = State()
        ba = base_ba(it, st, LMv(st, [ints(1, 1) + [q]]))
        w = sym("w", None)
        it.meth(ba, "set_loads", st, LMv(st, [ints(2, 1) + [w]]))
        loads = parsed(it, st, it.getattr(it.getattr(ba, "beam", st), "loads", st))
        L = sym("L")
        for sp, k in ((0, ZERO), (1, w), (2, ZERO)):
            want_comps(cx, "replaced-loads", f"set_loads:on{sp+1}", total_fixed(it, st, loads, sp, L), mech.Load("u", None, [L], [(k, ZERO, 0)], "").fixed(), cx.loc("analysis.BeamAnalysis.set_loads"))
    cx.guard("replaced-loads", "set_loads", replace)

    def rejected(name, fn, site):
        rejects(cx, it, name, fn, site)
    for t in (0, 7, 9):
        rejected(f"load type {t}", lambda st, t=t: it.analyze_call("load.parse_LM", [LMv(st, [ints(1, t) + [q, sym("a"), sym("c")]])], st=st), cx.loc("load.parse_LM"))
    a, c, w1, w2 = sym("a"), sym("c"), sym("w", None), sym("w2", None)
    rejected("trapezoid start without cover", lambda st: it.meth(base_ba(it, st), "add_trap", st, const(1), w1, w2, a=a), cx.loc("analysis.BeamAnalysis.add_trap"))
    rejected("trapezoid cover without start", lambda st: it.meth(base_ba(it, st), "add_trap", st, const(1), w1, w2, c=c), cx.loc("analysis.BeamAnalysis.add_trap"))


@prop("B02", floor=60, rule="Factoring a load matrix multiplies the fixed-end actions of every load by the factor (positions, extents and member unchanged), superposing two load matrices adds them, and neither changes its inputs.")
def b02(cx):
    it = cx.interp()
    g = sym("gamma", None)
    s1, s2 = cx.loc("load.factor_LM"), cx.loc("load.add_LM")
    gp = sym("g")
    for tag, gv in (("positive", gp), ("negative", -gp), ("one", ONE), ("zero", ZERO)):
        for ld in mech.families(deep=True):
            def signed(ld=ld, tag=tag, gv=gv):
                st = State()
                user = LMv(st, [[const(2)] + list(ld.entry[1:])])
                r, _ = it.analyze_call("load.factor_LM", [user, gv], st=st)
                want = ld.fixed()
                want_comps(cx, "factored", f"{ld.name}:{tag}", total_fixed(it, st, parsed(it, st, r), 1, ld.L), {k: gv * want[k] for k in COMP}, s1)
            cx.guard("factored", f"{ld.name}:{tag}", signed, s1)
    for ld in mech.families():
        def go(ld=ld):
            st = State()
            e = [const(2)] + list(ld.entry[1:])
            user = LMv(st, [e])
            r, _ = it.analyze_call("load.factor_LM", [user, g], st=st)
            loads = parsed(it, st, r)
            want = ld.fixed()
            want_comps(cx, "factored", ld.name, total_fixed(it, st, loads, 1, ld.L), {k: g * want[k] for k in COMP}, s1)
            cx.eq("factored-count", ld.name, const(len(loads)), ONE, s1)
            back = entries_of(st, entries_of(st, user)[0])
            for i, (x, y) in enumerate(zip(back, e)):
                cx.eq("input-unchanged", f"factor:{ld.name}:[{i}]", x, y, s1)
            q = sym("q0", None)
            other = LMv(st, [ints(2, 1) + [q], ints(1, 1) + [q]])
            for tag, (p1, p2) in (("ab", (user, other)), ("ba", (other, user))):
                r, _ = it.analyze_call("load.add_LM", [p1, p2], st=st)
                loads = parsed(it, st, r)
                w1 = mech.Load("u", None, ld.gaps, [(q, ZERO, 0)], "").fixed()
                want_comps(cx, "superposed", f"{ld.name}:{tag}:on2", total_fixed(it, st, loads, 1, ld.L), {k: want[k] + w1[k] for k in COMP}, s2)
                want_comps(cx, "superposed", f"{ld.name}:{tag}:on1", total_fixed(it, st, loads, 0, ld.L), w1, s2)
                for v, n in ((user, 1), (other, 2)):
                    if len(entries_of(st, v)) != n:
                        cx.bad("input-unchanged", f"add:{ld.name}:{tag}", "an operand changed length", s2)
                    else:
                        cx.ok("input-unchanged", f"add:{ld.name}:{tag}:{n}", "", s2)
        cx.guard("factored", ld.name, go, s1)

    def curv():
        st = State()
        ks = [sym("k0", None), sym("k1", None)]
        r, _ = it.analyze_call("load.factor_LM", [LMv(st, [ints(1, 6) + ks]), g], st=st)
        L, EI = sym("L"), sym("EI")
        got = total_fixed(it, st, parsed(it, st, r), 0, L, EI)
        st2 = State()
        ref = total_fixed(it, st2, parsed(it, st2, LMv(st2, [ints(1, 6) + ks])), 0, L, EI)
        want_comps(cx, "factored", "curvature", got, {k: g * ref[k] for k in COMP}, s1)
    cx.guard("factored", "curvature", curv, s1)


NAMES = {"p": (-1, 0), "pin": (-1, 0), "pinned": (-1, 0), "r": (-1, 0), "roller": (-1, 0), "e": (-1, -1), "encastre": (-1, -1),
         "fixed": (-1, -1), "clamped": (-1, -1), "f": (0, 0), "free": (0, 0)}


@prop("B03", floor=60, rule="Every documented support name (any letter case) and raw pair lowers to its documented freedoms, in node order, giving the same restraint vector as the explicit form; every member-type name, code and enumeration member denotes the same release pattern; member-wise rigidity, shear rigidity and release arguments reach the member of the same index whether given as one value or one per member; unknown names, hinges and wrong counts are rejected; beam strings lower to the spans, supports and releases they spell; global positions map to the span that holds them.")
def b03(cx):
    it = cx.interp()
    site = cx.loc("utils.supports_to_R")

    def pair(st, ba):
        b = it.getattr(ba, "beam", st)
        r = it.getattr(b, "restraints", st)
        c = st.cell(r)
        if isinstance(c, Arr):
            return [as_num(x) for x in c.data]
        return [as_num(x) for x in entries_of(st, r)]

    def beam(st, sup, L=None, **kw):
        n = len(sup) - 1
        return it.new("analysis.BeamAnalysis", st, lst(st, [sym(f"L{i}") for i in range(n)]), lst(st, [sym(f"E{i}") for i in range(n)]), supports=lst(st, sup), **kw)
    for nm, want in NAMES.items():
        for v in (nm, nm.upper(), nm.capitalize()):
            def go(v=v, want=want):
                st = State()
                s, k = sym("s"), sym("kr")
                got = pair(st, beam(st, [K("e"), K(v), lst(st, [s, k])]))
                full = [const(-1)] * 2 + [const(x) for x in want] + [s, k]
                if len(got) != 6:
                    return cx.bad("support-name", v, f"{len(got)} freedoms for 3 nodes", site)
                for i, (x, y) in enumerate(zip(got, full)):
                    cx.eq("support-name", f"{v}:dof{i}", x, y, site)
            cx.guard("support-name", v, go, site)

    def rejected(name, fn):
        rejects(cx, it, name, fn, site)
    rejected("unknown support name", lambda st: beam(st, [K("p"), K("zz")]))
    near = ["", " "]
    for nm in NAMES:
        near += [nm + "s", nm + "x", "x" + nm, nm + nm, nm[:-1], nm[1:], nm + "_", nm + "0"]
    for v in dict.fromkeys(near):
        if v not in NAMES and v.strip() not in NAMES:
            rejected(f"support name {v!r}", lambda st, v=v: beam(st, [K("p"), K(v)]))
    rejected("hinge as support", lambda st: beam(st, [K("p"), K("h"), K("r")]))
    rejected("three-entry support", lambda st: beam(st, [K("p"), lst(st, ints(-1, 0, 0))]))
    rejected("too few supports", lambda st: it.new("analysis.BeamAnalysis", st, lst(st, [sym("L0"), sym("L1")]), lst(st, [sym("E0"), sym("E1")]), supports=lst(st, [K("p"), K("r")])))
    rejected("both R and supports", lambda st: it.new("analysis.BeamAnalysis", st, lst(st, [sym("L0")]), lst(st, [sym("E0")]), lst(st, [const(-1)] * 4), supports=lst(st, [K("p"), K("r")])))
    rejected("short R", lambda st: it.new("analysis.BeamAnalysis", st, lst(st, [sym("L0"), sym("L1")]), lst(st, [sym("E0"), sym("E1")]), lst(st, [const(-1)] * 4)))
    rejected("D of wrong length", lambda st: it.new("analysis.BeamAnalysis", st, lst(st, [sym("L0")]), lst(st, [sym("E0")]), lst(st, [const(-1)] * 4), D=lst(st, [NONE] * 3)))

    # one value per member: the wrong number of values is an error, never a shorter or longer beam
    two = lambda st, **kw: it.new("analysis.BeamAnalysis", st, lst(st, [sym("L0"), sym("L1")]), **{"EI": lst(st, [sym("E0"), sym("E1")]), "R": lst(st, [const(-1)] * 6), **kw})
    for nm, arg in (("EI", "EI"), ("GAv", "GAv"), ("kf", "kf"), ("member types", "eletype")):
        for lab, k in (("no", 0), ("one", 1), ("three", 3)):
            rejected(f"{lab} {nm} for two members", lambda st, arg=arg, k=k: two(st, **{arg: lst(st, [ONE] * k)}))
    rejected("no supports at all", lambda st: two(st, R=NONE))
    built(cx, it)

    # member types
    ks = cx.loc("beam.Beam.get_span_k")
    L, EI = [sym("L0"), sym("L1")], [sym("E0"), sym("E1")]
    enum = lambda st, n: it.npm.getitem(it_cls(it, "types.MemberType"), K(n), st)
    for code, nm in RELN.items():
        for lab, mk in ((f"code {code}", lambda st: const(code)), (f"name {nm}", lambda st: K(nm)), (f"name {nm.lower()}", lambda st: K(nm.lower())), (f"enum {nm}", lambda st: enum(st, nm))):
            def go(lab=lab, mk=mk, code=code, nm=nm):
                st = State()
                ba = it.new("analysis.BeamAnalysis", st, lst(st, L), lst(st, EI), lst(st, [const(-1)] * 6), eletype=lst(st, [const(1), mk(st)]))
                b = it.getattr(ba, "beam", st)
                for i, e in ((0, 1), (1, code)):
                    k = mat(st, it.meth(b, "get_span_k", st, const(i)))
                    _, want = released(e, [ZERO] * 4, EI[i], L[i], ZERO, [ZERO] * 2)
                    for a in range(4):
                        cx.eq("member-type", f"{lab}:member{i+1}:k[{a}{a}]", k[a][a], want[a][a], ks)
            cx.guard("member-type", lab, go, ks)
    def typed(st, v):
        ba = it.new("analysis.BeamAnalysis", st, lst(st, L), lst(st, EI), lst(st, [const(-1)] * 6), eletype=lst(st, [const(1), v]))
        b = it.getattr(ba, "beam", st)
        return it.meth(b, "get_span_k", st, const(1))
    for v in ("", "F", "P", "FFF", "FFP", "PFP", "XF", "FX", "PPP", "PFF"):
        rejected(f"member type {v!r}", lambda st, v=v: typed(st, K(v)))
    for v in (0, 5, -1, 12):
        rejected(f"member type {v}", lambda st, v=v: typed(st, const(v)))
    # broadcasting
    GA = [sym("G0"), sym("G1")]
    for lab, ei, ga in (("one EI", "s", None), ("EI per member", "v", None), ("one GAv", "v", "s"), ("GAv per member", "v", "v"), ("GAv on one member", "v", "m")):
        def go(lab=lab, ei=ei, ga=ga):
            st = State()
            kw = {}
            if ga == "s":
                kw["GAv"] = GA[0]
            elif ga == "v":
                kw["GAv"] = lst(st, GA)
            elif ga == "m":
                kw["GAv"] = lst(st, [NONE, GA[1]])
            ba = it.new("analysis.BeamAnalysis", st, lst(st, L), EI[0] if ei == "s" else lst(st, EI), lst(st, [const(-1)] * 6), **kw)
            b = it.getattr(ba, "beam", st)
            for i in range(2):
                e = EI[0] if ei == "s" else EI[i]
                g = {None: None, "s": GA[0], "v": GA[i], "m": GA[1] if i else None}[ga]
                phi = const(12) * e / (g * L[i] ** 2) if g is not None else ZERO
                k = mat(st, it.meth(b, "get_span_k", st, const(i)))
                want = kref(e, L[i], phi)
                for a, c in ((0, 0), (1, 1), (1, 3), (0, 3)):
                    cx.eq("broadcast", f"{lab}:member{i+1}:k[{a}{c}]", k[a][c], want[a][c], ks)
        cx.guard("broadcast", lab, go, ks)


    beam_strings(cx, it, rejected)
    local_coords(cx, it)


def built(cx, it):
    """a beam put together span by span is the beam described at once"""
    site = cx.loc("beam.Beam.add_span")

    def go(order):
        st = State()
        Ls, Es, G, kf = [sym(f"L{i}") for i in range(4)], [sym(f"E{i}") for i in range(4)], sym("G1"), sym("kf")
        spec = [(1, {}), (2, dict(GAv=G)), (3, {}), (1, dict(kf=kf))]
        b = it.new("beam.Beam", st)
        for i, (code, kw) in enumerate(spec):
            tv = {"code": const(code), "name": K(RELN[code]), "enum": it.npm.getitem(it_cls(it, "types.MemberType"), K(RELN[code]), st)}[order[1]]
            pos = [Ls[i], Es[i], tv]
            if order[0] == "add_member":
                it.meth(b, "add_member", st, *pos, **kw)
            else:
                it.meth(b, "add_span", st, *pos, **kw)
        name = "/".join(order)
        for att, want in (("no_members", const(4)), ("no_spans", const(4)), ("length", Ls[0] + Ls[1] + Ls[2] + Ls[3])):
            cx.eq("built by spans", f"{name}:{att}", as_num(it.getattr(b, att, st)), want, site)
        for i, (code, kw) in enumerate(spec[:3]):
            phi = const(12) * Es[i] / (G * Ls[i] ** 2) if "GAv" in kw else ZERO
            k = mat(st, it.meth(b, "get_span_k", st, const(i)))
            _, want = released(code, [ZERO] * 4, Es[i], Ls[i], phi, [ZERO] * 2)
            for a in range(4):
                for c in range(4):
                    cx.eq("built by spans", f"{name}:member{i + 1}:k[{a}{c}]", k[a][c], want[a][c], site)
        ks = entries_of(st, it.getattr(b, "mbr_kf", st))
        for i in range(4):
            if i < 3:
                (cx.ok if ks[i] is NONE or isinstance(ks[i], K) and ks[i].v is None else cx.bad)("built by spans", f"{name}:member{i + 1} has no foundation", repr(ks[i])[:80], site)
            else:
                cx.eq("built by spans", f"{name}:member4 foundation", as_num(ks[i]), kf, site)
    for m in ("add_span", "add_member"):
        for form in ("code", "name", "enum"):
            cx.guard("built by spans", f"{m}/{form}", lambda m=m, form=form: go((m, form)), site)

    def support_counts():
        st = State()
        s, k = sym("s"), sym("kr")
        b = it.getattr(it.new("analysis.BeamAnalysis", st, lst(st, [sym("L0"), sym("L1")]), lst(st, [sym("E0"), sym("E1")]), lst(st, [const(-1), const(-1), s, const(0), const(-1), k])), "beam", st)
        cx.eq("restraint counts", "all", as_num(it.getattr(b, "no_restraints", st)), const(6), site)
        cx.eq("restraint counts", "fixed", as_num(it.getattr(b, "no_fixed_restraints", st)), const(3), site)
    cx.guard("restraint counts", "spring and fixed", support_counts, site)


# (beam string, span lengths); terminals are read off the string itself
STRINGS = (("P40R20R", (40, 20)), ("E20H30R10F", (20, 30, 10)), ("E30R30H30R30E", (30,) * 4), ("P10F", (10,)), ("F5R5F", (5, 5)),
           ("E6R6H6R6R", (6,) * 4), ("e7.5p2.25r", ("7.5", "2.25")), ("F3.5P12R4e", ("3.5", 12, 4)), ("E4H5H6E", (4, 5, 6)),
           ("R10R20P30R40R50R", (10, 20, 30, 40, 50)), ("F2R8H9r11H3r1F", (2, 8, 9, 11, 3, 1)), ("P100000R0.125E", (100000, "0.125")),
           ("R3E", (3,)), ("E3F", (3,)), ("E3E", (3,)), ("F3E", (3,)), ("P5R5H5E", (5, 5, 5)))
BAD_STRINGS = ("", "10", "P", "P40", "40R", "H40R", "R40H", "E10H", "H5R5R", "h4r4r", "P10F10R", "P10E10R", "P10R10F10R", "P10F10R10R", "P10E10R10R",
               "P10R10E10R", "p10r10r10f10r", "p10r10r10e10r", "P1R2E3R4R5R", "P1R2R3R4E5R", "PR", "P10RR", "PP10R")
RELEASED = {1: (0, 0), 2: (0, 1), 3: (1, 0), 4: (1, 1)}


def beam_strings(cx, it, rejected):
    site = cx.loc("utils.parse_beam_string")
    from fractions import Fraction

    def vec(st, v):
        c = st.cell(v)
        if isinstance(c, Arr):
            return [as_num(x) for x in c.data]
        if isinstance(v, Tup):
            return [as_num(x) for x in v.items]
        return [as_num(x) for x in entries_of(st, v)]
    for text, spans in STRINGS:
        def go(text=text, spans=spans):
            st = State()
            r, _ = it.analyze_call("utils.parse_beam_string", [K(text)], st=st)
            if not isinstance(r, Tup) or len(r.items) != 4:
                raise Unsup(f"beam string gives {r!r}")
            Lv, Ev, Rv, Tv = [vec(st, x) for x in r.items]
            terms = [ch for ch in text.lower() if ch in "efhpr"]
            n = len(spans)
            for nm, xs, k in (("span lengths", Lv, n), ("rigidities", Ev, n), ("restraints", Rv, 2 * n + 2), ("member types", Tv, n)):
                if len(xs) != k:
                    return cx.bad("beam-string", f"{text}:{nm}", f"{len(xs)} values for {n} spans", site)
            for i, w in enumerate(spans):
                cx.eq("beam-string", f"{text}:L{i + 1}", Lv[i], const(Fraction(w)), site)
                cx.eq("beam-string", f"{text}:EI{i + 1} is that of span 1", Ev[i], Ev[0], site)
            for j, t in enumerate(terms):
                want = (0, 0) if t == "h" else NAMES[t]
                for k in (0, 1):
                    cx.eq("beam-string", f"{text}:node{j + 1}:dof{k}", Rv[2 * j + k], const(want[k]), site)
            if not all(x.is_const() and int(x.const()) in RELEASED for x in Tv):
                raise Unsup("member types")
            rel = [RELEASED[int(x.const())] for x in Tv]
            for j in range(n + 1):
                ends = (rel[j - 1][1] if j else 0) + (rel[j][0] if j < n else 0)
                want = 1 if terms[j] == "h" else 0
                if ends == want:
                    cx.ok("beam-string", f"{text}:node{j + 1} releases", want, site)
                else:
                    cx.bad("beam-string", f"{text}:node{j + 1} releases", f"{ends} member ends released at terminal {terms[j].upper()!r}, {want} wanted", site)
        cx.guard("beam-string", text, go, site)
    for text in BAD_STRINGS:
        rejects(cx, it, f"beam string {text!r}", lambda st, text=text: it.call(FnV(it.prog.func("utils.parse_beam_string")), [K(text)], {}, st), site)


def local_coords(cx, it):
    """global position -> (span, position in that span); off the beam -> (-1, 0)"""
    site = cx.loc("beam.Beam.get_local_span_coords")
    from fractions import Fraction
    Ls = (4, 7, Fraction(5, 2))
    cum = [0, 4, 11, Fraction(27, 2)]

    def at(name, x, span, off):
        def go():
            st = State()
            ba = base_ba(it, st, Ls=[const(v) for v in Ls])
            r = it.meth(it.getattr(ba, "beam", st), "get_local_span_coords", st, const(x))
            if not isinstance(r, Tup) or len(r.items) != 2:
                raise Unsup(f"{r!r}")
            cx.eq("global-position", f"{name}:span", as_num(r.items[0]), const(span), site)
            cx.eq("global-position", f"{name}:local", as_num(r.items[1]), const(off), site)
        cx.guard("global-position", name, go, site)
    for i in range(3):
        at(f"start of span {i + 1}", cum[i], i, 0)
        for f in (Fraction(1, 100), Fraction(1, 2), Fraction(99, 100)):
            at(f"span {i + 1} at {f}", cum[i] + Ls[i] * f, i, Ls[i] * f)
    at("end of the beam", cum[3], 2, Ls[2])
    for x in (Fraction(-1, 1000), Fraction(-1, 2), -1, -4, -100, cum[3] + Fraction(1, 1000), 14, 100):
        at(f"off the beam at {x}", x, -1, 0)


def it_cls(it, dotted):
    return ClsV(it.prog.cls(dotted))
