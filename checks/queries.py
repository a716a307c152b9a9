"""C03: asking, drawing and exporting change nothing."""
from .plots import *  # noqa
from .plots import analysed, nresult, truck, deck, env_like, result_set, data, arr
from .loads import lst, LMv, ints
from .history import EigLog


def series(cv, i, j):
    """the part of the drawing log between two moments, axes numbered from zero"""
    base = {}
    out = []
    for m in cv.log[i:j]:
        if m.kind in ("set_xlim", "set_ylim"):
            continue      # the limits read back from the figure are the drawing library's
        k = None if m.axes is None else base.setdefault(m.axes, len(base))
        out.append((k, m.kind, m.args, m.pc))
    return out


def flat(v):
    if isinstance(v, (list, tuple)):
        r = []
        for x in v:
            r += flat(x)
        return r
    return [v]


def same_drawing(a, b):
    if len(a) != len(b):
        return "bad", f"{len(a)} marks the first time, {len(b)} the second"
    worst = "ok"
    for p, q in zip(a, b):
        if p[:2] != q[:2]:
            return "bad", f"{p[:2]} the first time, {q[:2]} the second"
        x, y = flat(p[2]), flat(q[2])
        if len(x) != len(y):
            return "bad", f"{p[1]}: {len(x)} values the first time, {len(y)} the second"
        for u, v in zip(x, y):
            if isinstance(u, Poly) and isinstance(v, Poly):
                s, m = compare(v, u)
                if s == "bad":
                    return "bad", f"{p[1]}: {m}"
            elif isinstance(u, K) and isinstance(v, K) and u != v:
                return "bad", f"{p[1]}: {u!r} the first time, {v!r} the second"
    return worst, ""


def same_value(st1, v1, st2, v2):
    d = heap.diff(st1, v1, st2, v2)
    bad = [x for x in d if x[1] == "bad"]
    return ("bad", "; ".join(f"{p or 'value'}: {a} -> {b}" for p, _, a, b in bad)[:500]) if bad else ("ok", "")


def ask(cx, nm, it, st, cv, roots, call, site, skip=()):
    """make the call twice: nothing reachable from the roots changes and the second answer is the first"""
    rule = "nothing changes"
    pre = heap.snapshot(st, None)
    n0 = len(cv.log) if cv else 0
    r1 = call(it, st)
    n1 = len(cv.log) if cv else 0
    mid = heap.snapshot(st, None)
    for rn, r in roots.items():
        heap.unchanged(cx, rule, f"{nm}: {rn}", pre, r, st, r, site, skip=skip)
    r2 = call(it, st)
    n2 = len(cv.log) if cv else 0
    for rn, r in roots.items():
        heap.unchanged(cx, rule, f"{nm} again: {rn}", pre, r, st, r, site, skip=skip)
    if r1 is None or r1 is NONE:
        s, m = "ok", ""
    else:
        s, m = same_value(mid, r1, st, r2)
    (cx.ok if s == "ok" else cx.bad)("the same answer twice", nm, m, site)
    if r1 is not None and isinstance(r1, Ref):
        # the answer given first is not changed by giving it again
        s, m = same_value(mid, r1, st, r1)
        (cx.ok if s == "ok" else cx.bad)("an answer stays as given", nm, m, site)
    if cv:
        s, m = same_drawing(series(cv, n0, n1), series(cv, n1, n2))
        (cx.ok if s == "ok" else cx.bad)("the same drawing twice", nm, m or f"{n1 - n0} marks", site)


@prop("C03", floor=150, rule="Queries, plots and exports, on analyses, beams, results, envelopes, bridge analyses, influence lines, load cases, plastic and modal results and sections, leave every reachable part of the model, the results and the arguments structurally as it was, and asked again they give the same answer and the same drawing.")
def c03(cx):
    F_ = alg.FALSE
    calls = {
        "plot_results": ("plot_results", (), dict(show=F_)), "plot_results, bare": ("plot_results", (), dict(show=F_, show_beam=F_, show_reactions=F_)),
        "plot_results, plotly": ("plot_results", (), dict(backend=K("plotly"))), "plot_results, other units": ("plot_results", (), dict(show=F_, units=K("US-ft"))),
        "plot_bmd": ("plot_bmd", (), {}), "plot_sfd": ("plot_sfd", (), dict(units=K("none"))), "plot_dsd": ("plot_dsd", (), dict(units=K("US-ft"))), "plot_dsd, plotly": ("plot_dsd", (), dict(backend=K("plotly"))),
        "plot_reactions": ("plot_reactions", (), dict(show=F_)), "plot_beam": ("plot_beam", (), {}), "plot_beam, tikz": ("plot_beam", (), dict(tikz=TRUE)),
        "at": ("at", (const(3) * sym("L0") / const(4),), {}), "at, second span": ("at", (sym("L0") + sym("L1") / const(5),), {}),
        "to_dataframe": ("to_dataframe", (), {}), "to_csv": ("to_csv", (K("x.csv"),), {}), "is_stable": ("is_stable", (), {}), "repr": ("__repr__", (), {})}
    for nm, (m, a, kw) in calls.items():
        def go(nm=nm, m=m, a=a, kw=kw):
            it, st, cv, ba = analysed(cx, True)
            EigLog(it, lambda k: True)
            roots = {"analysis": ba, "results": it.getattr(ba, "beam_results", st)}
            ask(cx, nm, it, st, cv, roots, lambda it, st: it.meth(ba, m, st, *a, **kw), cx.loc(f"{BA}.{m}"))
        cx.guard("nothing changes", nm, go, cx.loc(f"{BA}.{m}"))

    # results object and beam
    for nm, m, a in (("results.at", "at", (sym("L0") / const(4),)), ("deflection_curve", "deflection_curve", ()), ("results.to_dataframe", "to_dataframe", ())):
        def go(nm=nm, m=m, a=a):
            it, st, cv, ba = analysed(cx, True)
            br = it.getattr(ba, "beam_results", st)
            ask(cx, nm, it, st, cv, {"analysis": ba, "results": br}, lambda it, st: it.meth(br, m, st, *a), cx.loc(f"results.BeamResults.{m}"))
        cx.guard("nothing changes", nm, go, cx.loc(f"results.BeamResults.{m}"))
    for nm, m, a in (("beam.plot", "plot", ()), ("beam.to_tikz", "to_tikz", ()), ("get_local_span_coords", "get_local_span_coords", (sym("L0") / const(3),)), ("get_span_k", "get_span_k", (ZERO,)), ("get_ref", "get_ref", (const(1),)), ("beam repr", "__repr__", ())):
        def go(nm=nm, m=m, a=a):
            it, st, cv, ba = analysed(cx, True)
            b = it.getattr(ba, "beam", st)
            ask(cx, nm, it, st, cv, {"analysis": ba}, lambda it, st: it.meth(b, m, st, *a), cx.loc(f"beam.Beam.{m}"))
        cx.guard("nothing changes", nm, go, cx.loc(f"beam.Beam.{m}"))
    for nm, attr in (("loads", "loads"), ("restraints", "restraints"), ("prescribed displacements", "prescribed_displacements"), ("length", "length"), ("number of restraints", "no_restraints"), ("number of members", "no_members")):
        def go(nm=nm, attr=attr):
            it, st, cv, ba = analysed(cx, True)
            b = it.getattr(ba, "beam", st)
            ask(cx, f"beam.{attr}", it, st, cv, {"analysis": ba}, lambda it, st: it.getattr(b, attr, st), cx.loc("beam.Beam"))
        cx.guard("nothing changes", f"beam.{attr}", go, cx.loc("beam.Beam"))

    # envelopes
    h = sym("h")
    for nm, m, a, kw in (("envelope plot", "plot", (), {}), ("envelope plot, plotly", "plot", (), dict(backend=K("plotly"))), ("plot_coincidents", "plot_coincidents", (), dict(show=F_)), ("envelope at", "at", (sym("dx0") / const(2),), {}),
                         ("envelope to_dataframe", "to_dataframe", (), {}), ("per_span", "per_span", (None,), {}), ("zero_like", "zero_like", (None,), {}), ("sum", "__add__", (None,), {}), ("join", "__or__", (None,), {})):
        def go(nm=nm, m=m, a=a, kw=kw):
            it, st = cx.interp(tol0=True), State()
            cv = Canvas(it, True)
            e1, e2 = env_like(it, st, "p", 3, 2), env_like(it, st, "q", 3, 2)
            if m == "per_span":
                ba = deck(it, st, [ZERO, sym("dx0"), sym("dx0") + sym("dx1")])
                b = it.getattr(ba, "beam", st)
                args = [b] if True else []
            elif m == "zero_like":
                args = [e2]
            else:
                args = [e2 if x is None else x for x in a]
            ask(cx, nm, it, st, cv, {"envelope": e1, "other envelope": e2}, lambda it, st: it.meth(e1, m, st, *args, **kw), cx.loc(f"results.Envelopes.{m}"))
        cx.guard("nothing changes", nm, go, cx.loc(f"results.Envelopes.{m}"))

    # plastic, modal, section, vehicle, tendon figures
    for m, kw in (("plot_moments", dict(Mp=sym("Mp"))), ("plot_hinge_history", {}), ("plot_beam_state", {}), ("plot_collapse", {})):
        def go(m=m, kw=kw):
            it, st = cx.interp(tol0=True), State()
            cv = Canvas(it, True)
            r = nresult(it, st)[0]
            ask(cx, m, it, st, cv, {"result": r}, lambda it, st: it.meth(r, m, st, **kw), cx.loc(f"nonlinear.NonlinearResult.{m}"))
        cx.guard("nothing changes", m, go, cx.loc(f"nonlinear.NonlinearResult.{m}"))
    for m, a in (("mode_shape", (const(1),)), ("plot_modes", (const(1),)), ("plot_modes", ())):
        def go(m=m, a=a):
            it, st = cx.interp(tol0=True), State()
            cv = Canvas(it, True)
            u = sym("u")
            phi = [(u * const((3, -7, 2)[r // 2] * (-1) ** c * (c + 1)) if r % 2 == 0 else sym(f"t{r}{c}", None)) for r in range(6) for c in range(2)]
            r = it.new("modal.ModalResults", st, arr(st, [const(1), const(4)]), st.new(Arr((6, 2), phi)), arr(st, [ZERO, h, const(2) * h]))
            ask(cx, f"{m}{'' if a else ' default'}", it, st, cv, {"modes": r}, lambda it, st: it.meth(r, m, st, *a), cx.loc(f"modal.ModalResults.{m}"))
        cx.guard("nothing changes", m, go, cx.loc(f"modal.ModalResults.{m}"))
    for m, a, kw in (("__call__", (const(3),), {}), ("plot", (), dict(n=const(6))), ("validate_length", (const(8),), {}), ("__repr__", (), {})):
        def go(m=m, a=a, kw=kw):
            it, st = cx.interp(tol0=True), State()
            cv = Canvas(it, True)
            s = it.new("section.SectionEI", st)
            it.meth(s, "add_segment", st, K("const"), lst(st, [ZERO, const(2)]), sym("Ea"))
            it.meth(s, "add_segment", st, K("linear"), lst(st, [const(2), const(8)]), lst(st, [sym("Ea"), sym("Ea") + sym("Eb")]))
            ask(cx, f"section {m}", it, st, cv, {"section": s}, lambda it, st: it.meth(s, m, st, *a, **kw), cx.loc(f"section.SectionEI.{m}"))
        cx.guard("nothing changes", f"section {m}", go, cx.loc(f"section.SectionEI.{m}"))

    def veh():
        it, st = cx.interp(tol0=True), State()
        cv = Canvas(it, True)
        v = truck(it, st, [const(3), const(6)], [const(10), const(25), const(5)])
        ask(cx, "vehicle plot", it, st, cv, {"vehicle": v}, lambda it, st: it.meth(v, "plot", st, show=F_), cx.loc("vehicle.plot_vehicle"))
    cx.guard("nothing changes", "vehicle plot", veh, cx.loc("vehicle.plot_vehicle"))

    def tend():
        it, st = cx.interp(tol0=True), State()
        cv = Canvas(it, True)
        ba = it.new(BA, st, lst(st, [const(8), const(12)]), lst(st, [sym("EI")] * 2), lst(st, ints(-1, 0, -1, 0, -1, 0)), LM=LMv(st, [[const(1), const(1), sym("q", None)]]))
        ps = lst(st, [it.new("prestress.Parabola", st, e_left=sym("ea"), e_mid=sym("ea") + sym("eb") + sym("ec"), e_right=sym("eb")), NONE])
        ask(cx, "plot_tendon", it, st, cv, {"model": ba, "profiles": ps}, lambda it, st: it.analyze_call("prestress.plot_tendon", [ba, sym("F"), ps], st=st)[0], cx.loc("prestress.plot_tendon"))
        ask(cx, "equivalent_loads", it, st, cv, {"model": ba, "profiles": ps}, lambda it, st: it.analyze_call("prestress.equivalent_loads", [ba, sym("F"), ps], st=st)[0], cx.loc("prestress.equivalent_loads"))
    cx.guard("nothing changes", "tendon", tend, cx.loc("prestress.plot_tendon"))

    # load cases
    def lcs(it, st):
        w = lambda s: sym(s, None)
        ba = build(it, st, Fin([[const(1), const(1), w("g")]]))
        c1, c2 = LMv(st, [[const(1), const(1), w("w1")]]), LMv(st, [[const(2), const(2), w("P2"), sym("L1") / const(3)]])
        o = it.new("load_cases.LoadCases", st, ba)
        it.meth(o, "add_case", st, K("A"), c1)
        it.meth(o, "add_case", st, K("B"), c2)
        return ba, o
    for m, a in (("to_LM", ()), ("case", (K("B"),)), ("__repr__", ()), ("factors", ("f",)), ("combined_loads", ("f",)), ("load_positions", ())):
        def go(m=m, a=a):
            it, st = cx.interp(tol0=True), State()
            cv = Canvas(it, True)
            ba, o = lcs(it, st)
            args = [lst(st, [const(2), const(3)]) if x == "f" else x for x in a]
            ask(cx, f"load cases {m}", it, st, cv, {"model": ba, "cases": o}, lambda it, st: it.meth(o, m, st, *args), cx.loc(f"load_cases.LoadCases.{m}"))
        cx.guard("nothing changes", f"load cases {m}", go, cx.loc(f"load_cases.LoadCases.{m}"))
    for fnm in ("load_cases.plot_load_patterns",):
        def go(fnm=fnm):
            it, st = cx.interp(tol0=True), State()
            cv = Canvas(it, True)
            ba, o = lcs(it, st)
            cs = lst(st, [LMv(st, [[const(1), const(3), sym("w", None), sym("L0") / const(4), sym("L0") / const(2)]])])
            ask(cx, fnm, it, st, cv, {"model": ba, "cases": cs}, lambda it, st: it.analyze_call(fnm, [ba, cs], {"show": F_}, st=st)[0], cx.loc(fnm))
        cx.guard("nothing changes", fnm, go, cx.loc(fnm))
