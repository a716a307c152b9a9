"""C04: what is handed in stays the caller's."""
from fractions import Fraction
from .plots import *  # noqa
from .plots import deck, truck, data, arr, PosSolve
from .envelopes import env_like
from .loads import lst, LMv, ints
from .history import EigLog
from .bridge import crossing_hook, scripted_hook
from .plastic import Script, Ref
from .special import eighlog

RULE = "arguments unchanged"


def keep(cx, nm, it, st, given, steps, site, skip=()):
    """the values handed in, before and after each step"""
    pre = heap.snapshot(st, None)
    for lab, fn in steps:
        fn()
        for gn, g in given.items():
            heap.unchanged(cx, RULE, f"{nm}, after {lab}: {gn}", pre, g, st, g, site, skip=skip)


def beam_args(it, st, form):
    mk = lst if form == "lists" else arr
    w = lambda s: sym(s, None)
    g = dict(L=mk(st, [sym("L0"), sym("L1"), sym("L2")]), EI=mk(st, [sym("E0"), sym("E1"), sym("E2")]),
             R=mk(st, [const(-1), ZERO, const(-1), ZERO, sym("ks"), ZERO, const(-1), const(-1)]),
             LM=LMv(st, [[const(1), const(1), w("w0")], [const(2), const(2), w("P0"), sym("L1") / const(3)], [const(3), const(5), w("wa"), w("wb")], [const(3), const(5), w("wc"), w("wd"), sym("L2") / const(4), sym("L2") / const(2)],
                         [const(2), const(3), w("w2"), ZERO, sym("L1") / const(5)], [const(1), const(4), w("m0"), sym("L0") / const(2)], [const(1), const(6), w("k0")]]),
             eletype=mk(st, ints(1, 2, 1)))
    if form != "arrays":
        g["D"] = lst(st, [NONE, NONE, sym("d1", None), NONE, NONE, NONE, NONE, NONE])
        g["GAv"] = lst(st, [NONE, NONE, sym("G2")])
        g["kf"] = lst(st, [NONE, NONE, NONE])
    return g


def analyses(cx):
    F_ = alg.FALSE
    for form in ("lists", "arrays", "tuples"):
        def go(form=form):
            it, st = cx.interp(tol0=True), State()
            PosSolve(it)
            EigLog(it, lambda k: True)
            site = cx.loc(f"{BA}.__init__")
            g = beam_args(it, st, "lists" if form == "tuples" else form)
            if form == "tuples":
                g["EI"] = Tup([sym("E0"), sym("E1"), sym("E2")])
            extra = [const(1), const(1), sym("wx", None)]
            row = lst(st, extra)
            LM2 = LMv(st, [[const(1), const(2), sym("P9", None), sym("L0") / const(7)]])
            R2 = lst(st, [const(-1), ZERO] * 4)
            D2 = lst(st, [sym("d9", None)] + [NONE] * 7)
            kap = lst(st, [sym("ka", None), sym("kb", None)])
            given = dict(g, row=row, LM2=LM2, R2=R2, D2=D2, kap=kap)
            box = {}
            ba = lambda: box["ba"]
            bm = lambda: it.getattr(ba(), "beam", st)
            steps = [("construction", lambda: box.update(ba=it.new(BA, st, **g))),
                     ("analyze", lambda: it.meth(ba(), "analyze", st, npts=const(5), check_stability=F_)),
                     ("is_stable", lambda: it.meth(ba(), "is_stable", st)),
                     ("add_udl", lambda: it.meth(ba(), "add_udl", st, const(1), sym("wy", None))),
                     ("add_pl", lambda: it.meth(ba(), "add_pl", st, const(2), sym("Py", None), sym("L1") / const(2))),
                     ("add_pudl", lambda: it.meth(ba(), "add_pudl", st, const(1), sym("wz", None), ZERO, sym("L0") / const(2))),
                     ("add_ml", lambda: it.meth(ba(), "add_ml", st, const(1), sym("my", None), sym("L0") / const(3))),
                     ("add_trap", lambda: it.meth(ba(), "add_trap", st, const(1), sym("ta", None), sym("tb", None))),
                     ("add_ic", lambda: it.meth(ba(), "add_ic", st, const(2), kap)),
                     ("add_load", lambda: it.meth(bm(), "add_load", st, row)),
                     ("analysing the added loads", lambda: it.meth(ba(), "analyze", st, npts=const(5), check_stability=F_)),
                     ("set_loads", lambda: it.meth(ba(), "set_loads", st, LM2)),
                     ("adding to the set loads", lambda: (it.meth(ba(), "add_udl", st, const(2), sym("wq", None)), it.meth(bm(), "add_load", st, row))),
                     ("changing the restraints", lambda: it.setattr(bm(), "restraints", R2, st)),
                     ("changing the settlements", lambda: it.setattr(bm(), "prescribed_displacements", D2, st)),
                     ("analysing the changed beam", lambda: it.meth(ba(), "analyze", st, npts=const(4), check_stability=F_)),
                     ("adding a span", lambda: it.meth(bm(), "add_span", st, sym("L3"), sym("E3"))),
                     ]
            keep(cx, f"analysis from {form}", it, st, given, steps, site)
        cx.guard(RULE, f"analysis from {form}", go, cx.loc(f"{BA}.__init__"))

    def shared():
        # two models built on the same lists: work on one does not reach the other
        it, st = cx.interp(tol0=True), State()
        PosSolve(it)
        g = beam_args(it, st, "lists")
        a, b = it.new(BA, st, **g), it.new(BA, st, **g)
        site = cx.loc(f"{BA}.__init__")
        bm = it.getattr(a, "beam", st)
        keep(cx, "two models on the same lists", it, st, dict(g, second=b), [
            ("loads added to the first", lambda: (it.meth(a, "add_udl", st, const(1), sym("wy", None)), it.meth(bm, "add_load", st, lst(st, [const(2), const(1), sym("wv", None)])))),
            ("the first analysed", lambda: it.meth(a, "analyze", st, npts=const(5), check_stability=F_)),
            ("a span added to the first", lambda: it.meth(bm, "add_span", st, sym("L3"), sym("E3")))], site)
    cx.guard(RULE, "two models on the same lists", shared, cx.loc(f"{BA}.__init__"))

    def supports():
        it, st = cx.interp(tol0=True), State()
        s = lst(st, [K("fixed"), K("pinned"), K("roller")])
        keep(cx, "supports", it, st, dict(supports=s), [("supports_to_R", lambda: it.analyze_call("utils.supports_to_R", [s], {"n_nodes": const(3)}, st=st))], cx.loc("utils.supports_to_R"))
        L, E = lst(st, [sym("L0"), sym("L1")]), lst(st, [sym("E0"), sym("E1")])
        keep(cx, "analysis from supports", it, st, dict(supports=s, L=L, EI=E), [("construction", lambda: it.new(BA, st, L, E, supports=s))], cx.loc(f"{BA}.__init__"))
    cx.guard(RULE, "supports", supports, cx.loc("utils.supports_to_R"))

    def loadmat():
        it, st = cx.interp(tol0=True), State()
        A, B = beam_args(it, st, "lists")["LM"], LMv(st, [[const(1), const(1), sym("u", None)], [const(2), const(5), sym("v", None), sym("v2", None)]])
        for fn, args in (("parse_LM", [A]), ("add_LM", [A, B]), ("factor_LM", [A, sym("gamma")])):
            keep(cx, fn, it, st, dict(LM=A, other=B), [("the call", lambda: it.analyze_call(f"load.{fn}", args, st=st))], cx.loc(f"load.{fn}"))
    cx.guard(RULE, "load matrices", loadmat, cx.loc("load.factor_LM"))

    def modal():
        it, st = cx.interp(), State()
        eighlog(it, [])
        g = dict(L=lst(st, [sym("L0"), sym("L1")]), EI=lst(st, [sym("E0"), sym("E1")]), R=lst(st, ints(-1, 0, -1, 0, -1, 0)))
        ba = it.new(BA, st, **g)
        m = lst(st, [sym("m0"), sym("m1")])
        keep(cx, "modal", it, st, dict(g, mass=m, model=ba), [("modal", lambda: it.meth(ba, "modal", st, m, const(2), const(2))), ("solve_modal", lambda: it.analyze_call("modal.solve_modal", [it.getattr(ba, "beam", st), m, const(2), const(2)], st=st))], cx.loc("modal.solve_modal"))
    cx.guard(RULE, "modal", modal, cx.loc("modal.solve_modal"))

    def nonpris():
        it, st = cx.interp(tol0=True), State()
        s = it.new("section.SectionEI", st)
        xs, es = lst(st, [ZERO, const(2)]), lst(st, [sym("Ea"), sym("Eb")])
        it.meth(s, "add_segment", st, K("linear"), xs, es)
        px, pe = arr(st, [const(2), const(3), const(5)]), arr(st, [sym("Eb"), sym("Ec"), sym("Ed")])
        segs = lst(st, [Tup([K("linear"), xs, es]), Tup([K("linear"), lst(st, [const(2), const(5)]), lst(st, [sym("Eb"), sym("Ed")])])])
        keep(cx, "section", it, st, dict(x=xs, ei=es, px=px, pe=pe, segs=segs), [
            ("piecewise segment", lambda: it.meth(s, "add_segment", st, K("pwl"), px, pe)),
            ("construction", lambda: it.new("section.SectionEI", st, segs)),
            ("evaluation", lambda: it.meth(s, "__call__", st, arr(st, [ZERO, const(1), const(4)])))], cx.loc("section.SectionEI.add_segment"))
        q = arr(st, [ZERO, const(1), const(4), const(5)])
        keep(cx, "section query", it, st, dict(x=q, section=s), [("evaluation", lambda: it.meth(s, "__call__", st, q))], cx.loc("section.SectionEI.__call__"))
    cx.guard(RULE, "section", nonpris, cx.loc("section.SectionEI.add_segment"))


def bridges(cx):
    site = cx.loc("bridge.BridgeAnalysis.run_vehicle")
    h = sym("h")

    def go(what):
        it, st = cx.interp(tol0=True), State()
        it.hooks.update(crossing_hook([]))
        nodes = [ZERO, const(2) * h, const(5) * h]
        R = lst(st, [const(-1), ZERO] * 3)
        LM = LMv(st, [[const(1), const(1), sym("own", None)]])
        L, E = lst(st, [const(2) * h, const(3) * h]), lst(st, [sym("E0"), sym("E1")])
        ba = it.new(BA, st, L, E, R=R, LM=LM)
        sp, wt = arr(st, [h]), arr(st, [sym("w0", None), sym("w1", None)])
        v = it.new("vehicle.Vehicle", st, sp, wt)
        br = it.new("bridge.BridgeAnalysis", st, ba, v)
        pts = lst(st, [h, const(3) * h])
        cl = Tup([h, const(2) * h])
        given = dict(L=L, EI=E, R=R, LM=LM, spacings=sp, weights=wt, vehicle=v, points=pts)
        steps = {
            "a placement": lambda: it.meth(br, "static_vehicle", st, const(2) * h, shear_points=pts),
            "a crossing": lambda: it.meth(br, "run_vehicle", st, h, shear_points=pts),
            "a load model": lambda: it.meth(br, "run_load_model", st, h, sym("lane", None)),
            "a load model with clearances": lambda: it.meth(br, "run_load_model", st, h, sym("lane", None), cl),
        }
        if what == "added":
            br2 = it.new("bridge.BridgeAnalysis", st)
            steps = {"add_bridge": lambda: it.meth(br2, "add_bridge", st, L, E, R), "add_vehicle": lambda: it.meth(br2, "add_vehicle", st, sp, wt), "a crossing": lambda: it.meth(br2, "run_vehicle", st, h)}
        keep(cx, f"bridge {what}", it, st, given, list(steps.items()), site)
    for what in ("given", "added"):
        cx.guard(RULE, f"bridge {what}", lambda: go(what), site)

    def critical():
        it, st = cx.interp(tol0=True), State()
        num = lambda k, i: const((7 * k * k + 11 * i + 3) % 13 - 6)
        it.hooks.update(scripted_hook([], lambda k: dict(M=[num(k, i) for i in range(6)], V=[num(k, i + 2) for i in range(6)], R=[num(k, i + 4) for i in range(3)]),
                                      lambda it, st, ba: [ZERO, ZERO, h, const(2) * h, const(3) * h, const(4) * h]))
        ba = deck(it, st, [ZERO, const(2) * h, const(4) * h])
        v = truck(it, st, [h], [sym("w0", None), sym("w1", None)])
        br = it.new("bridge.BridgeAnalysis", st, ba, v)
        e1 = it.meth(br, "run_vehicle", st, h)
        e2 = it.meth(br, "run_vehicle", st, h)
        s = cx.loc("bridge.BridgeAnalysis.envelopes_ratios")
        keep(cx, "ratios", it, st, dict(trial=e1, reference=e2), [("envelopes_ratios", lambda: it.meth(br, "envelopes_ratios", st, e1, e2))], s)
        keep(cx, "critical values", it, st, dict(envelope=e2, other=e1), [("critical_values", lambda: it.meth(br, "critical_values", st, e2))], s)
        keep(cx, "a later crossing", it, st, dict(first=e1, second=e2), [("run_vehicle", lambda: it.meth(br, "run_vehicle", st, h)), ("run_load_model", lambda: it.meth(br, "run_load_model", st, h, sym("lane", None)))], site)
    cx.guard(RULE, "ratios", critical, site)

    def vehicles():
        it, st = cx.interp(tol0=True), State()
        sp, wt = arr(st, [const(3), const(6)]), arr(st, [const(10), const(25), const(5)])
        v = it.new("vehicle.Vehicle", st, sp, wt)
        v2 = it.new("vehicle.Vehicle", st, arr(st, [const(2)]), arr(st, [const(7), const(8)]))
        vs, gaps = lst(st, [v, v2, v]), arr(st, [const(4), const(9)])
        s = cx.loc("vehicle.Vehicle.reverse")
        box = {}
        keep(cx, "vehicles", it, st, dict(spacings=sp, weights=wt, vehicle=v, other=v2, vehicles=vs, gaps=gaps), [
            ("a reversed copy", lambda: box.update(r=it.meth(v, "reverse", st, alg.FALSE))),
            ("reversing the copy", lambda: it.meth(box["r"], "reverse", st)),
            ("a train", lambda: box.update(t=it.analyze_call("vehicle.make_train", [vs, gaps], st=st)[0])),
            ("reversing the train", lambda: it.meth(box["t"], "reverse", st))], s)
        one = lst(st, [v])
        keep(cx, "train of one", it, st, dict(vehicle=v, vehicles=one), [("a train", lambda: box.update(t=it.analyze_call("vehicle.make_train", [one, arr(st, [])], st=st)[0])),
                                                                       ("reversing the train", lambda: it.meth(box["t"], "reverse", st))], cx.loc("vehicle.make_train"))
        keep(cx, "vehicle arrays", it, st, dict(spacings=sp, weights=wt), [("reversing the vehicle", lambda: it.meth(v, "reverse", st))], s)
    cx.guard(RULE, "vehicles", vehicles, cx.loc("vehicle.Vehicle.reverse"))

    def il():
        it, st = cx.interp(tol0=True), State()
        it.hooks.update(crossing_hook([]))
        L, E, R = lst(st, [const(2) * h, const(3) * h]), lst(st, [sym("E0"), sym("E1")]), lst(st, [const(-1), ZERO] * 3)
        et = lst(st, ints(1, 1))
        box = {}
        keep(cx, "influence lines", it, st, dict(L=L, EI=E, R=R, eletype=et), [
            ("construction", lambda: box.update(o=it.new("inf_lines.InfluenceLines", st, L, E, R, et))),
            ("create_ils", lambda: it.meth(box["o"], "create_ils", st, h)),
            ("get_il", lambda: it.meth(box["o"], "get_il", st, const(2) * h, K("M")))], cx.loc("inf_lines.InfluenceLines.__init__"))
    cx.guard(RULE, "influence lines", il, cx.loc("inf_lines.InfluenceLines.__init__"))


def merging(cx):
    def go():
        it, st = cx.interp(tol0=True), State()
        e = [env_like(it, st, t, 3, 2) for t in "pqr"]
        es = lst(st, list(e))
        E_ = "results.Envelopes"
        box = {}
        given = dict(first=e[0], second=e[1], third=e[2], sequence=es)
        steps = [("joining", lambda: box.update(j=it.meth(e[0], "__or__", st, e[1]))), ("adding", lambda: box.update(s=it.meth(e[0], "__add__", st, e[1])))]
        keep(cx, "envelope operators", it, st, given, steps, cx.loc(f"{E_}.__add__"))
        # what comes out can be worked on without reaching what went in
        given2 = dict(given)
        keep(cx, "work on the joined envelope", it, st, given2, [("augment", lambda: it.meth(box["j"], "augment", st, e[2])), ("sum", lambda: it.meth(box["s"], "sum", st, e[2]))], cx.loc(f"{E_}.augment"))
    cx.guard(RULE, "envelope operators", go, cx.loc("results.Envelopes.__add__"))
    for mode in ("envelope", "sum"):
        def comb(mode=mode):
            it, st = cx.interp(tol0=True), State()
            e = [env_like(it, st, t, 3, 2) for t in "pqr"]
            es = lst(st, list(e))
            box = {}
            cm = lambda name, *a: it.analyze_call(f"results.Envelopes.{name}", [ClsV(it.prog.cls("results.Envelopes"))] + list(a), st=st)[0]
            given = dict(first=e[0], second=e[1], third=e[2], sequence=es)
            keep(cx, f"combine {mode}", it, st, given, [("combine", lambda: box.update(c=cm("combine", es, K(mode)))),
                                                      ("augmenting the outcome", lambda: it.meth(box["c"], "augment", st, e[2])),
                                                      ("summing to the outcome", lambda: it.meth(box["c"], "sum", st, e[1]))], cx.loc("results.Envelopes.combine"))
            one = lst(st, [e[0]])
            keep(cx, f"combine one, {mode}", it, st, given, [("combine", lambda: box.update(c=cm("combine", one, K(mode)))),
                                                           ("augmenting the outcome", lambda: it.meth(box["c"], "augment", st, e[2]))], cx.loc("results.Envelopes.combine"))
            keep(cx, f"zero_like, {mode}", it, st, given, [("zero_like", lambda: box.update(z=cm("zero_like", e[0]))),
                                                         ("summing into it", lambda: it.meth(box["z"], "sum", st, e[1]))], cx.loc("results.Envelopes.zero_like"))
        cx.guard(RULE, f"combine {mode}", comb, cx.loc("results.Envelopes.combine"))
    for m in ("augment", "sum"):
        def own(m=m):
            it, st = cx.interp(tol0=True), State()
            e = [env_like(it, st, t, 3, 2) for t in "pqr"]
            keep(cx, f"{m}", it, st, dict(second=e[1], third=e[2]), [("once", lambda: it.meth(e[0], m, st, e[1])), ("again", lambda: it.meth(e[0], m, st, e[2]))], cx.loc(f"results.Envelopes.{m}"))
        cx.guard(RULE, m, own, cx.loc(f"results.Envelopes.{m}"))

    def from_results():
        it, st = cx.interp(tol0=True), State()
        mem = [[dict(x=[ZERO, h2], **{k: [sym(f"{k}{i}a", None), sym(f"{k}{i}b", None)] for k in ("M", "V", "R", "D")})] for i in range(2) for h2 in [sym("h")]]
        rs = [result_set(it, st, m, [sym(f"R{i}a", None), sym(f"R{i}b", None)]) for i, m in enumerate(mem)]
        v = lst(st, rs)
        box = {}
        e2 = env_like(it, st, "q", 2, 2)
        keep(cx, "envelope of results", it, st, dict(results=v), [("construction", lambda: box.update(e=it.new("results.Envelopes", st, v)))], cx.loc("results.Envelopes.__init__"))
    cx.guard(RULE, "envelope of results", from_results, cx.loc("results.Envelopes.__init__"))


def cases(cx):
    w = lambda s: sym(s, None)

    def setup():
        it, st = cx.interp(tol0=True), State()
        PosSolve(it)
        ba = it.new(BA, st, lst(st, [sym("L0"), sym("L1")]), lst(st, [sym("E0"), sym("E1")]), R=lst(st, ints(-1, 0, -1, 0, -1, 0)), LM=LMv(st, [[const(1), const(1), w("g")]]))
        A, B = LMv(st, [[const(1), const(1), w("w1")]]), LMv(st, [[const(2), const(2), w("P2"), sym("L1") / const(3)], [const(1), const(5), w("t1"), w("t2")]])
        return it, st, ba, A, B
    site = cx.loc("load_cases.LoadCases.add_case")

    def coll():
        it, st, ba, A, B = setup()
        md = st.new(Dct({"note": K("x")}))
        box = {}
        cs = lambda: box["o"]
        given = dict(A=A, B=B, metadata=md, model=ba)
        F = lst(st, [const(2), const(3)])
        given["factors"] = F
        row = lst(st, [const(2), const(1), w("r")])
        given["row"] = row
        run = lambda m, *a: it.meth(cs(), m, st, *a)
        steps = [("construction", lambda: box.update(o=it.new("load_cases.LoadCases", st, ba))),
                 ("add_case", lambda: run("add_case", K("A"), A)), ("add", lambda: run("add", K("B"), B)), ("set", lambda: run("set", K("C"), B)),
                 ("add_udl", lambda: run("add_udl", K("A"), const(2), w("y"))), ("add_load", lambda: run("add_load", K("B"), row)), ("add_pl", lambda: run("add_pl", K("C"), const(1), w("p"), sym("L0") / const(2))),
                 ("add_all_spans_udl", lambda: run("add_all_spans_udl", K("A"), w("z"))),
                 ("to_LM", lambda: run("to_LM")), ("response_matrix", lambda: run("response_matrix")), ]
        keep(cx, "load cases", it, st, given, steps, site)
    cx.guard(RULE, "load cases", coll, site)

    def two():
        it, st, ba, A, B = setup()
        o = it.new("load_cases.LoadCases", st, ba)
        it.meth(o, "add_case", st, K("A"), A)
        it.meth(o, "add_case", st, K("B"), B)
        F, FD = lst(st, [const(2), const(3)]), st.new(Dct({K("A"): const(2), K("B"): const(-1)}))
        given = dict(A=A, B=B, factors=F, mapping=FD, cases=o, model=ba)
        steps = [(m, lambda m=m: it.meth(o, m, st, F)) for m in ("factors", "combined_loads", "combine", "analyze_combination", "linear_combination")]
        steps += [(m + " by name", lambda m=m: it.meth(o, m, st, FD)) for m in ("factors", "combined_loads", "combine", "analyze_combination", "linear_combination")]
        steps += [("response_matrix", lambda: it.meth(o, "response_matrix", st, K("V"))), ("envelope", lambda: it.meth(o, "envelope", st, const(4)))]
        keep(cx, "combining", it, st, given, steps, cx.loc("load_cases.LoadCases.combine"), skip=("cache",))
    cx.guard(RULE, "combining", two, cx.loc("load_cases.LoadCases.combine"))

    def case():
        it, st, ba, A, B = setup()
        box = {}
        row = lst(st, [const(2), const(1), w("r")])
        given = dict(loads=B, row=row, model=ba)
        keep(cx, "load case", it, st, given, [
            ("construction", lambda: box.update(c=it.new("load_cases.LoadCase", st, K("A"), B))),
            ("add_load", lambda: it.meth(box["c"], "add_load", st, row)),
            ("add_udl", lambda: it.meth(box["c"], "add_udl", st, const(1), w("y"))),
            ("add_all_spans_udl", lambda: it.meth(box["c"], "add_all_spans_udl", st, ba, w("z"))),
            ("add_segment_udl", lambda: it.meth(box["c"], "add_segment_udl", st, ba, ZERO, sym("L0"), w("z2")))], cx.loc("load_cases.LoadCase.add_load"))
    cx.guard(RULE, "load case", case, cx.loc("load_cases.LoadCase.add_load"))

    def built():
        it, st, ba, A, B = setup()
        c = it.new("load_cases.LoadCase", st, K("A"), A)
        box = {}
        nb = lambda: it.getattr(box["m"], "beam", st)
        keep(cx, "model for a case", it, st, dict(template=ba, case=c, loads=A), [
            ("build_pycba_model", lambda: box.update(m=it.analyze_call("load_cases.build_pycba_model", [ba, c], st=st)[0])),
            ("loads added to the built model", lambda: it.meth(box["m"], "add_udl", st, const(1), w("n"))),
            ("analysing the built model", lambda: it.meth(box["m"], "analyze", st, npts=const(4), check_stability=alg.FALSE)),
            ("a span added to the built model", lambda: it.meth(nb(), "add_span", st, sym("L3"), sym("E3"))),
            ("analyse_load_case", lambda: it.analyze_call("load_cases.analyse_load_case", [ba, c], st=st)),
            ("collect_response_matrix", lambda: it.analyze_call("load_cases.collect_response_matrix", [ba, lst(st, [c])], st=st)),
            ("make_patterned_udl", lambda: it.analyze_call("load_cases.make_patterned_udl", [ba, w("w"), const(2)], st=st)),
            ("make_span_udl_cases", lambda: it.analyze_call("load_cases.make_span_udl_cases", [ba, w("w")], st=st))], cx.loc("load_cases.build_pycba_model"))
    cx.guard(RULE, "model for a case", built, cx.loc("load_cases.build_pycba_model"))

    def pattern():
        it, st, ba, A, B = setup()
        p = it.new("pattern.LoadPattern", st, ba)
        c = it.new("load_cases.LoadCase", st, K("q"), B)
        keep(cx, "pattern", it, st, dict(dead=A, live=B, case=c), [
            ("dead loads", lambda: it.meth(p, "set_dead_loads", st, A, const(2), const(1))),
            ("live loads", lambda: it.meth(p, "set_live_loads", st, c, const(3), ZERO)),
            ("the pattern analysis", lambda: it.meth(p, "analyze", st, const(4)))], cx.loc("pattern.LoadPattern.analyze"))
    cx.guard(RULE, "pattern", pattern, cx.loc("pattern.LoadPattern.analyze"))

    def matrices():
        it, st = cx.interp(tol0=True), State()
        B = st.new(Arr((3, 2), [sym(f"b{i}", None) for i in range(6)]))
        pos = lst(st, ints(0, 1, 0))
        keep(cx, "response matrices", it, st, dict(B=B, positions=pos), [
            ("additive_envelope", lambda: it.analyze_call("load_cases.additive_envelope", [B], st=st)),
            ("sign_selective_envelope", lambda: it.analyze_call("load_cases.sign_selective_envelope", [B, pos], st=st))], cx.loc("load_cases.sign_selective_envelope"))
    cx.guard(RULE, "response matrices", matrices, cx.loc("load_cases.sign_selective_envelope"))

    def tend():
        it, st = cx.interp(tol0=True), State()
        ba = it.new(BA, st, lst(st, [const(8), const(12)]), lst(st, [sym("EI")] * 2), lst(st, ints(-1, 0, -1, 0, -1, 0)), LM=LMv(st, [[const(1), const(1), sym("q", None)]]))
        ps = lst(st, [it.new("prestress.Parabola", st, e_left=sym("ea"), e_mid=sym("ea") + sym("eb") + sym("ec"), e_right=sym("eb")), NONE])
        fs = lst(st, [sym("F0"), sym("F1")])
        keep(cx, "tendon", it, st, dict(profiles=ps, forces=fs, model=ba), [("equivalent_loads", lambda: it.analyze_call("prestress.equivalent_loads", [ba, fs, ps], st=st))], cx.loc("prestress.equivalent_loads"))
    cx.guard(RULE, "tendon", tend, cx.loc("prestress.equivalent_loads"))


def plastic(cx):
    site = cx.loc("nonlinear.NonlinearBeamAnalysis.analyze")

    def go(moving):
        it, st = cx.interp(tol0=True), State()
        E = sym("E")
        ref = Ref([2, 2], [ONE, ONE], [-1, 0, -1, 0, -1, 0], [E, E])
        sc = Script(it, ref, lambda s: [const(Fraction((5 * d * (s + 1)) % 7 - 3, 20)) for d in range(2 * ref.n)])
        g = dict(L=lst(st, [const(2), const(2)]), EI=lst(st, [E, E]), R=lst(st, ints(-1, 0, -1, 0, -1, 0)), Mp=lst(st, [const(9) * E, const(11) * E]), My=lst(st, [const(8) * E, const(10) * E]))
        LM = LMv(st, [[const(1), const(1), E], [const(2), const(2), const(2) * E, ONE]])
        v = truck(it, st, [ONE], [const(3) * E, const(2) * E])
        box = {}
        steps = [("construction", lambda: box.update(n=it.new("nonlinear.NonlinearBeamAnalysis", st, mesh_size=ONE, q=const(Fraction(1, 10)), **g)))]
        if moving:
            steps.append(("analyze_moving", lambda: it.meth(box["n"], "analyze_moving", st, vehicle=v, step=const(1), n_sub=const(2))))
        else:
            steps.append(("analyze", lambda: it.meth(box["n"], "analyze", st, LM, lambda_max=const(1000), max_steps=const(2))))
            steps.append(("analyze again", lambda: it.meth(box["n"], "analyze", st, LM, lambda_max=const(1000), max_steps=const(1))))
        keep(cx, "nonlinear" + (" moving" if moving else ""), it, st, dict(g, LM=LM, vehicle=v), steps, site)
    cx.guard(RULE, "nonlinear", lambda: go(False), site)
    cx.guard(RULE, "nonlinear moving", lambda: go(True), cx.loc("nonlinear.NonlinearBeamAnalysis.analyze_moving"))


@prop("C04", floor=150, rule="Every list, array, mapping and object handed to a constructor or a method is structurally the same after the call and after later work on what was built from it: loads added, analyses, crossings, combinations, merging; what one model, envelope or case does never reaches another built from the same data.")
def c04(cx):
    analyses(cx)
    bridges(cx)
    merging(cx)
    cases(cx)
    plastic(cx)
