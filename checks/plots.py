"""I: what the figures show."""
from .history import *  # noqa
from .history import build, run, PosSolve, Fin, _u
from .envelopes import env_like, data, arr, result_set
from .bridge import deck, truck
from sa.canvas import Canvas
from sa import heap


def strip(v):
    """nested data -> flat list of scalars or None when it is not enumerated"""
    if isinstance(v, list):
        return [as_num(x) if isinstance(x, (Poly, Cond)) else x for x in v]
    return None


def alike(a, b):
    """'ok' | 'bad' | 'und' for two drawn data series"""
    if a is None or b is None:
        return "und"
    if len(a) != len(b):
        return "bad"
    worst = "ok"
    for x, y in zip(a, b):
        if not (isinstance(x, Poly) and isinstance(y, Poly)):
            if isinstance(x, Opq) or isinstance(y, Opq):
                worst = "und" if worst != "bad" else worst
                continue
            return "bad"
        s = compare(x, y)[0]
        if s == "bad":
            return "bad"
        worst = s if s != "ok" else worst
    return worst


def both(c, w):
    sx = alike(strip(c[0]), w[0]) if w[0] is not None else "ok"
    sy = alike(strip(c[1]), w[1]) if sx != "bad" else "bad"
    return "bad" if "bad" in (sx, sy) else "und" if "und" in (sx, sy) else "ok"


def zero_line(c):
    y = strip(c[1])
    return y is not None and all(isinstance(v, Poly) and alg.is_zero(v) for v in y)


def find(cv, label):
    """axes whose y label is the given text"""
    lab = K(label)
    return [k for k in cv.panels if cv.label(k) == lab]


def says_label(cx, rule, nm, got, want, site):
    if got == K(want):
        return cx.ok(rule, nm, want, site)
    if isinstance(got, K) or got is None:
        return cx.bad(rule, nm, f"labelled {got!r}, {want!r} expected", site)
    return cx.und(rule, nm, f"label {got!r}", site)


def panel(cx, rule, nm, cv, k, wants, inverted, site, extra_ok=()):
    """axes k shows exactly the wanted curves (any order, any style) and a zero line"""
    cs = cv.curves(k)
    used = set()
    for wn, w in wants.items():
        st = [both(c, w) for c in cs]
        hit = [i for i, s in enumerate(st) if s == "ok" and cs[i][2].pc.k == "T"]
        if hit:
            used.update(hit)
            cx.ok(rule, f"{nm}: {wn}", f"{len(w[1])} points", site)
        elif "und" in st or "ok" in st:
            cx.und(rule, f"{nm}: {wn}", "a curve that cannot be compared", site)
        else:
            near = [c for c in cs if not zero_line(c)]
            show = "; ".join(f"y = {[alg.show(as_num(v), 60) if isinstance(v, Poly) else v for v in (strip(c[1]) or ['?'])][:4]}" for c in near[:3])
            cx.bad(rule, f"{nm}: {wn}", f"not drawn; wanted y = {[alg.show(v, 60) for v in w[1][:4]]}; drawn: {show or 'nothing'}", site)
    for i, c in enumerate(cs):
        if i in used or zero_line(c):
            continue
        st = [both(c, w) for w in list(wants.values()) + list(extra_ok)]
        if all(s == "bad" for s in st) and strip(c[1]) is not None:
            cx.bad(rule, f"{nm}: other curves", f"y = {[alg.show(v, 80) if isinstance(v, Poly) else v for v in strip(c[1])[:4]]}", site)
    # shading follows the curves
    for m in cv.of(k, "fill_between"):
        a = list(m.args) + [m.kw[q] for q in ("y1", "y2") if q in m.kw]
        ys = [strip(y) for y in a[1:3] if isinstance(y, list)]
        for y in ys:
            st = [alike(y, w[1]) for w in wants.values()]
            if all(s == "bad" for s in st):
                cx.bad(rule, f"{nm}: shading", f"shaded to {[alg.show(v, 80) if isinstance(v, Poly) else v for v in y[:4]]}", site)
    if inverted is not None:
        inv = cv.inverted(k)
        if inv is None:
            cx.und(rule, f"{nm}: direction of the value axis", "", site)
        elif inv != inverted:
            cx.bad(rule, f"{nm}: direction of the value axis", f"{'downwards' if inv else 'upwards'}, {'downwards' if inverted else 'upwards'} expected", site)
        else:
            cx.ok(rule, f"{nm}: direction of the value axis", "", site)


def one(cx, rule, nm, cv, label, site):
    ks = find(cv, label)
    if len(ks) == 1:
        cx.ok(rule, f"{nm}: {label}", f"axes {ks[0]}", site)
        return ks[0]
    labs = [cv.label(k) for k in cv.panels]
    if len(ks) == 0 and any(not (isinstance(x, K) or x is None) for x in labs):
        cx.und(rule, f"{nm}: {label}", f"labels {labs}", site)
    else:
        cx.bad(rule, f"{nm}: {label}", f"{len(ks)} panels with this label; labels {labs}", site)
    return ks[0] if ks else None


UNITS = {   # preset names -> (force, length, moment, distributed, deflection unit, factor)
    "SI": ("kN", "m", "kNm", "kN/m", "mm", 1000), "kN-m": ("kN", "m", "kNm", "kN/m", "mm", 1000), "eu": ("kN", "m", "kNm", "kN/m", "mm", 1000),
    "N-mm": ("N", "mm", "N·mm", "N/mm", "mm", 1), "US-ft": ("kip", "ft", "kip·ft", "kip/ft", "in", 12), "kip_ft": ("kip", "ft", "kip·ft", "kip/ft", "in", 12),
    "us": ("kip", "ft", "kip·ft", "kip/ft", "in", 12), "kip in": ("kip", "in", "kip·in", "kip/in", "in", 1), "us-in": ("kip", "in", "kip·in", "kip/in", "in", 1), "none": ("", "", "", "", "", 1), "": ("", "", "", "", "", 1),
    None: ("kN", "m", "kNm", "kN/m", "mm", 1000)}


def labels(u):
    s = lambda x: f" ({x})" if x else ""
    f, l, m, d, dl, k = UNITS[u]
    return dict(M="Bending Moment" + s(m), V="Shear Force" + s(f), D="Deflection" + s(dl), x="Distance along beam" + s(l), k=const(k))


def kv(u):
    return NONE if u is None else K(u)


def analysed(cx, enumerate=False):
    it, st = cx.interp(tol0=True), State()
    cv = Canvas(it, enumerate)
    PosSolve(it)
    ba = build(it, st, Fin([_u(1, "w0"), [const(2), const(2), sym("P0", None), sym("L1") / const(3)]]))
    run(it, st, ba, Fin(None))
    named(it, st, ba)
    return it, st, cv, ba


def named(it, st, ba):
    """the deflections (integrals left open here) become names, the same one wherever the same value stands"""
    br = it.getattr(ba, "beam_results", st)
    rs = [it.getattr(br, "results", st)] + list(st.cell(it.getattr(br, "vRes", st)).values())
    names = {}
    for r in rs:
        c = st.cell(it.getattr(r, "D", st))
        if isinstance(c, Arr):
            for i, v in enumerate(c.data):
                p = as_num(v)
                if isinstance(p, Poly) and any(a.kind == "opq" for a in p.atoms()):
                    c.data[i] = names.setdefault(repr(p), sym(f"y{len(names)}", None))


def results_of(it, st, ba):
    br = it.getattr(ba, "beam_results", st)
    r = it.getattr(br, "results", st)
    o = {a: [as_num(v) for v in data(st, it.getattr(r, a, st))] for a in ("x", "M", "V", "D")}
    # the deflected shape member by member, without the entries that close the diagrams
    xs, ds = [], []
    for mr in st.cell(it.getattr(br, "vRes", st)).values():
        xs += [as_num(v) for v in data(st, it.getattr(mr, "x", st))][1:-1]
        ds += [as_num(v) for v in data(st, it.getattr(mr, "D", st))][1:-1]
    o["xD"], o["DD"] = xs, ds
    return o


@prop("I01", floor=350, rule="Every diagram is drawn from the results of its own object: the panel labelled with an effect shows that effect's values at their own stations (deflections times the factor that belongs to the deflection unit on the label), sagging moments downwards where the figure says so, envelopes with both extremes and the coincident values of the same extreme, in both plotting backends.")
def i01(cx):
    single(cx)
    envelopes(cx)
    crossings(cx)
    others(cx)
    unit_systems(cx)
    defaults(cx)
    animation(cx)
    mode_results(cx)


def single(cx):
    site = cx.loc(f"{BA}.plot_results")
    rule = "diagrams of an analysis"
    for u in ("SI", "US-ft", "none", None):
        for backend in ("matplotlib", "plotly"):
            for kw in (dict(show_beam=alg.FALSE, show_reactions=alg.FALSE), {}) if backend == "matplotlib" else ({},):
                nm = f"plot_results, units {u}, {backend}{', bare' if kw else ''}"

                def go(u=u, backend=backend, kw=kw, nm=nm):
                    it, st, cv, ba = analysed(cx)
                    r = results_of(it, st, ba)
                    lb = labels(u)
                    it.meth(ba, "plot_results", st, units=kv(u), backend=K(backend), show=alg.FALSE, **kw)
                    want = {"M": (r["x"], r["M"]), "V": (r["x"], r["V"]), "D": (r["xD"], [v * lb["k"] for v in r["DD"]])}
                    order = []
                    for e in "MVD":
                        k = one(cx, "a panel for every effect", nm, cv, lb[e], site)
                        if k is not None:
                            order.append(k)
                            panel(cx, rule, f"{nm}: {e}", cv, k, {e: want[e]}, e == "M", site)
                cx.guard(rule, nm, go, site)
            for e, meth in (("M", "plot_bmd"), ("V", "plot_sfd"), ("D", "plot_dsd")):
                nm = f"{meth}, units {u}, {backend}"

                def go(u=u, backend=backend, e=e, meth=meth, nm=nm):
                    it, st, cv, ba = analysed(cx)
                    r = results_of(it, st, ba)
                    lb = labels(u)
                    it.meth(ba, meth, st, units=kv(u), backend=K(backend))
                    want = {"M": (r["x"], r["M"]), "V": (r["x"], r["V"]), "D": (r["xD"], [v * lb["k"] for v in r["DD"]])}[e]
                    k = one(cx, "a panel for every effect", nm, cv, lb[e], site)
                    if k is not None:
                        panel(cx, rule, nm, cv, k, {e: want}, e == "M", site)
                        says_label(cx, "distance label", nm, cv.label(k, "set_xlabel"), lb["x"], site)
                cx.guard(rule, nm, go, site)
    # overlay on existing axes: the curve only; the axes keep their direction
    for e, meth in (("M", "plot_bmd"), ("V", "plot_sfd"), ("D", "plot_dsd")):
        def go(e=e, meth=meth):
            it, st, cv, ba = analysed(cx)
            r = results_of(it, st, ba)
            ax = cv.axes(st)
            it.meth(ba, meth, st, ax=ax, units=K("US-ft"))
            want = {"M": (r["x"], r["M"]), "V": (r["x"], r["V"]), "D": (r["xD"], [v * const(12) for v in r["DD"]])}[e]
            panel(cx, rule, f"{meth} on given axes", cv, 0, {e: want}, False, site)
        cx.guard(rule, f"{meth} on given axes", go, site)


def envelopes(cx):
    site = cx.loc("results.Envelopes.plot")
    rule = "envelope figures"
    for u in ("SI", "none", None):
        lb = labels(u)
        for backend in ("matplotlib", "plotly"):
            nm = f"Envelopes.plot, units {u}, {backend}"

            def go(u=u, backend=backend, nm=nm, lb=lb):
                it, st = cx.interp(tol0=True), State()
                cv = Canvas(it)
                e = env_like(it, st, "e", 4, 2)
                g = lambda a: [as_num(v) for v in data(st, it.getattr(e, a, st))]
                it.meth(e, "plot", st, units=kv(u), backend=K(backend))
                for f in "MV":
                    k = one(cx, "a panel for every effect", nm, cv, lb[f], site)
                    if k is not None:
                        panel(cx, rule, f"{nm}: {f}", cv, k, {f + q: (g("x"), g(f + q)) for q in ("max", "min")}, f == "M", site)
            cx.guard(rule, nm, go, site)
    nm = "Envelopes.plot, each result"

    def each():
        it, st = cx.interp(tol0=True), State()
        cv = Canvas(it)
        x = [ZERO, sym("d1"), sym("d1") + sym("d2")]
        rs = [result_set(it, st, [dict(x=x, **{q: [sym(f"{q}{k}_{j}", None) for j in range(3)] for q in ("M", "V", "R", "D")})], [sym(f"R{k}", None)]) for k in range(2)]
        e = it.new("results.Envelopes", st, lst(st, rs))
        for a in ("Mmax", "Mmin", "Vmax", "Vmin"):
            it.setattr(e, a, arr(st, [sym(f"e_{a}{i}", None) for i in range(3)]), st)
        it.meth(e, "plot", st, each=TRUE)
        g = lambda a: [as_num(v) for v in data(st, it.getattr(e, a, st))]
        lb = labels(None)
        for f in "MV":
            k = one(cx, "a panel for every effect", nm, cv, lb[f], site)
            if k is not None:
                w = {f + q: (x, g(f + q)) for q in ("max", "min")}
                w.update({f"result {i}": (x, [sym(f"{f}{i}_{j}", None) for j in range(3)]) for i in range(2)})
                panel(cx, rule, f"{nm}: {f}", cv, k, w, f == "M", site)
    cx.guard(rule, nm, each, site)
    nm = "Envelopes.plot_coincidents"

    def co():
        it, st = cx.interp(tol0=True), State()
        cv = Canvas(it)
        e = env_like(it, st, "e", 4, 2)
        g = lambda a: [as_num(v) for v in data(st, it.getattr(e, a, st))]
        it.meth(e, "plot_coincidents", st, units=K("US-ft"), show=alg.FALSE)
        lb = labels("US-ft")
        for f, o in (("M", "V"), ("V", "M")):
            k = one(cx, "a panel for every effect", nm, cv, lb[f], site)
            if k is None:
                continue
            panel(cx, rule, f"{nm}: {f}", cv, k, {f + q: (g("x"), g(f + q)) for q in ("max", "min")}, f == "M", site)
            tw = [j for j, p in cv.panels.items() if p["twin"] == k]
            if len(tw) != 1:
                cx.bad(rule, f"{nm}: coincident axis of {f}", f"{len(tw)} axes", site)
                continue
            says_label(cx, rule, f"{nm}: coincident axis of {f}", cv.label(tw[0]), "Coincident " + lb[o], site)
            panel(cx, rule, f"{nm}: coincident {o}", cv, tw[0], {f"{o} at {f}{q}": (g("x"), g(f"{o}co_{f}{q}")) for q in ("max", "min")}, o == "M", site)
    cx.guard(rule, nm, co, site)


def crossings(cx):
    """figures of the bridge analysis and of influence lines"""
    h = sym("h")
    nodes = [ZERO, const(4) * h, const(10) * h]
    rule = "bridge figures"
    site = cx.loc("bridge.BridgeAnalysis.plot_static")
    lb = labels("US-ft")
    for pos, on in ((1, (1,)), (3, (3, 1)), (5, (5, 3)), (11, (9,)), (12, (10,)), (13, ())):
        nm = f"plot_static, front axle at {pos}h"

        def go(pos=pos, on=on, nm=nm):
            from .bridge import crossing_hook
            it, st = cx.interp(tol0=True), State()
            log = []
            it.hooks.update(crossing_hook(log))
            cv = Canvas(it)
            ba = deck(it, st, nodes)
            br = it.new("bridge.BridgeAnalysis", st, ba, truck(it, st, [const(2) * h], [sym("w0", None), sym("w1", None)]))
            it.hooks["render.BeamPlotter.render_mpl"] = lambda it, st, a, k: NONE
            it.meth(br, "plot_static", st, const(pos) * h, units=K("US-ft"))
            r = {a: [as_num(v) for v in data(st, it.getattr(it.getattr(it.getattr(ba, "beam_results", st), "results", st), a, st))] for a in ("x", "M", "V")}
            for e in "MV":
                k = one(cx, "a panel for every effect", nm, cv, lb[e], site)
                if k is None:
                    continue
                # sagging moments are drawn downwards: on an upward axis with the sign changed
                inv = cv.inverted(k)
                y = r[e] if e == "V" or inv else [-v for v in r[e]]
                panel(cx, rule, f"{nm}: {e}", cv, k, {e: (r["x"], y)}, False if e == "V" else None, site)
                at = [as_num(m.args[0]) for m in cv.of(k, "axvline") if m.pc.k == "T"]
                und = [m for m in cv.of(k, "axvline") if m.pc.k not in "TF"]
                want = [const(q) * h for q in on]
                if und:
                    cx.und(rule, f"{nm}: axle markers ({e})", f"{und[:2]}", site)
                elif len(at) == len(want) and all(any(compare(a, w)[0] == "ok" for a in at) for w in want):
                    cx.ok(rule, f"{nm}: axle markers ({e})", f"{len(at)}", site)
                else:
                    cx.bad(rule, f"{nm}: axle markers ({e})", f"at {[alg.show(a) for a in at]}, expected {[alg.show(w) for w in want]}", site)
        cx.guard(rule, nm, go, site)

    site = cx.loc("bridge.BridgeAnalysis.plot_envelopes")

    def env(npos, nres, orders):
        nm = f"plot_envelopes, {'one crossing' if npos == nres else 'envelope of envelopes'}, order {orders}"

        def go():
            it, st = cx.interp(tol0=True), State()
            cv = Canvas(it)
            ba = deck(it, st, nodes)
            br = it.new("bridge.BridgeAnalysis", st, ba, truck(it, st, [], [sym("w0", None)]))
            e = env_like(it, st, "e", 4, 2, nres)
            vals = lambda tag: [sum((sym(f"{tag}{q}") for q in range(r + 1)), ZERO) for r in orders]
            H = {a: [vals(f"{a}{i}_")[:nres] for i in range(2)] for a in ("Rmax", "Rmin")}
            for a in H:
                it.setattr(e, a, st.new(Arr((2, nres), [v for row in H[a] for v in row])), st)
            P = [const(k + 1) * h for k in range(npos)]
            it.setattr(br, "pos", lst(st, P), st)
            it.meth(br, "plot_envelopes", st, e, units=K("US-ft"))
            g = lambda a: [as_num(v) for v in data(st, it.getattr(e, a, st))]
            for f in "MV":
                k = one(cx, "a panel for every effect", nm, cv, lb[f], site)
                if k is not None:
                    panel(cx, rule, f"{nm}: {f}", cv, k, {f + q: (g("x"), g(f + q)) for q in ("max", "min")}, f == "M", site)
            if npos == nres:
                for i in range(2):
                    ks = [k for k in cv.panels if isinstance(cv.label(k), K) and str(cv.label(k).v).startswith(f"Reaction {i + 1}")]
                    if len(ks) != 1:
                        cx.bad(rule, f"{nm}: panel of reaction {i + 1}", f"{len(ks)} panels", site)
                        continue
                    w = {a: (P, H[a][i]) for a in ("Rmax", "Rmin")}
                    jm, jn = max(range(nres), key=lambda j: orders[j]), min(range(nres), key=lambda j: orders[j])
                    w["greatest marked"] = ([P[jm]], [H["Rmax"][i][jm]])
                    w["least marked"] = ([P[jn]], [H["Rmin"][i][jn]])
                    panel(cx, rule, f"{nm}: reaction {i + 1}", cv, ks[0], w, False, site)
            else:
                for q in ("max", "min"):
                    ks = [k for k in cv.panels if isinstance(cv.label(k), K) and f"[{q}]" in str(cv.label(k).v)]
                    if len(ks) != 1:
                        cx.bad(rule, f"{nm}: panel of {q} reactions", f"{len(ks)} panels", site)
                        continue
                    bars(cx, rule, f"{nm}: {q} reactions", cv, ks[0], g(f"R{q}val"), site)
        cx.guard(rule, nm, go, site)
    for o in itertools.permutations(range(3)):
        env(3, 3, o)
    env(2, 3, (0, 1, 2))

    site = cx.loc("bridge.BridgeAnalysis.plot_ratios")

    def rat():
        nm = "plot_ratios"
        it, st = cx.interp(tol0=True), State()
        cv = Canvas(it)
        ba = deck(it, st, nodes)
        br = it.new("bridge.BridgeAnalysis", st, ba, truck(it, st, [], [sym("w0", None)]))
        x = [ZERO, h, const(2) * h]
        d = {"x": arr(st, x), "nsup": const(2)}
        v = {a: [sym(f"q{a}{i}", None) for i in range(3)] for a in ("Mmax", "Mmin", "Vmax", "Vmin")}
        for a in v:
            d[a] = arr(st, v[a])
        for i in range(2):
            for q in ("max", "min"):
                d[f"R{q}{i}"] = sym(f"qR{q}{i}", None)
        it.meth(br, "plot_ratios", st, st.new(Dct({K(k): w for k, w in d.items()})))
        for f, lab in (("M", "Bending Moment Ratio"), ("V", "Shear Force Ratio")):
            k = one(cx, "a panel for every effect", nm, cv, lab, site)
            if k is not None:
                panel(cx, rule, f"{nm}: {f}", cv, k, {f + q: (x, v[f + q]) for q in ("max", "min")}, False, site)
        for q in ("max", "min"):
            ks = [k for k in cv.panels if isinstance(cv.label(k), K) and f"[{q}]" in str(cv.label(k).v)]
            if len(ks) != 1:
                cx.bad(rule, f"{nm}: panel of {q} reactions", f"{len(ks)} panels", site)
            else:
                bars(cx, rule, f"{nm}: {q} reactions", cv, ks[0], [sym(f"qR{q}{i}", None) for i in range(2)], site)
    cx.guard(rule, "plot_ratios", rat, site)


def bars(cx, rule, nm, cv, k, want, site):
    bs = cv.of(k, "bar")
    if len(bs) != 1:
        return cx.bad(rule, nm, f"{len(bs)} bar series", site) if not bs else cx.und(rule, nm, f"{len(bs)} bar series", site)
    a = list(bs[0].args)
    y = strip(a[1]) if len(a) > 1 else strip(bs[0].kw.get("height"))
    s = alike(y, want)
    {"ok": cx.ok, "bad": cx.bad, "und": cx.und}[s](rule, nm, f"bars {[alg.show(v) if isinstance(v, Poly) else v for v in y or []]}, wanted {[alg.show(v) for v in want]}", site)


def one_axes(cx, rule, nm, cv, site):
    if len(cv.panels) != 1:
        cx.bad(rule, f"{nm}: axes", f"{len(cv.panels)} axes", site)
        return None
    return next(iter(cv.panels))


def verdict(cx, ok, rule, nm, detail, site):
    (cx.ok if ok else cx.bad)(rule, nm, detail, site)


def others(cx):
    h = sym("h")
    # influence lines
    rule = "influence line figures"
    site = cx.loc("inf_lines.InfluenceLines.plot_il")
    for eff in ("M", "V", "R"):
        def il(eff=eff):
            it, st = cx.interp(tol0=True), State()
            cv = Canvas(it)
            L = const(8) * h
            o = it.new("inf_lines.InfluenceLines", st, L=lst(st, [L]), EI=const(1), R=lst(st, ints(-1, 0, -1, 0))) if False else st.new(Obj(it.prog.cls("inf_lines.InfluenceLines"), {"L": L}))
            asked = []

            def get(it, st, full, kw):
                v = list(full[1:]) + list(kw.values())
                asked.append(v)
                return Tup([arr(st, [const(2 * i) * h for i in range(5)]), arr(st, [sym(f"il{i}", None) for i in range(5)])])
            it.hooks["inf_lines.InfluenceLines.get_il"] = get
            it.meth(o, "plot_il", st, const(3) * h, K(eff))
            verdict(cx, len(asked) == 1 and asked[0][1] == K(eff) and compare(as_num(asked[0][0]), const(3) * h)[0] == "ok", rule, f"plot_il {eff}: the line asked for", f"{asked}", site)
            k = one_axes(cx, rule, f"plot_il {eff}", cv, site)
            if k is not None:
                panel(cx, rule, f"plot_il {eff}", cv, k, {"ordinates": ([const(2 * i) * h for i in range(5)], [sym(f"il{i}", None) for i in range(5)])}, False, site)
        cx.guard(rule, f"plot_il {eff}", il, site)
    # responses of load cases and their additive envelope
    rule = "load case figures"
    site = cx.loc("load_cases.plot_response_envelope")
    for n in (1, 3):
        def resp(n=n):
            it, st = cx.interp(tol0=True), State()
            cv = Canvas(it)
            x = [const(i) * h for i in range(4)]
            B = [[sym(f"b{i}_{j}", None) for j in range(4)] for i in range(n)]
            lo, hi = [sym(f"lo{j}", None) for j in range(4)], [sym(f"hi{j}", None) for j in range(4)]
            it.analyze_call("load_cases.plot_response_envelope", [arr(st, x), st.new(Arr((n, 4), [v for r in B for v in r])), arr(st, lo), arr(st, hi)], {"show": alg.FALSE}, st=st)
            k = one_axes(cx, rule, "responses", cv, site)
            if k is not None:
                w = {f"case {i + 1}": (x, B[i]) for i in range(n)}
                w.update({"least": (x, lo), "greatest": (x, hi)})
                panel(cx, rule, f"responses of {n} cases", cv, k, w, False, site)
        cx.guard(rule, f"responses of {n} cases", resp, site)
    patterns(cx)
    shapes(cx)
    plastics(cx)
    sections_(cx)
    tendon(cx)
    vehicles(cx)
    reactions(cx)


def spans_of(m):
    """[(start, width)] of a broken bar mark"""
    return [tuple(as_num(v) for v in q) for q in m.args[0]]


def patterns(cx):
    rule = "load pattern figures"
    site = cx.loc("load_cases.plot_load_patterns")
    L0, L1 = sym("L0"), sym("L1")
    w = sym("w", None)
    rows = {"full": ([const(2), const(1), w], (L0, L1)), "partial": ([const(1), const(3), w, L0 / const(4), L0 / const(2)], (L0 / const(4), L0 / const(2))),
            "trapezoidal": ([const(2), const(5), w, w + const(1), L1 / const(3), L1 / const(3)], (L0 + L1 / const(3), L1 / const(3))),
            "trapezoidal over the span": ([const(1), const(5), w, w + const(1)], (ZERO, L0)),
            "past the end": ([const(1), const(3), w, L0 / const(2), L0], (L0 / const(2), L0 / const(2)))}
    cases = [[k] for k in rows] + [["full", "partial"], ["trapezoidal", "past the end", "full"]]

    def go():
        it, st = cx.interp(tol0=True), State()
        cv = Canvas(it)
        ba = build(it, st, Fin([]))
        lcs = lst(st, [LMv(st, [rows[k][0] for k in c]) for c in cases])
        it.analyze_call("load_cases.plot_load_patterns", [ba, lcs], {"show": alg.FALSE}, st=st)
        k = one_axes(cx, rule, "patterns", cv, site)
        if k is None:
            return
        marks = cv.of(k, "broken_barh")
        for j, c in enumerate(cases):
            nm = "row of " + " and ".join(c)
            mine = [m for m in marks if compare(as_num(m.args[1][0]), const(j) - const(Fraction(3, 10)))[0] == "ok"]
            base = [(ZERO, L0), (L0, L1)]
            want = [rows[q][1] for q in c]
            same_ = lambda a, b: len(a) == len(b) and all(any(all(compare(p, q)[0] == "ok" for p, q in zip(x, y)) for y in b) for x in a)
            got = [spans_of(m) for m in mine]
            if any(m.pc.k != "T" for m in mine):
                cx.und(rule, nm, "drawn conditionally", site)
                continue
            verdict(cx, any(same_(g, want) for g in got), rule, nm, f"drawn {[[tuple(map(alg.show, t)) for t in g] for g in got]}, wanted {[tuple(map(alg.show, t)) for t in want]}", site)
            verdict(cx, all(same_(g, want) or same_(g, base) for g in got), rule, nm + ": nothing else", f"{len(got)}", site)
    cx.guard(rule, "patterns", go, site)


def shapes(cx):
    rule = "mode shape figures"
    site = cx.loc("modal.ModalResults.plot_modes")
    for modes in (None, 0, 2, (1, 2), (2, 0)):
        def go(modes=modes):
            it, st = cx.interp(tol0=True), State()
            cv = Canvas(it)
            x = [ZERO, sym("h"), const(2) * sym("h"), const(3) * sym("h")]
            # displacements of definite size: mode m is largest at node 1 + m % 3 with sign (-1)^m
            amp = lambda m, i: (sym("u") * const(9) if i == 1 + m % 3 else sym("u") * const(i + 1)) * const((-1) ** m)
            phi = [[amp(m, r // 2) if r % 2 == 0 else sym(f"t{r}_{m}", None) for m in range(4)] for r in range(8)]
            r = it.new("modal.ModalResults", st, arr(st, [const(m + 1) for m in range(4)]), st.new(Arr((8, 4), [v for q in phi for v in q])), arr(st, x))
            a = {} if modes is None else {"modes": const(modes) if isinstance(modes, int) else lst(st, ints(*modes))}
            it.meth(r, "plot_modes", st, **a)
            k = one_axes(cx, rule, f"modes {modes}", cv, site)
            if k is None:
                return
            ms = [0] if modes is None else [modes] if isinstance(modes, int) else list(modes)
            w = {f"mode {m + 1}": (x, [ONE if i == 1 + m % 3 else const(Fraction(i + 1, 9)) for i in range(4)]) for m in ms}
            panel(cx, rule, f"modes {modes}", cv, k, w, False, site)
            for c in cv.curves(k):
                lab = c[2].kw.get("label")
                for m in ms:
                    if both(c, w[f"mode {m + 1}"]) == "ok" and isinstance(lab, K):
                        verdict(cx, any(f"ode {m + 1}" in str(lab.v) for m in ms if both(c, w[f"mode {m + 1}"]) == "ok"), rule, f"modes {modes}: name of mode {m + 1}", f"{lab!r}", site)
        cx.guard(rule, f"modes {modes}", go, site)


def nresult(it, st, collapsed=True, moving=False):
    x = [ZERO, const(2), const(5), const(8), const(10)]
    mk = lambda et, lam, i: it.new("nonlinear.HingeEvent", st, lam, x[i], const(i), K(et))
    ev = [mk("initial_yield", sym("la"), 1), mk("plastic_hinge", sym("lb"), 1), mk("initial_yield", sym("lc"), 3), mk("plastic_hinge", sym("ld"), 3)]
    dv = [ZERO, const(-3), const(2), const(4), ZERO]
    d = [v for p in zip(dv, [sym(f"th{i}", None) for i in range(5)]) for v in p]
    H = [[sym(f"m{k}_{i}", None) for i in range(5)] for k in range(2)]
    r = it.new("nonlinear.NonlinearResult", st, const(7) if moving else sym("lam"), TRUE if collapsed else alg.FALSE, lst(st, ev), arr(st, x), arr(st, [sym(f"mf{i}", None) for i in range(5)]), NONE,
               support_coords=arr(st, [x[0], x[2], x[4]]), moment_history=lst(st, [arr(st, q) for q in H]), final_displacements=arr(st, d))
    return r, x, dv, H


def plastics(cx):
    rule = "plastic analysis figures"
    site = cx.loc("nonlinear.NonlinearResult.plot_moments")
    lb = labels("US-ft")

    def mom(Mp):
        nm = f"plot_moments{', Mp given' if Mp else ''}"

        def go():
            it, st = cx.interp(tol0=True), State()
            cv = Canvas(it)
            r, x, dv, H = nresult(it, st)
            it.meth(r, "plot_moments", st, units=K("US-ft"), **({"Mp": sym("Mp")} if Mp else {}))
            k = one(cx, "a panel for every effect", nm, cv, lb["M"], site)
            if k is None:
                return
            w = {f"snapshot {i}": (x, H[i]) for i in range(2)}
            w["final"] = (x, [sym(f"mf{i}", None) for i in range(5)])
            panel(cx, rule, nm, cv, k, w, True, site)
            hl = [as_num(m.args[0]) for m in cv.of(k, "axhline")]
            if Mp:
                verdict(cx, len(hl) == 2 and all(any(compare(a, b)[0] == "ok" for a in hl) for b in (sym("Mp"), -sym("Mp"))), rule, f"{nm}: capacity lines", f"{[alg.show(v) for v in hl]}", site)
        cx.guard(rule, nm, go, site)
    mom(False)
    mom(True)

    def hist():
        it, st = cx.interp(tol0=True), State()
        cv = Canvas(it)
        r, x, dv, H = nresult(it, st)
        it.meth(r, "plot_hinge_history", st)
        k = one_axes(cx, rule, "plot_hinge_history", cv, site)
        if k is not None:
            L = x[-1]
            panel(cx, rule, "plot_hinge_history", cv, k, {"initial yield": ([x[1], x[3]], [sym("la"), sym("lc")]), "plastic hinge": ([x[1], x[3]], [sym("lb"), sym("ld")])}, False, site, extra_ok=[([ZERO, L], [ONE, ONE])])
    cx.guard(rule, "plot_hinge_history", hist, site)

    for scale in (None, 3):
        def col(scale=scale):
            nm = f"plot_collapse, scale {scale}"
            it, st = cx.interp(tol0=True), State()
            cv = Canvas(it)
            r, x, dv, H = nresult(it, st)
            it.meth(r, "plot_collapse", st, **({"scale": const(scale)} if scale else {}))
            k = one_axes(cx, rule, nm, cv, site)
            if k is None:
                return
            f = const(scale) if scale else const(Fraction(12, 100)) * const(10) / const(4)
            w = {"deflected shape": (x, [v * f for v in dv]), "plastic hinges": ([x[1], x[3]], [dv[1] * f, dv[3] * f]), "supports": ([x[0], x[2], x[4]], [ZERO] * 3)}
            panel(cx, rule, nm, cv, k, w, False, site)
        cx.guard(rule, f"plot_collapse, scale {scale}", col, site)

    def state():
        nm = "plot_beam_state"
        it, st = cx.interp(tol0=True), State()
        cv = Canvas(it)
        r, x, dv, H = nresult(it, st, moving=True)
        v = truck(it, st, [const(4), const(5)], [const(10), const(20), const(30)])
        it.meth(r, "plot_beam_state", st, vehicle=v)
        k = one_axes(cx, rule, nm, cv, site)
        if k is None:
            return
        # the front axle stands at 7: axles at 7 and 3, the third has not reached the beam
        at = [as_num(m.kw["xy"][0]) for m in cv.of(k, "annotate") if "xy" in m.kw]
        verdict(cx, len(at) == 2 and all(any(compare(a, const(b))[0] == "ok" for a in at) for b in (7, 3)), rule, f"{nm}: axles on the beam", f"{[alg.show(a) for a in at]}", site)
        tx = {(alg.show(as_num(m.args[0])), m.args[2].v) for m in cv.of(k, "text") if len(m.args) > 2 and isinstance(m.args[2], K)}
        if len(tx) == 2:
            verdict(cx, tx == {("7", "10"), ("3", "20")}, rule, f"{nm}: axle loads", f"{tx}", site)
        else:
            cx.und(rule, f"{nm}: axle loads", f"{tx}", site)
        sc = [strip(m.args[0]) for m in cv.of(k, "scatter")]
        verdict(cx, all(alike(q, [x[1], x[3]]) == "ok" for q in sc) and len(sc) == 2, rule, f"{nm}: hinges", f"{sc}", site)
    cx.guard(rule, "plot_beam_state", state, site)


def sections_(cx):
    rule = "section rigidity figure"
    site = cx.loc("section.SectionEI.plot")

    def go():
        it, st = cx.interp(tol0=True), State()
        cv = Canvas(it, True)
        a, b, c = sym("Ea"), sym("Ea") + sym("Eb"), sym("Ea") + sym("Eb") + sym("Ec")
        s = it.new("section.SectionEI", st)
        it.meth(s, "add_segment", st, K("const"), lst(st, [ZERO, const(2)]), a)
        it.meth(s, "add_segment", st, K("linear"), lst(st, [const(2), const(8)]), lst(st, [b, c]))
        it.meth(s, "plot", st, n=const(12), annotate=alg.FALSE)
        k = one_axes(cx, rule, "plot", cv, site)
        if k is None:
            return
        cs = [(strip(q[0]), strip(q[1])) for q in cv.curves(k)]
        f = lambda x, e: a if (x < 2 or x == 2 and e == "left") else b + (c - b) * const(Fraction(x - 2, 6))
        seen = set()
        for xs, ys in cs:
            if xs is None or ys is None or any(not x.is_const() for x in xs):
                cx.und(rule, "curve", "stations not enumerated", site)
                continue
            X = [x.const() for x in xs]
            if len(set(X)) == 1:            # the riser of a step
                verdict(cx, X[0] == 2 and {alg.show(y) for y in ys} == {alg.show(a), alg.show(b)}, rule, "step", f"at {X[0]}: {[alg.show(y) for y in ys]}", site)
                continue
            seen.update(X)
            for x, y in zip(X, ys):
                e = "left" if max(X) <= 2 else "right"
                cx.eq(rule, f"value at {x} ({e})", y, f(x, e), site)
        verdict(cx, {0, 2, 8} <= seen, rule, "the whole section is drawn", f"{sorted(map(str, seen))}", site)
    cx.guard(rule, "plot", go, site)


def tendon(cx):
    rule = "tendon figure"
    site = cx.loc("prestress.plot_tendon")

    def go():
        from .tendons import par3, lin
        it, st = cx.interp(tol0=True), State()
        cv = Canvas(it, True)
        ba = it.new(BA, st, lst(st, [const(8), const(12)]), lst(st, [sym("EI")] * 2), lst(st, ints(-1, 0, -1, 0, -1, 0)))
        el, em, er = sym("ea"), sym("ea") + sym("eb") + sym("ec"), sym("eb")
        p0 = it.new("prestress.Parabola", st, e_left=el, e_mid=em, e_right=er)
        p1 = it.new("prestress.Harp", st, e_left=er, e_mid=em, e_right=el, a=const(5))
        drawn = []
        given = LMv(st, [[const(1), const(1), sym("qb", None)]])
        it.hooks["prestress.equivalent_loads"] = lambda it, st, full, kw: given

        def rend(it, st, full, kw):
            drawn.append((it.getattr(full[0], "LM", st), kw.get("ax", full[1] if len(full) > 1 else NONE)))
            return NONE
        it.hooks["render.BeamPlotter.render_mpl"] = rend
        it.analyze_call("prestress.plot_tendon", [ba, sym("F"), lst(st, [p0, p1])], st=st)
        f0 = par3(ZERO, el, const(4), em, const(8), er)
        ks = [k for k in cv.panels if isinstance(cv.label(k), K) and "ccentricity" in str(cv.label(k).v)]
        if len(ks) != 1:
            return cx.bad(rule, "panel of the eccentricity", f"{len(ks)} panels", site)
        k = ks[0]
        inv = cv.inverted(k)
        verdict(cx, inv is True, rule, "positive eccentricity below the centroid", f"inverted: {inv}", site)
        cover = []
        for q in cv.curves(k):
            xs, ys = strip(q[0]), strip(q[1])
            if ys is None or xs is None or zero_line(q):
                continue
            for x, y in zip(xs, ys):
                if not x.is_const():
                    raise Unsup("station of the drape")
                v = x.const()
                first = xs[-1].const() <= 8
                w = f0(x) if first else lin(const(8), er, const(13), em)(x) if v <= 13 else lin(const(13), em, const(20), el)(x)
                cx.eq(rule, f"eccentricity at {float(v):.3f}{'' if first else ' (second span)'}", y, w, site)
                cover.append(v)
        verdict(cx, {0, 8, 20} <= set(cover), rule, "the whole tendon is drawn", f"{len(cover)} points", site)
        verdict(cx, any(d[0] == given or st.cell(d[0]) is not None and entries_same(st, d[0], given) for d in drawn), rule, "equivalent loads drawn", f"{len(drawn)} schematics", site)
    cx.guard(rule, "plot_tendon", go, site)


def entries_same(st, a, b):
    from .loads import entries_of
    A, B = entries_of(st, a), entries_of(st, b)
    return len(A) == len(B) and all(not heap.diff(st, x, st, y) for x, y in zip(A, B))


def vehicles(cx):
    rule = "vehicle figure"
    site = cx.loc("vehicle.plot_vehicle")
    for w in ((10, 25, 5), (-4, 12, 12)):
        def go(w=w):
            it, st = cx.interp(tol0=True), State()
            cv = Canvas(it)
            v = truck(it, st, [const(3), const(6)], [const(x) for x in w])
            it.analyze_call("vehicle.plot_vehicle", [v], {"units": K("US-ft"), "show": alg.FALSE}, st=st)
            k = one_axes(cx, rule, f"axles {w}", cv, site)
            if k is None:
                return
            X = [0, 3, 9]
            ar = [(as_num(m.kw["xy"][0]), as_num(m.kw["xytext"][1])) for m in cv.of(k, "annotate") if "xytext" in m.kw]
            verdict(cx, len(ar) == 3 and all(compare(a[0], const(x))[0] == "ok" for a, x in zip(sorted(ar, key=lambda q: q[0].const()), X)), rule, f"axles {w}: positions", f"{[alg.show(a[0]) for a in ar]}", site)
            for m in cv.of(k, "text"):
                x = as_num(m.args[0])
                t = m.args[2] if len(m.args) > 2 else m.kw.get("s")
                i = next((i for i in range(3) if compare(x, const(X[i]))[0] == "ok"), None)
                if i is None:
                    cx.bad(rule, f"axles {w}: load label", f"{t!r} at {alg.show(x)}", site)
                else:
                    says_label(cx, rule, f"axles {w}: load label {i}", t, f"{w[i]} kip", site)
            t = cv.label(k, "set_title")
            if isinstance(t, K):
                verdict(cx, f"{sum(w)} kip" in t.v and "9 ft" in t.v, rule, f"axles {w}: total and wheelbase", f"{t!r}", site)
            else:
                cx.und(rule, f"axles {w}: total and wheelbase", f"{t!r}", site)
            if len(ar) == 3:
                hs = [a[1] for a in sorted(ar, key=lambda q: q[0].const())]
                big = max(abs(x) for x in w)
                verdict(cx, all(h_.is_const() for h_ in hs) and all((hs[i].const() >= hs[j].const()) for i in range(3) for j in range(3) if abs(w[i]) >= abs(w[j])), rule, f"axles {w}: arrow heights follow the loads", f"{[alg.show(h_) for h_ in hs]}", site)
        cx.guard(rule, f"axles {w}", go, site)


def reactions(cx):
    """reaction arrows: at the node, along the force, with its magnitude"""
    rule = "reaction figure"
    site = cx.loc(f"{BA}.plot_reactions")
    for meth in ("plot_reactions", "plot_results"):
        def go(meth=meth):
            it, st = cx.interp(tol0=True), State()
            cv = Canvas(it)
            # restrained: v0, t0, v1, v3 ; sprung: v2
            ba = it.new(BA, st, lst(st, [const(4), const(6), const(5)]), lst(st, [sym("EI")] * 3), lst(st, [const(-1), const(-1), const(-1), ZERO, sym("ks"), ZERO, const(-1), ZERO]))
            z = [ZERO, ZERO]
            res = result_set(it, st, [dict(x=z, M=z, V=z, R=z, D=z)] * 3, [const(12), const(-7), const(-3), ZERO])
            it.setattr(res, "Rs", arr(st, [const(5)]), st)
            st.w(ba).attrs["_beam_results"] = res
            it.hooks["render.BeamPlotter.render_mpl"] = lambda it, st, a, k: st.w(a[0]).attrs.__setitem__("_us", it.analyze_call("units.resolve", [K("US-ft")], st=st)[0]) or NONE
            moments = []
            it.hooks["render.BeamPlotter._draw_moment_mpl"] = lambda it, st, a, k: moments.append((as_num(it.getattr(a[2], "x", st)), as_num(it.getattr(a[2], "M", st)))) or NONE
            if meth == "plot_results":
                it.hooks["beam.Beam.plot"] = lambda it, st, a, k: NONE
                it.hooks["results.BeamResults.deflection_curve"] = lambda it, st, a, k: Tup([arr(st, z), arr(st, z)])
            it.meth(ba, meth, st, units=K("US-ft"), show=alg.FALSE)
            ks = [k for k in cv.panels if cv.of(k, "annotate")]
            if len(ks) != 1:
                return cx.bad(rule, f"{meth}: axes with arrows", f"{len(ks)}", site)
            ar = {}
            for m in cv.of(ks[0], "annotate"):
                x = as_num(m.kw["xy"][0])
                up = alg.sign(as_num(m.kw["xy"][1]) - as_num(m.kw["xytext"][1]))
                ar[alg.show(x)] = up
            want = {"0": 1, "4": -1, "10": 1}
            verdict(cx, ar == want, rule, f"{meth}: arrows", f"{ar}, wanted {want} (no arrow where the reaction is zero)", site)
            tx = {alg.show(as_num(m.args[0])): m.args[2] for m in cv.of(ks[0], "text")}
            for x, t in (("0", "12 kip"), ("4", "3 kip"), ("10", "5 kip")):
                says_label(cx, rule, f"{meth}: magnitude at {x}", tx.get(x), t, site)
            verdict(cx, len(moments) == 1 and alg.is_zero(moments[0][0]) and compare(moments[0][1], const(-7))[0] == "ok", rule, f"{meth}: moment reaction", f"{[(alg.show(a), alg.show(b)) for a, b in moments]}", site)
        cx.guard(rule, meth, go, site)


def unit_systems(cx):
    site = cx.loc("units.resolve")
    rule = "unit systems"
    names = ("force", "length", "moment", "distributed", "disp_label", "disp_scale")
    for u, w in UNITS.items():
        def go(u=u, w=w):
            it, st = cx.interp(), State()
            us, st = it.analyze_call("units.resolve", [kv(u)], st=st)
            for a, v in zip(names, w):
                g = it.getattr(us, a, st)
                if isinstance(v, str):
                    says_label(cx, rule, f"{u}: {a}", g, v, site)
                else:
                    cx.eq(rule, f"{u}: {a}", g, const(v), site)
            lb = labels(u)
            for a, e in (("moment_axis", "M"), ("shear_axis", "V"), ("deflection_axis", "D"), ("distance_axis", "x")):
                says_label(cx, rule, f"{u}: {a}", it.getattr(us, a, st), lb[e], site)
        cx.guard(rule, f"{u}", go, site)


def defaults(cx):
    """a default set for the session is what figures without their own choice use"""
    rule = "session defaults"
    site = cx.loc("units.set_units")
    names = ("force", "length", "moment", "distributed", "disp_label", "disp_scale")

    def same(nm, us, st, it, w):
        for a, v in zip(names, w):
            g = it.getattr(us, a, st)
            if isinstance(v, str):
                says_label(cx, rule, f"{nm}: {a}", g, v, site)
            else:
                cx.eq(rule, f"{nm}: {a}", g, const(v), site)
    us_names = [u for u in UNITS if u]
    for first, u in zip(us_names[1:] + us_names[:1], us_names):
        def go(first=first, u=u):
            it, st = cx.interp(), State()
            call = lambda q, *a: it.call(FnV(it.prog.func(q)), list(a), {}, st)
            call("units.set_units", K(first))
            r = call("units.set_units", K(u))
            same(f"{u} set after {first}: answer", r, st, it, UNITS[u])
            same(f"{u} set after {first}: current", call("units.get_units"), st, it, UNITS[u])
            same(f"{u} set after {first}: no units asked for", call("units.resolve", NONE), st, it, UNITS[u])
            same(f"{u} set after {first}: {first} asked for", call("units.resolve", K(first)), st, it, UNITS[first])
            same(f"{u} set after {first}: a system handed in", call("units.resolve", r), st, it, UNITS[u])
            same(f"{u} set after {first}: still current", call("units.get_units"), st, it, UNITS[u])
        cx.guard(rule, f"{u} after {first}", go, site)
    for bad in ("furlong", "s i", "mm-n", "si2"):
        from .loads import rejects
        for f in ("set_units", "resolve"):
            it = cx.interp()
            rejects(cx, it, f"units.{f} {bad!r}", lambda st, it=it, f=f, bad=bad: it.call(FnV(it.prog.func(f"units.{f}")), [K(bad)], {}, st), site)
    bs = cx.loc("plotting.set_backend")

    def backend():
        it, st = cx.interp(), State()
        Canvas(it)
        call = lambda q, *a: it.call(FnV(it.prog.func(q)), list(a), {}, st)

        def text(nm, v, want):
            says_label(cx, rule, nm, v, want, bs)
        text("backend before any choice", call("plotting.get_backend"), "matplotlib")
        for a, b in (("plotly", "matplotlib"), ("matplotlib", "plotly"), ("Plotly", "matplotlib"), ("MATPLOTLIB", "plotly")):
            call("plotting.set_backend", K(a))
            text(f"backend {a} set", call("plotting.get_backend"), a.lower())
            text(f"backend {a} set, none asked for", call("plotting.resolve_backend", NONE), a.lower())
            text(f"backend {a} set, {b} asked for", call("plotting.resolve_backend", K(b)), b)
            text(f"backend {a} set, still", call("plotting.get_backend"), a.lower())
    cx.guard(rule, "backend", backend, bs)
    for f in ("set_backend", "resolve_backend"):
        it = cx.interp()
        Canvas(it)
        rejects(cx, it, f"plotting.{f} 'gnuplot'", lambda st, it=it, f=f: it.call(FnV(it.prog.func(f"plotting.{f}")), [K("gnuplot")], {}, st), bs)
    # a figure drawn after the defaults have changed
    for u, b in (("US-ft", "matplotlib"), ("N-mm", "plotly"), ("us-in", "matplotlib")):
        def fig(u=u, b=b):
            it, st, cv, ba = analysed(cx)
            call = lambda q, *a: it.call(FnV(it.prog.func(q)), list(a), {}, st)
            call("units.set_units", K(u))
            call("plotting.set_backend", K(b))
            r = results_of(it, st, ba)
            lb = labels(u)
            it.meth(ba, "plot_dsd", st)
            nm = f"deflections drawn with the defaults {u}, {b}"
            verdict(cx, bool(cv.panels), rule, f"{nm}: drawn", f"{len(cv.panels)} panels", site)
            k = one(cx, "a panel for every effect", nm, cv, lb["D"], site)
            if k is not None:
                panel(cx, rule, nm, cv, k, {"D": (r["xD"], [v * lb["k"] for v in r["DD"]])}, False, site)
        cx.guard(rule, f"figure, {u}, {b}", fig, site)


def animation(cx):
    """each frame of the animated crossing shows its own position and the envelope reached by then"""
    rule = "animation frames"
    site = cx.loc("bridge.BridgeAnalysis.animate")
    h = sym("h")
    nodes = [ZERO, const(4) * h, const(10) * h]
    for orders in itertools.permutations(range(3)):
        for give in ({}, dict(pos_start=const(2) * h, pos_end=const(4) * h)):
            def go(orders=orders, give=give):
                nm = f"order {orders}, {'given' if give else 'whole'} range"
                it, st = cx.interp(tol0=True), State()
                cv = Canvas(it)
                anim = []
                base = it.npm.call_ext

                def call_ext(name, args, kw, s):
                    if name.split(".")[-1] == "FuncAnimation":
                        anim.append((list(args), dict(kw)))
                        return Opq("animation")
                    return base(name, args, kw, s)
                it.npm.call_ext = call_ext
                ba = deck(it, st, nodes)
                br = it.new("bridge.BridgeAnalysis", st, ba, truck(it, st, [], [sym("w0", None)]))
                xs = [ZERO, ZERO, const(4) * h, const(4) * h]
                R, val = [], {}
                for k, o in enumerate(orders):
                    up = lambda t: sum((sym(f"{t}{q}") for q in range(o + 1)), ZERO)
                    # station 1 ranks the positions one way, station 2 the other; moments and shears differ
                    m = dict(x=xs, M=[ZERO, up("m"), -up("n"), ZERO], V=[ZERO, -up("v"), up("z"), ZERO], R=[ZERO] * 4, D=[ZERO] * 4)
                    val[k] = m
                    R.append(result_set(it, st, [m], [ZERO, ZERO]))
                P = [const(k + 2) * h for k in range(3)]
                asked = []

                def run(it_, s, full, kw):
                    asked.append((list(full[1:]), dict(kw)))
                    it.setattr(full[0], "pos", lst(s, P), s)
                    it.setattr(full[0], "vResults", lst(s, R), s)
                    return NONE
                it.hooks["bridge.BridgeAnalysis.run_vehicle"] = run
                it.hooks["render.BeamPlotter.render_mpl"] = lambda it_, s, a, k: NONE
                it.meth(br, "animate", st, h, units=K("US-ft"), **give)
                if len(asked) != 1:
                    raise Unsup(f"{len(asked)} crossings run")
                a, kw = asked[0]
                got = dict(zip(("step", "plot_env", "pos_start", "pos_end"), a))
                got.update(kw)
                cx.eq(rule, f"{nm}: step of the crossing", as_num(got.get("step", NONE)), h, site)
                for q in ("pos_start", "pos_end"):
                    if q in give and got.get(q, NONE) == NONE:
                        cx.bad(rule, f"{nm}: {q} of the crossing", "not passed on", site)
                    elif q in give:
                        cx.eq(rule, f"{nm}: {q} of the crossing", as_num(got.get(q, NONE)), give[q], site)
                    else:
                        verdict(cx, got.get(q, NONE) == NONE, rule, f"{nm}: {q} of the crossing", f"{got.get(q)!r}", site)
                if len(anim) != 1 or len(anim[0][0]) < 2 and "func" not in anim[0][1]:
                    raise Unsup("animation not found")
                args, kw = anim[0]
                f = args[1] if len(args) > 1 else kw["func"]
                fr = args[2] if len(args) > 2 else kw.get("frames", NONE)
                if isinstance(fr, Poly):
                    cx.eq(rule, f"{nm}: number of frames", fr, const(3), site)
                lb = labels("US-ft")
                for i in (0, 1, 2, 1):
                    cv.log = []
                    it.call(f, [const(i)], {}, st)
                    for e in "MV":
                        k = one(cx, "a panel for every effect", f"{nm}, frame {i}", cv, lb[e], site)
                        if k is None:
                            continue
                        sg = -1 if e == "M" and not cv.inverted(k) else 1
                        y = lambda q: [const(sg) * v for v in val[q][e]]
                        far = lambda pick: [pick(range(i + 1), j) for j in range(4)]
                        best = lambda ks, j, s: max(ks, key=lambda q: s * sg * (orders[q] + 1) * (1 if e == "M" and j == 1 or e == "V" and j == 2 else -1)) if j in (1, 2) else 0
                        hi = [y(best(range(i + 1), j, 1))[j] for j in range(4)]
                        lo = [y(best(range(i + 1), j, -1))[j] for j in range(4)]
                        panel(cx, rule, f"{nm}, frame {i}: {e}", cv, k, {e: (xs, y(i)), "greatest so far": (xs, hi), "least so far": (xs, lo)}, None, site)
            cx.guard(rule, f"{orders} {sorted(give)}", go, site)


def mode_results(cx):
    rule = "mode shape figures"
    site = cx.loc("modal.ModalResults.plot_results")
    for modes in (None, 1, (0, 2)):
        def go(modes=modes):
            it, st = cx.interp(tol0=True), State()
            cv = Canvas(it)
            it.hooks["render.BeamPlotter.render_mpl"] = lambda it_, s, a, k: NONE
            it.hooks["beam.Beam.plot"] = lambda it_, s, a, k: NONE
            h = sym("h")
            x = [ZERO, h, const(2) * h, const(3) * h]
            amp = lambda m, i: (sym("u") * const(9) if i == 1 + m % 3 else sym("u") * const(i + 1)) * const((-1) ** m)
            phi = [[amp(m, r // 2) if r % 2 == 0 else sym(f"t{r}_{m}", None) for m in range(4)] for r in range(8)]
            b = it.getattr(deck(it, st, [ZERO, const(3) * h]), "beam", st)
            r = it.new("modal.ModalResults", st, arr(st, [const(m + 1) for m in range(4)]), st.new(Arr((8, 4), [v for q in phi for v in q])), arr(st, x), b)
            a = {} if modes is None else {"modes": const(modes) if isinstance(modes, int) else lst(st, ints(*modes))}
            it.meth(r, "plot_results", st, **a)
            ks = [k for k in cv.panels if cv.curves(k)]
            if len(ks) != 1:
                return verdict(cx, False, rule, f"plot_results, modes {modes}: panel of the shapes", f"{len(ks)} panels with curves", site)
            ms = [0, 1, 2] if modes is None else [modes] if isinstance(modes, int) else list(modes)
            w = {f"mode {m + 1}": (x, [ONE if i == 1 + m % 3 else const(Fraction(i + 1, 9)) for i in range(4)]) for m in ms}
            panel(cx, rule, f"plot_results, modes {modes}", cv, ks[0], w, False, site)
        cx.guard(rule, f"plot_results, modes {modes}", go, site)
