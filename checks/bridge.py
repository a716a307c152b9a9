"""F: moving vehicles, influence lines, vehicle definitions."""
import itertools
from .cases import *  # noqa
from .cases import st_list
from .envelopes import arr, data, result_set, EFF
from .loads import lst, LMv, ints, rejects, entries_of
from sa import heap
from sa.interp import Raised
from fractions import Fraction


# ----------------------------------------------------------- stand-in analysis
def rows_of(it, st, b):
    LM = it.getattr(b, "loads", st)
    out = []
    for r in entries_of(st, LM):
        out.append([as_num(x) for x in st_list(it, st, r)])
    return out


def crossing_hook(log, nst=3, fail=None, raises=None):
    """stand-in for one analysis: records the loads on the deck and the armed shear
    points, and produces results that are distinct symbols for each call"""
    def analyze(it, st, full, kw):
        ba = full[0]
        b = it.getattr(ba, "beam", st)
        k = len(log)
        Ls = [as_num(x) for x in st_list(it, st, it.getattr(b, "mbr_lengths", st))]
        log.append(dict(ba=ba, rows=rows_of(it, st, b), L=Ls, sp=it.getattr(ba, "shear_points", st), st=snap(st),
                        args=list(full[1:]) + list(kw.values())))
        if raises == k:
            it.raise_event("ValueError", st, st.pc)
            raise Raised("ValueError")
        if fail == k:
            return const(1)
        mem, off = [], ZERO
        for i, L in enumerate(Ls):
            x = [off, off, off + L / const(2), off + L, off + L]
            m = dict(x=x)
            for e in EFF:
                m[e] = [ZERO] + [sym(f"{e}{i}_{j}@{k}", None) for j in range(nst)] + [ZERO]
            mem.append(m)
            off = off + L
        # single-valued result: the crossing cannot mix up two positions
        res = result_set(it, st, mem, [sym(f"Re{j}@{k}", None) for j in range(2)])
        st.w(ba).attrs["_beam_results"] = res
        log[k]["res"] = res
        return ZERO
    return {"analysis.BeamAnalysis.analyze": analyze}


def snap(st):
    return heap.snapshot(st, None)


class Measure:
    """loads on the beam in global coordinates: point loads and intensity jumps;
    rows that are not gravity point/uniform loads are kept by identity"""

    def __init__(self):
        self.P, self.J, self.other = {}, {}, {}

    def _add(self, d, k, v):
        key = k
        n = d.get(key, ZERO) + v
        if alg.is_zero(n):
            d.pop(key, None)
        else:
            d[key] = n

    def point(self, x, w):
        self._add(self.P, canon(x), w)

    def udl(self, a, b, w):
        self._add(self.J, canon(a), w)
        self._add(self.J, canon(b), -w)

    def keep(self, row):
        k = tuple(canon(x) for x in row)
        self.other[k] = self.other.get(k, 0) + 1


def canon(x):
    return alg.topoly(x)


def measure(rows, Ls, out):
    """rows -> Measure; `out` collects rows that leave their member"""
    m = Measure()
    node = [ZERO]
    for L in Ls:
        node.append(node[-1] + L)
    for r in rows:
        if not r[0].is_const() or not r[1].is_const():
            raise Unsup("load row addressing")
        sp, t = int(r[0].const()), int(r[1].const())
        if not 1 <= sp <= len(Ls):
            out.append(f"row addresses member {sp}")
            continue
        x0, L = node[sp - 1], Ls[sp - 1]
        if t == 2:
            if alg.sign(r[3]) == -1 or alg.sign(L - r[3]) == -1:
                out.append(f"point load at {alg.show(r[3], 60)} outside member {sp}")
            m.point(x0 + r[3], r[2])
        elif t == 1:
            m.udl(x0, x0 + L, r[2])
        elif t == 3:
            a, c = r[3], r[4]
            if alg.sign(a) == -1 or alg.sign(c) == -1 or alg.sign(L - a - c) == -1:
                out.append(f"patch {alg.show(a, 60)} + {alg.show(c, 60)} outside member {sp}")
            m.udl(x0 + a, x0 + a + c, r[2])
        else:
            m.keep(r)
    return m


def same_measure(cx, rule, name, got, want, out, site):
    if out:
        return cx.bad(rule, name, "; ".join(out), site)
    bad, und = [], []
    for lab, g, w in (("point load", got.P, want.P), ("intensity change", got.J, want.J)):
        if any(p.has_opaque() if hasattr(p, "has_opaque") else False for p in g):
            und.append("opaque position")
        for k in list(g) + [k for k in w if k not in g]:
            a, b = g.get(k, ZERO), w.get(k, ZERO)
            s, msg = report.compare(a, b)
            if s != "ok":
                (bad if s == "bad" and report.plain(k) else und).append(f"{lab} at x={alg.show(k, 80)}: {alg.show(a, 80)}, should be {alg.show(b, 80)}")
    if got.other != want.other:
        bad.append(f"other rows {len(got.other)} / {len(want.other)}")
    if bad:
        return cx.bad(rule, name, "; ".join(bad)[:600], site)
    if und:
        return cx.und(rule, name, "; ".join(und)[:400], site)
    return cx.ok(rule, name, f"{len(want.P)} point loads, {len(want.J)} intensity changes", site)


# ------------------------------------------------------------ relative placement
def placements(nn, npt, ordered=True, zero=False):
    """every placement of `npt` points (in ascending order) relative to nn nodes:
    list of region indices; region 2i is node i exactly... regions 0..2nn with odd =
    at a node"""
    R = 2 * nn + 1
    for c in itertools.combinations_with_replacement(range(R), npt):
        # two distinct points cannot both lie exactly on the same node
        if any(c[i] == c[i + 1] and c[i] % 2 == 1 for i in range(npt - 1)):
            continue
        yield c


def coords(nn, c):
    """coordinates for a placement; node 0 is the origin.  -> (nodes, points)"""
    seq = []           # labels in ascending order
    for reg in range(2 * nn + 1):
        here = [("p", i) for i, r in enumerate(c) if r == reg]
        if reg % 2 == 1:
            seq.append([("n", reg // 2)] + here)
        else:
            seq += [[h] for h in here]
    z = [i for i, s in enumerate(seq) if ("n", 0) in s][0]
    pos = {}
    acc = ZERO
    for i in range(z, len(seq)):
        if i > z:
            acc = acc + sym(f"g{i - z}")
        for s in seq[i]:
            pos[s] = acc
    acc = ZERO
    for i in range(z - 1, -1, -1):
        acc = acc - sym(f"b{z - i}")
        for s in seq[i]:
            pos[s] = acc
    return [pos[("n", i)] for i in range(nn)], [pos[("p", i)] for i in range(len(c))]


def deck(it, st, nodes, R=None, LM=None, **kw):
    Ls = [b - a for a, b in zip(nodes, nodes[1:])]
    n = len(Ls)
    R = R or [const(-1), ZERO] * (n + 1)
    if LM is not None:
        kw["LM"] = LM
    return it.new("analysis.BeamAnalysis", st, lst(st, Ls), lst(st, [sym(f"E{i}") for i in range(n)]), R=lst(st, R), **kw)


def truck(it, st, spac, ws):
    return it.new("vehicle.Vehicle", st, arr(st, spac), arr(st, ws))


def on(nodes, c):
    return [1 <= r <= 2 * len(nodes) - 1 for r in c]


def want_axles(m, nodes, pts, c, ws):
    for x, r, w in zip(pts, c, ws):
        if 1 <= r <= 2 * len(nodes) - 1:
            m.point(x, w)
    return m


from sa import report  # noqa: E402


@prop("F01", floor=150, rule="At every vehicle position the loads handed to the analysis are, as a measure on the deck, the beam's own loads plus each axle at (front position - its offset) when it is on the deck (every interleaving of axles and nodes, ties included) plus the lane load on the whole deck or outside [rear - back, front + front clearance] (every interleaving of zone ends and nodes); positions are start + i step from the documented defaults, one stored result per position in order; afterwards (also after a failing analysis) the beam carries its own loads again and no shear points are armed; shear points resolve to every requested on-deck section.")
def f01(cx):
    hooks_log = []
    it = cx.interp(tol0=True)
    place(cx, it)
    lane(cx, it)
    traverse(cx, it)
    after(cx, it)
    shear(cx, it)


def use(it, log, **kw):
    it.hooks.update(crossing_hook(log, **kw))


def place(cx, it):
    site = cx.loc("bridge.BridgeAnalysis._axle_LM")
    for nn, npt, kinds in ((3, 1, ("static", "run")), (3, 2, ("static", "run")), (2, 3, ("static",)), (4, 2, ("static",))):
        for c in placements(nn, npt):
            for kind in kinds:
                name = f"{nn - 1} spans, {npt} axles in regions {','.join(map(str, c))} ({kind})"

                def go(c=c, kind=kind, name=name, nn=nn, npt=npt):
                    log = []
                    use(it, log)
                    st = State()
                    nodes, pts = coords(nn, c)
                    ws = [sym(f"w{i}", None) for i in range(npt)]
                    own = sym("own", None)
                    ba = deck(it, st, nodes, LM=LMv(st, [ints(1, 1) + [own]]))
                    # points ascend, so the front axle is the last one
                    ax = list(reversed(pts))
                    veh = truck(it, st, [a - b for a, b in zip(ax, ax[1:])], list(reversed(ws)))
                    br = it.new("bridge.BridgeAnalysis", st, ba, veh)
                    if kind == "static":
                        r = it.meth(br, "static_vehicle", st, ax[0])
                    else:
                        it.meth(br, "run_vehicle", st, const(1), pos_start=ax[0], pos_end=ax[0])
                    if len(log) != 1:
                        return cx.bad("axle loads", name, f"{len(log)} analyses for one position", site)
                    want = want_axles(Measure(), nodes, pts, c, ws)
                    want.udl(ZERO, nodes[1], own)
                    out = []
                    got = measure(log[0]["rows"], log[0]["L"], out)
                    same_measure(cx, "axle loads", name, got, want, out, site)
                    if kind == "static":
                        cx.ok("returned result", name, "", site) if r == log[0]["res"] else cx.bad("returned result", name, f"{r!r}", site)
                cx.guard("axle loads", name, go, site)

    # coincident axles (zero spacing)
    for reg in range(7):
        name = f"2 spans, 2 coincident axles in region {reg}"

        def go(reg=reg, name=name):
            log = []
            use(it, log)
            st = State()
            nodes, pts = coords(3, (reg,))
            ba = deck(it, st, nodes)
            br = it.new("bridge.BridgeAnalysis", st)
            it.meth(br, "set_bridge", st, ba)
            it.meth(br, "add_vehicle", st, arr(st, [ZERO]), arr(st, [sym("w0", None), sym("w1", None)]))
            it.meth(br, "static_vehicle", st, pts[0])
            want = Measure()
            if 1 <= reg <= 5:
                want.point(pts[0], sym("w0", None) + sym("w1", None))
            out = []
            same_measure(cx, "axle loads", name, measure(log[0]["rows"], log[0]["L"], out), want, out, site)
        cx.guard("axle loads", name, go, site)


def lane(cx, it):
    site = cx.loc("bridge.BridgeAnalysis.run_load_model")
    n = 3

    def run(name, nodes, c, pts, ws, clr, zone):
        log = []
        use(it, log)
        st = State()
        own = sym("own", None)
        w = sym("lane", None)
        ba = deck(it, st, nodes, LM=LMv(st, [ints(2, 2) + [own, nodes[2] - nodes[1]]]))
        ax = list(reversed(pts))
        veh = truck(it, st, [a - b for a, b in zip(ax, ax[1:])], list(reversed(ws)))
        br = it.new("bridge.BridgeAnalysis", st, ba, veh)
        it.meth(br, "run_load_model", st, const(1), w, pos_start=ax[0], pos_end=ax[0], **({} if clr is None else {"clearances": clr}))
        if len(log) != 1:
            return cx.bad("lane load", name, f"{len(log)} analyses for one position", site)
        want = want_axles(Measure(), nodes, pts, c, ws)
        want.point(nodes[2], own)
        for a, b in zone:
            want.udl(a, b, w)
        out = []
        same_measure(cx, "lane load", name, measure(log[0]["rows"], log[0]["L"], out), want, out, site)

    ws = [sym("w0", None), sym("w1", None)]
    # no clear zone: the whole deck at every position
    for c in placements(n, 2):
        nodes, pts = coords(n, c)
        name = f"2 spans, axles in regions {','.join(map(str, c))}, no clear zone"
        cx.guard("lane load", name, lambda: run(name, nodes, c, pts, ws, None, [(ZERO, nodes[-1])]), site)
    # clear zone: zone ends and axles in every order relative to the nodes
    for c4 in placements(n, 4):
        nodes, (lo, r, f, hi) = coords(n, c4)
        name = f"2 spans, zone and axles in regions {','.join(map(str, c4))}"
        last = 2 * n - 1
        zone = []
        if c4[0] > 1:
            zone.append((ZERO, lo if c4[0] < last else nodes[-1]))
        if c4[3] < last:
            zone.append((hi if c4[3] > 1 else ZERO, nodes[-1]))
        cx.guard("lane load", name, lambda: run(name, nodes, c4[1:3], [r, f], ws, Tup([r - lo, hi - f]), zone), site)
    # zero clearances clear exactly the wheelbase
    for c in placements(n, 2):
        nodes, (r, f) = coords(n, c)
        name = f"2 spans, axles in regions {','.join(map(str, c))}, zero clearances"
        last = 2 * n - 1
        zone = []
        if c[0] > 1:
            zone.append((ZERO, r if c[0] < last else nodes[-1]))
        if c[1] < last:
            zone.append((f if c[1] > 1 else ZERO, nodes[-1]))
        cx.guard("lane load", name, lambda: run(name, nodes, c, [r, f], ws, Tup([ZERO, ZERO]), zone), site)

    for lab, clr in (("negative back", Tup([-sym("cb"), sym("cf")])), ("negative front", Tup([sym("cb"), -sym("cf")])), ("three values", Tup([sym("cb"), sym("cf"), sym("cf")])),
                     ("a single number", sym("cb"))):
        def go(st, clr=clr):
            use(it, [])
            ba = deck(it, st, [ZERO, sym("L0"), sym("L0") + sym("L1")])
            br = it.new("bridge.BridgeAnalysis", st, ba, truck(it, st, [sym("s")], ws))
            it.meth(br, "run_load_model", st, sym("h"), sym("lane"), pos_start=ZERO, pos_end=ZERO, clearances=clr)
        rejects(cx, it, f"clearances: {lab}", go, site, rule="clearances rejected")


def traverse(cx, it):
    """positions: geometry in multiples of the step"""
    h = sym("h")

    def go(kind, spans, spac, start, end, name, site):
        log = []
        use(it, log)
        st = State()
        nodes = [ZERO]
        for k in spans:
            nodes.append(nodes[-1] + const(k) * h)
        ba = deck(it, st, nodes, LM=LMv(st, [ints(1, 1) + [sym("own", None)]]))
        nax = len(spac) + 1
        ws = [sym(f"w{i}", None) for i in range(nax)]
        veh = truck(it, st, [const(k) * h for k in spac], ws)
        br = it.new("bridge.BridgeAnalysis", st, ba, veh)
        kw = {}
        if start is not None:
            kw["pos_start"] = const(start) * h
        if end is not None:
            kw["pos_end"] = const(end) * h
        s0 = 0 if start is None else start
        e0 = sum(spans) + sum(spac) if end is None else end
        args = [h] if kind == "run_vehicle" else [h, sym("lane", None)]
        for again in (0, 1):
            del log[:]
            env = it.meth(br, kind, st, *args, **kw)
            tag = f"{name}{' (second run)' if again else ''}"
            npos = int(round(float(e0 - s0))) + 1
            if len(log) != npos:
                cx.bad("positions", tag, f"{len(log)} analyses, {npos} positions", site)
                return
            pos = st_list(it, st, it.getattr(br, "pos", st))
            if len(pos) != npos:
                cx.bad("positions", tag, f"{len(pos)} stored positions, {npos} expected", site)
                return
            bounds = [int(x) for x in itertools.accumulate([0] + list(spans))]
            for i in range(npos):
                p = s0 + i
                cx.eq("positions", f"{tag}: position {i}", pos[i], const(p) * h, site)
                want = Measure()
                want.udl(ZERO, nodes[1], sym("own", None))
                off = 0
                for k in range(nax):
                    if k:
                        off += spac[k - 1]
                    if 0 <= p - off <= bounds[-1]:
                        want.point(const(p - off) * h, ws[k])
                if kind == "run_load_model":
                    want.udl(ZERO, nodes[-1], sym("lane", None))
                out = []
                same_measure(cx, "loads at each position", f"{tag}: position {i}", measure(log[i]["rows"], log[i]["L"], out), want, out, site)
            vr = st_list(it, st, it.getattr(br, "vResults", st))
            want = [x["res"] for x in log]
            (cx.ok if vr == want else cx.bad)("results in order", tag, f"{len(vr)} results for {npos} positions", site)
            ev = st_list(it, st, it.getattr(env, "vResults", st)) if not again else None
            if ev is not None:
                (cx.ok if ev == want else cx.bad)("envelope of the crossing", tag, f"{len(ev)} results", site)

    for kind in ("run_vehicle", "run_load_model"):
        site = cx.loc(f"bridge.BridgeAnalysis.{kind}")
        for spans, spac, start, end in (((2, 1), (1,), None, None), ((3,), (), None, None), ((2, 2), (1, 2), None, None), ((3, 2), (2,), 1, None), ((2, 2), (1,), None, 3),
                                        ((2, 2), (1,), -2, 7), ((1, 1, 1), (1,), 2, 3)):
            name = f"{kind} spans {spans} axle gaps {spac} from {'default' if start is None else start} to {'default' if end is None else end}"
            cx.guard("positions", name, lambda: go(kind, spans, spac, start, end, name, site), site)


def after(cx, it):
    """frame condition: whatever happens, the beam ends with its own loads"""
    h = sym("h")
    LA, LB = const(4) * h, const(3) * h
    def setup(st, nload=1):
        nodes = [ZERO, LA, LA + LB]
        ba = deck(it, st, nodes, LM=LMv(st, [ints(1, 1) + [sym("own", None)]]))
        veh = truck(it, st, [], [sym("w0", None)])
        br = it.new("bridge.BridgeAnalysis", st, ba, veh)
        if nload == 2:
            it.meth(ba, "add_pl", st, const(2), sym("late", None), LB / const(3))
        return ba, br

    calls = {"static_vehicle": ([LA / const(2)], {}),
             "run_vehicle": ([h], dict(pos_start=ZERO, pos_end=const(2) * h, dv=None)),
             "run_load_model": ([h, sym("lane", None)], dict(pos_start=ZERO, pos_end=const(2) * h))}

    def ownloads(cx, name, st, ba, nload, site, rule):
        rows = rows_of(it, st, it.getattr(ba, "beam", st))
        m = Measure()
        m.udl(ZERO, LA, sym("own", None))
        if nload == 2:
            m.point(LA + LB / const(3), sym("late", None))
        out = []
        same_measure(cx, rule, name, measure(rows, [LA, LB], out), m, out, site)
        sp = it.getattr(ba, "shear_points", st)
        (cx.ok if sp == NONE else cx.bad)("no shear points left armed", name, f"{sp!r}", site)

    for meth, (args, kw) in calls.items():
        site = cx.loc(f"bridge.BridgeAnalysis.{meth}")
        for nload in (1, 2):
            for mode in ("ok", "ok with shear points", "status", "exception"):
                ks = (0,) if meth == "static_vehicle" else (0, 1, 2)
                for k in (ks if mode in ("status", "exception") else (None,)):
                    name = f"{meth}, {nload} own loads, {mode}{'' if k is None else f' at position {k}'}"

                    def go(meth=meth, args=args, kw=kw, nload=nload, mode=mode, k=k, name=name):
                        log = []
                        st = State()
                        use(it, log, fail=k if mode == "status" else None, raises=k if mode == "exception" else None)
                        ba, br = setup(st, nload)
                        kk = dict(kw)
                        kk.pop("dv", None)
                        if mode != "ok":
                            kk["shear_points"] = LA / const(4)
                        v, exits = it.attempt(lambda: it.meth(br, meth, st, *args, **kk))
                        if mode.startswith("ok"):
                            if exits:
                                und = [e for e in exits]
                                return cx.und("own loads restored", name, f"may fail: {[(e[0], e[1]) for e in exits][:3]}", site)
                            ownloads(cx, name, st, ba, nload, site, "own loads restored")
                            if mode != "ok":
                                for i, e in enumerate(log):
                                    sp = e["st"].cell(e["sp"])
                                    good = isinstance(sp, Dct) and len(sp.items) == 1
                                    (cx.ok if good else cx.bad)("shear points armed", f"{name}: analysis {i}", f"{sp!r}", site)
                        else:
                            if not exits:
                                return cx.bad("failure reported", name, "completes although the analysis failed", site)
                            cx.ok("failure reported", name, exits[0][0], site)
                            for j, (exc, pc, s2, ev) in enumerate(exits):
                                ownloads(cx, f"{name} (exit {j})", s2, ba, nload, site, "own loads restored after failure")
                            if v is None and len(log) != k + 1:
                                cx.bad("stops at the failure", name, f"{len(log)} analyses", site)
                    cx.guard("own loads restored", name, go, site)

    site = cx.loc("bridge.BridgeAnalysis._check_objects")
    for meth, (args, kw) in calls.items():
        kk = {k: v for k, v in kw.items() if k != "dv"}

        def nb(st, meth=meth, args=args, kk=kk):
            br = it.new("bridge.BridgeAnalysis", st, veh=truck(it, st, [], [sym("w0")]))
            it.meth(br, meth, st, *args, **kk)

        def nv(st, meth=meth, args=args, kk=kk):
            br = it.new("bridge.BridgeAnalysis", st, deck(it, st, [ZERO, sym("L0")]))
            it.meth(br, meth, st, *args, **kk)
        rejects(cx, it, f"{meth} without a bridge", nb, site, rule="missing objects rejected")
        rejects(cx, it, f"{meth} without a vehicle", nv, site, rule="missing objects rejected")

    site = cx.loc("bridge.BridgeAnalysis.add_bridge")

    def addb():
        st = State()
        br = it.new("bridge.BridgeAnalysis", st)
        L, E, R = [sym("L0"), sym("L1")], [sym("E0"), sym("E1")], [const(-1), sym("ks"), const(-1), ZERO, ZERO, const(-1)]
        GA = [sym("G0"), NONE]
        ba = it.meth(br, "add_bridge", st, lst(st, L), lst(st, E), lst(st, R), lst(st, ints(1, 2)), lst(st, GA))
        b = it.getattr(ba, "beam", st)
        for a, w in (("mbr_lengths", L), ("mbr_EIs", E), ("restraints", R), ("mbr_eletype", ints(1, 2)), ("mbr_GAv", GA)):
            g = st_list(it, st, it.getattr(b, a, st))
            if len(g) != len(w):
                cx.bad("bridge built as given", a, f"{len(g)} entries", site)
                continue
            for i, (x, y) in enumerate(zip(g, w)):
                if isinstance(y, K) or isinstance(x, K):
                    (cx.ok if x == y else cx.bad)("bridge built as given", f"{a}[{i}]", f"{x!r}", site)
                else:
                    cx.eq("bridge built as given", f"{a}[{i}]", x, y, site)
    cx.guard("bridge built as given", "add_bridge", addb, site)


def shear(cx, it):
    """shear-point resolution"""
    site = cx.loc("bridge.resolve_shear_points")
    n = 3

    def members(st, spd):
        c = st.cell(spd)
        if not isinstance(c, Dct) or c.open:
            raise Unsup("shear point map")
        return {int(as_num(k).const()) if not isinstance(k, (int, str)) else k: st_list(it, st, v) for k, v in c.items.items()}

    def check(name, st, res, want, nodes):
        spd, pg = res.items
        got = data(st, pg)
        if len(got) != len(want):
            return cx.bad("shear points", name, f"{len(got)} sections {[alg.show(as_num(x), 40) for x in got][:4]}, {len(want)} expected", site)
        for i, (g, w) in enumerate(zip(got, want)):
            cx.eq("shear points", f"{name}: section {i}", g, w[0], site)
        mem = members(st, spd)
        loc = {}
        for x, m in want:
            loc.setdefault(m, []).append(x - nodes[m])
        if sorted(mem) != sorted(loc):
            return cx.bad("shear points by member", name, f"members {sorted(mem)}, {sorted(loc)} expected", site)
        for m in loc:
            if len(mem[m]) != len(loc[m]):
                cx.bad("shear points by member", f"{name}: member {m}", f"{len(mem[m])} sections, {len(loc[m])} expected", site)
                continue
            for i, (g, w) in enumerate(zip(mem[m], loc[m])):
                cx.eq("shear points by member", f"{name}: member {m}[{i}]", g, w, site)

    def member_of(reg):
        return min(reg // 2 if reg % 2 else reg // 2 - 1, n - 2)

    for c in placements(n, 2):
        nodes, pts = coords(n, c)
        for order in (0, 1):
            name = f"2 spans, points in regions {','.join(map(str, c))}{' (given in reverse)' if order else ''}"

            def go():
                st = State()
                ba = deck(it, st, nodes)
                b = it.getattr(ba, "beam", st)
                r, _ = it.analyze_call("bridge.resolve_shear_points", [b, lst(st, pts[::-1] if order else pts)], st=st)
                want = [(x, member_of(q)) for x, q in zip(pts, c) if 2 <= q <= 2 * n - 2]
                check(name, st, r, want, nodes)
            cx.guard("shear points", name, go, site)
    nodes, pts = coords(3, (2,))

    def scalar():
        st = State()
        ba = deck(it, st, nodes)
        r, _ = it.analyze_call("bridge.resolve_shear_points", [it.getattr(ba, "beam", st), pts[0]], st=st)
        check("a single number", st, r, [(pts[0], 0)], nodes)
        r, _ = it.analyze_call("bridge.resolve_shear_points", [it.getattr(ba, "beam", st), lst(st, [pts[0], pts[0]])], st=st)
        check("a repeated point", st, r, [(pts[0], 0)], nodes)
    cx.guard("shear points", "a single number", scalar, site)

    # dv: every vertical support, fixed or spring, both valid sides
    d, a = sym("dv"), sym("a")
    kinds = {"fixed": [const(-1), ZERO], "spring": [sym("ks"), ZERO], "free": [ZERO, ZERO], "rotation only": [ZERO, const(-1)], "clamped": [const(-1), const(-1)]}
    L0, L1 = const(2) * d + a, const(2) * d + sym("a2")
    nodes = [ZERO, L0, L0 + L1]
    for k0, k1, k2 in itertools.product(("fixed", "free", "clamped"), ("fixed", "spring", "free", "rotation only"), ("fixed", "spring", "free")):
        if (k0, k1, k2).count("free") + (k0, k1, k2).count("rotation only") > 1:
            continue
        name = f"dv with supports {k0}/{k1}/{k2}"

        def go():
            st = State()
            ba = deck(it, st, nodes, R=kinds[k0] + kinds[k1] + kinds[k2])
            r, _ = it.analyze_call("bridge.resolve_shear_points", [it.getattr(ba, "beam", st)], dict(dv=d), st=st)
            want = []
            if k0 != "free":
                want.append((d, 0))
            if k1 in ("fixed", "spring"):
                want += [(L0 - d, 0), (L0 + d, 1)]
            if k2 != "free":
                want.append((L0 + L1 - d, 1))
            check(name, st, r, want, nodes)
        cx.guard("shear points", name, go, site)
    # a short span: dv reaches past the next support
    def short():
        st = State()
        s = sym("s")
        L0 = s
        nodes = [ZERO, L0, L0 + L0 + s]
        dd = s + sym("e")
        nodes = [ZERO, s, s + const(2) * dd]
        ba = deck(it, st, nodes)
        r, _ = it.analyze_call("bridge.resolve_shear_points", [it.getattr(ba, "beam", st)], dict(dv=dd), st=st)
        # supports 0, s, s+2dd: sections dd (member 1), s-dd<0 off, s+dd (twice)
        check("dv longer than a span", st, r, [(dd, 1), (s + dd, 1)], nodes)
    cx.guard("shear points", "dv longer than a span", short, site)


# ------------------------------------------------------------------------ F02
def scripted_hook(log, script, xs):
    """stand-in analysis: results of call k are script(k) = dict(M, V, R)"""
    def analyze(it, st, full, kw):
        ba = full[0]
        k = len(log)
        s = script(k)
        xx = xs(it, st, ba)
        n = len(xx)
        m = dict(x=xx, M=s["M"], V=s["V"], R=[sym(f"r{j}@{k}", None) for j in range(n)], D=[sym(f"d{j}@{k}", None) for j in range(n)])
        res = result_set(it, st, [m], s["R"])
        st.w(ba).attrs["_beam_results"] = res
        log.append(res)
        return ZERO
    return {"analysis.BeamAnalysis.analyze": analyze}


def signed_orders(n):
    """strict orderings of n values with at least one positive and one negative"""
    return [(v, p, z) for v, p, z in uniq_cases(n) if 0 < z < n]


def crossing(it, st, npos, script, xs, R=None, shear=None, dv=None):
    h = sym("h")
    L0 = const(6) * h
    log = []
    it.hooks.update(scripted_hook(log, script, xs))
    ba = deck(it, st, [ZERO, L0], R=R)
    br = it.new("bridge.BridgeAnalysis", st, ba, truck(it, st, [], [sym("w0", None)]))
    kw = {}
    if shear is not None:
        kw["shear_points"] = shear
    if dv is not None:
        kw["dv"] = dv
    env = it.meth(br, "run_vehicle", st, h, pos_start=h, pos_end=const(npos) * h, **kw)
    return br, env, log


@prop("F02", floor=100, rule="For every strict ordering of the effects over positions and stations (and for ties), the critical values of a crossing are the extreme over all positions and stations, at the station and vehicle position(s) where it occurs, with the other effect of the same position and station; reaction extremes carry their own position; shear-point entries hold the extremes of the two stations next to the section and its nearest support and side; envelope ratios are |trial/reference|, zero where the reference is within 1e-3 of zero; foreign or incompatible envelopes are rejected.")
def f02(cx):
    it = cx.interp(tol0=True)
    site = cx.loc("bridge.BridgeAnalysis.critical_values")
    h = sym("h")
    base = [ZERO, ZERO, const(2) * h, const(6) * h]

    def xs4(it, st, ba):
        return [ZERO, const(2) * h, const(4) * h, const(6) * h]

    def get(st, d, *path):
        for p in path:
            c = st.cell(d)
            if not isinstance(c, Dct) or K(p) not in c.items:
                raise Unsup(f"critical values entry {p}: {c!r}")
            d = c.items[K(p)]
        return d

    cases = signed_orders(4)
    for ci, (vals, perm, z) in enumerate(cases):
        other = cases[(ci * 7 + 3) % len(cases)]
        rc = uniq_cases(2)[ci % len(uniq_cases(2))]
        name = f"ordering {perm} with {z} negative"

        def go():
            st = State()
            npos, nst = 2, 2
            m = [[vals[k * nst + j] for j in range(nst)] for k in range(npos)]
            v = [[alg.subst(other[0][k * nst + j], {}) for j in range(nst)] for k in range(npos)]

            def script(k):
                return dict(M=[ZERO] + m[k] + [ZERO], V=[ZERO] + v[k] + [ZERO], R=[rc[0][k], -rc[0][1 - k]])
            br, env, log = crossing(it, st, npos, script, xs4)
            cv = it.meth(br, "critical_values", st, env)
            X = xs4(it, st, None)
            for eff, grid, oth, (ordv, pm, zz), co in (("M", m, v, (vals, perm, z), "Vco"), ("V", v, m, other, "Mco")):
                for key, g in ((f"{eff}max", pm[-1]), (f"{eff}min", pm[0])):
                    k, j = divmod(g, nst)
                    nm = f"{name}: {key}"
                    cx.eq("extreme value", nm, get(st, cv, key, "val"), grid[k][j], site)
                    cx.eq("location", nm, get(st, cv, key, "at"), X[j + 1], site)
                    cx.eq("coincident effect", nm, get(st, cv, key, co), oth[k][j], site)
                    ps = st_list(it, st, get(st, cv, key, "pos"))
                    if len(ps) != 1:
                        cx.bad("vehicle position", nm, f"{len(ps)} positions for one governing position", site)
                    else:
                        cx.eq("vehicle position", nm, ps[0], const(k + 1) * h, site)
            for i, rv in enumerate((list(rc[0]), [-rc[0][1], -rc[0][0]])):
                for key, pick in ((f"Rmax{i}", 1), (f"Rmin{i}", -1)):
                    k = 0 if alg.sign((rv[0] - rv[1]) * const(pick)) == 1 else 1
                    ext = rv[k] if alg.sign(rv[k] * const(pick)) == 1 else ZERO
                    cx.eq("reaction extreme", f"{name}: {key}", get(st, cv, key, "val"), ext, site)
                    if ext is not ZERO:
                        cx.eq("reaction position", f"{name}: {key}", get(st, cv, key, "pos"), const(k + 1) * h, site)
            cx.eq("number of reactions", name, get(st, cv, "nsup"), const(2), site)
        cx.guard("extreme value", name, go, site)

    # several positions give the same extreme (all are reported), and the greatest value
    # equals the least value in size at the same or at other positions
    for tie in itertools.product(itertools.product((0, 1), repeat=2), repeat=3):
        name = f"positions with the larger (maximum, minimum): {tie}"

        def go():
            st = State()
            lev = sym("a"), sym("a") + sym("b")

            def script(k):
                up, dn = lev[tie[k][0]], lev[tie[k][1]]
                return dict(M=[ZERO, up, -dn, ZERO], V=[ZERO, -up, dn, ZERO], R=[up])
            br, env, log = crossing(it, st, 3, script, xs4, R=[const(-1), ZERO, ZERO, ZERO])
            cv = it.meth(br, "critical_values", st, env)
            for key, w in (("Mmax", 0), ("Mmin", 1), ("Vmax", 1), ("Vmin", 0)):
                ps = st_list(it, st, get(st, cv, key, "pos"))
                want = [const(i + 1) * h for i, t in enumerate(tie) if t[w] == max(u[w] for u in tie)]
                if len(ps) != len(want):
                    cx.bad("vehicle position", f"{name}: {key}", f"{len(ps)} positions, {len(want)} expected", site)
                    continue
                for a, b in zip(ps, want):
                    cx.eq("vehicle position", f"{name}: {key}", a, b, site)
        cx.guard("vehicle position", name, go, site)

    # an envelope from another crossing
    def foreign(st):
        a, b = sym("a"), sym("b")

        def s1(k):
            return dict(M=[ZERO, a, -a, ZERO], V=[ZERO, a, -a, ZERO], R=[a])

        def s2(k):
            return dict(M=[ZERO, a + b, -a, ZERO], V=[ZERO, a, -a, ZERO], R=[a])
        br, env, _ = crossing(it, st, 2, s1, xs4)
        br2, env2, _ = crossing(it, st, 2, s2, xs4)
        it.meth(br, "critical_values", st, env2)
    rejects(cx, it, "envelope from another crossing", foreign, site, rule="foreign envelope rejected")

    # shear points: the two stations that straddle each section
    e = sym("e")
    for lab, secs, sup, R in (("left quarter", [Fraction(3, 2)], [(0, "right")], [const(-1), ZERO, const(-1), ZERO]),
                              ("right quarter", [Fraction(9, 2)], [(6, "left")], [const(-1), ZERO, const(-1), ZERO]),
                              ("both, given out of order", [Fraction(9, 2), Fraction(1)], [(0, "right"), (6, "left")], [const(-1), ZERO, const(-1), ZERO]),
                              ("cantilever", [Fraction(5)], [(0, "right")], [const(-1), const(-1), ZERO, ZERO]),
                              ("spring support", [Fraction(5)], [(6, "left")], [const(-1), ZERO, sym("ks"), ZERO])):
        name = f"shear point: {lab}"

        def go():
            st = State()
            ss = sorted(secs)
            hh = sym("h")
            d = sym("d")
            # stations: node, (section -, section +)..., middle, node ; h = 8d keeps the order known
            H = const(8) * d
            pts = [ZERO]
            for s in ss:
                pts += [H * const(s) - d, H * const(s) + d]
            pts = pts + [H * const(3)] if len(ss) == 1 else pts[:3] + [H * const(3)] + pts[3:]
            pts.append(H * const(6))
            pts.sort(key=lambda p: float(alg.subst(p, {list(d.atoms())[0]: ONE}).const()) if not p.is_const() else float(p.const()))
            n = len(pts)
            log = []

            def script(k):
                return dict(M=[ZERO] * n, V=[(sym(f"vp{j}") if k == 0 else -sym(f"vn{j}")) for j in range(n)], R=[ONE])
            it.hooks.update(scripted_hook(log, script, lambda it, st, ba: pts))
            ba = deck(it, st, [ZERO, const(6) * H], R=R)
            br = it.new("bridge.BridgeAnalysis", st, ba, truck(it, st, [], [sym("w0", None)]))
            env = it.meth(br, "run_vehicle", st, H, pos_start=H, pos_end=const(2) * H, shear_points=lst(st, [H * const(s) for s in secs]))
            # critical values need a governing position: bypass by unique extremes
            cv = None
            V = [data(st, it.getattr(env, a, st)) for a in ("Vmax", "Vmin")]
            cv = it.meth(br, "critical_values", st, env)
            blk = st.cell(get(st, cv, "shear_points"))
            if not isinstance(blk, Dct) or blk.open or len(blk.items) != len(ss):
                return cx.bad("shear points reported", name, f"{blk!r}", site)
            for (key, ent), s, (sx, side) in zip(blk.items.items(), ss, sup):
                cx.eq("shear points reported", f"{name}: key", key, H * const(s), site)
                x = H * const(s)
                jl = [j for j in range(n) if alg.equal(pts[j], x - d)][0]
                jr = jl + 1
                for k, w in (("Vmax_left", V[0][jl]), ("Vmax_right", V[0][jr]), ("Vmin_left", V[1][jl]), ("Vmin_right", V[1][jr]),
                             ("Vmax", alg.mkminmax("max", [V[0][jl], V[0][jr]])), ("Vmin", alg.mkminmax("min", [V[1][jl], V[1][jr]]))):
                    cx.eq("shear-point extreme", f"{name}: {k}", get(st, ent, k), w, site)
                cx.eq("shear-point support", name, get(st, ent, "support"), const(sx) * H, site)
                sd = get(st, ent, "side")
                (cx.ok if sd == K(side) else cx.bad)("shear-point support", f"{name}: side", f"{sd!r}", site)
        cx.guard("shear points reported", name, go, site)

    ratios(cx, it)


def ratios(cx, it):
    site = cx.loc("bridge.BridgeAnalysis.envelopes_ratios")
    big = ONE + sym("b")
    refs = [("positive", big, True), ("negative", -big, True), ("zero", ZERO, False), ("below tolerance", const(Fraction(9, 10000)), False), ("minus below tolerance", const(Fraction(-9, 10000)), False),
            ("just above tolerance", const(Fraction(11, 10000)), True), ("minus just above", const(Fraction(-11, 10000)), True)]
    trials = [("positive", sym("a")), ("negative", -sym("a")), ("zero", ZERO)]
    grid = [(r, t) for r in refs for t in trials]
    n = len(grid)

    def go():
        st = State()
        br = it.new("bridge.BridgeAnalysis", st)
        from .envelopes import env_like
        tr, rf = env_like(it, st, "t", n, n, 1), env_like(it, st, "r", n, n, 1)
        want = {}
        scale = {"Mmax": 1, "Mmin": 2, "Vmax": 3, "Vmin": 5, "Rmaxval": 7, "Rminval": 11}
        for a, s in scale.items():
            it.setattr(tr, a, arr(st, [t[1] * const(s) for r, t in grid]), st)
            it.setattr(rf, a, arr(st, [r[1] for r, t in grid]), st)
            want[a] = []
            for r, t in grid:
                if not r[2] or t[1] is ZERO:
                    want[a].append(ZERO)
                else:
                    q = t[1] * const(s) / r[1]
                    want[a].append(q if alg.sign(q) == 1 else -q)
        pre = heap.snapshot(st, None)
        d = it.meth(br, "envelopes_ratios", st, tr, rf)
        c = st.cell(d)
        need = ["x", "Mmax", "Mmin", "Vmax", "Vmin"] + [f"R{k}{i}" for i in range(n) for k in ("max", "min")]
        lack = [k for k in need if K(k) not in c.items]
        if lack and not c.open:
            cx.bad("ratio", "entries", f"missing: {lack[:6]}", site)
        for a in ("Mmax", "Mmin", "Vmax", "Vmin"):
            if K(a) not in c.items:
                continue
            got = data(st, c.items[K(a)])
            for i, (r, t) in enumerate(grid):
                cx.eq("ratio", f"{a}: trial {t[0]}, reference {r[0]}", got[i], want[a][i], site)
        for i, (r, t) in enumerate(grid):
            for k, a in ((f"Rmax{i}", "Rmaxval"), (f"Rmin{i}", "Rminval")):
                if K(k) in c.items:
                    cx.eq("reaction ratio", f"{k[:4]}: trial {t[0]}, reference {r[0]}", c.items[K(k)], want[a][i], site)
        x = data(st, c.items[K("x")])
        for i, (g, w) in enumerate(zip(x, data(st, it.getattr(rf, "x", st)))):
            cx.eq("ratio stations", f"{i}", g, w, site)
        for nm, e in (("trial", tr), ("reference", rf)):
            heap.unchanged(cx, "envelopes not changed by ratios", nm, pre, e, st, e, site)
    cx.guard("ratio", "grid", go, site)
    for lab, (a, b) in (("stations", ((4, 2), (5, 2))), ("supports", ((4, 2), (4, 3)))):
        def bad(st, a=a, b=b):
            from .envelopes import env_like
            br = it.new("bridge.BridgeAnalysis", st)
            it.meth(br, "envelopes_ratios", st, env_like(it, st, "t", *a), env_like(it, st, "r", *b))
        rejects(cx, it, f"different number of {lab}", bad, site, rule="incompatible envelopes rejected")


# ------------------------------------------------------------------------ F03
@prop("F03", floor=100, rule="create_ils analyses, once per position i*step from 0 to the beam's end (step defaulting to a hundredth of the length), exactly one point load of the given value at that position on the deck, replacing earlier results; get_il returns those positions with, for each, the moment or shear at the evaluation station nearest the point of interest in its span, or the reaction of the nearest vertical (or moment) support, for every support layout and region of the point of interest.")
def f03(cx):
    it = cx.interp(tol0=True)
    h = sym("h")

    def il(st, spans, R=None, log=None, fail=None, eletype=None, it=it, h=h):
        log = [] if log is None else log
        it.hooks.update(crossing_hook(log, fail=fail))
        L = [const(k) * h for k in spans]
        n = len(L)
        kw = {"eletype": eletype} if eletype is not None else {}
        o = it.new("inf_lines.InfluenceLines", st, lst(st, L), lst(st, [sym(f"E{i}") for i in range(n)]), lst(st, R or [const(-1), ZERO] * (n + 1)), **kw)
        return o, log, L

    site = cx.loc("inf_lines.InfluenceLines.create_ils")
    for spans in ((3,), (2, 1), (1, 2, 2), (2, 2, 1, 1)):
        for unit in (None, "given"):
            name = f"spans {spans}, load {'default' if unit is None else 'given'}"

            def go():
                st = State()
                o, log, L = il(st, spans)
                P = ONE if unit is None else sym("P", None)
                tot = sum(spans)
                for rnd, step in enumerate((h, h / const(2), h)):
                    del log[:]
                    it.meth(o, "create_ils", st, step, *([] if unit is None else [P]))
                    cnt = tot * (2 if rnd == 1 else 1) + 1
                    tag = f"{name}, run {rnd}"
                    if len(log) != cnt:
                        return cx.bad("load positions", tag, f"{len(log)} analyses, {cnt} expected", site)
                    pos = st_list(it, st, it.getattr(o, "pos", st))
                    if len(pos) != cnt:
                        return cx.bad("load positions", tag, f"{len(pos)} stored positions, {cnt} expected", site)
                    for i in range(cnt):
                        cx.eq("load positions", f"{tag}: {i}", pos[i], const(i) * step, site)
                        m = Measure()
                        m.point(const(i) * step, P)
                        out = []
                        same_measure(cx, "unit load", f"{tag}: {i}", measure(log[i]["rows"], log[i]["L"], out), m, out, site)
                    vr = st_list(it, st, it.getattr(o, "vResults", st))
                    (cx.ok if vr == [e["res"] for e in log] else cx.bad)("results in order", tag, f"{len(vr)} results", site)
            cx.guard("load positions", name, go, site)

    big = cx.interp(tol0=True, unroll=128)

    def default(it=big):
        st = State()
        o, log, L = il(st, (60, 40), it=it)
        it.meth(o, "create_ils", st)
        pos = st_list(it, st, it.getattr(o, "pos", st))
        cx.eq("default step", "number of positions", const(len(pos)), const(101), site)
        for i in (0, 1, 59, 60, 61, 100):
            cx.eq("default step", f"position {i}", pos[i], const(i) * h, site)
    cx.guard("default step", "60 + 40", default, site)

    for k in (0, 1, 3):
        def failing(st, k=k):
            o, log, L = il(st, (2, 1), fail=k)
            it.meth(o, "create_ils", st, h)
        rejects(cx, it, f"analysis fails at position {k}", failing, site, rule="failure reported")

    site = cx.loc("inf_lines.InfluenceLines.__init__")

    def structure():
        st = State()
        R = [const(-1), sym("kr"), const(-1), ZERO, sym("ks"), const(-1)]
        o, log, L = il(st, (2, 1), R=R, eletype=lst(st, ints(2, 3)))
        b = it.getattr(it.getattr(o, "ba", st), "beam", st)
        for a, w in (("mbr_lengths", L), ("mbr_EIs", [sym("E0"), sym("E1")]), ("restraints", R), ("mbr_eletype", ints(2, 3))):
            for i, (g, x) in enumerate(zip(st_list(it, st, it.getattr(b, a, st)), w)):
                cx.eq("beam as given", f"{a}[{i}]", g, x, site)
    cx.guard("beam as given", "structure", structure, site)

    # extraction
    site = cx.loc("inf_lines.InfluenceLines.get_il")
    # lengths left open, and given numbers (where a test against a fixed distance is decided)
    for hh, spans in itertools.product((h, ONE, const(Fraction(1, 10 ** 5)), const(10 ** 4)), ((2,), (4, 2), (2, 4, 2))):
        nodes = [0]
        for s in spans:
            nodes.append(nodes[-1] + s)
        pois = []
        for i, s in enumerate(spans):
            # stations at the ends and the middle of each span; points near each and between
            for f in (Fraction(1, 24), Fraction(5, 24), Fraction(7, 24), Fraction(1, 2), Fraction(17, 24), Fraction(19, 24), Fraction(23, 24)):
                pois.append((nodes[i] + s * f, i, 0 if f < Fraction(1, 4) else 1 if f < Fraction(3, 4) else 2))
        pois.append((Fraction(0), 0, 0))
        pois.append((Fraction(nodes[-1]), len(spans) - 1, 2))
        for eff, key in (("M", "M"), ("V", "V"), ("m", "M"), ("v", "V")):
            for poi, mem, stn in (pois if eff in "MV" else pois[:2]):
                name = f"spans {spans}{'' if hh is h else f' times {alg.show(hh)}'}, {eff} at {poi}"

                def go():
                    st = State()
                    o, log, L = il(st, spans, h=hh)
                    it.meth(o, "create_ils", st, hh)
                    r = it.meth(o, "get_il", st, const(poi) * hh, K(eff))
                    x, y = data(st, r.items[0]), data(st, r.items[1])
                    if len(x) != len(log) or len(y) != len(log):
                        return cx.bad("influence ordinate", name, f"{len(y)} ordinates at {len(x)} positions for {len(log)} load positions", site)
                    for k in range(len(log)):
                        cx.eq("abscissa", f"{name}: {k}", x[k], const(k) * hh, site)
                        cx.eq("influence ordinate", f"{name}: {k}", y[k], sym(f"{key}{mem}_{stn}@{k}", None), site)
                cx.guard("influence ordinate", name, go, site)

    # without an explicit run the influence lines are created
    def lazy(it=big):
        st = State()
        o, log, L = il(st, (60, 40), it=it)
        r = it.meth(o, "get_il", st, const(30) * h, K("M"))
        y = data(st, r.items[1])
        cx.eq("created on demand", "number of positions", const(len(y)), const(101), site)
        cx.eq("created on demand", "ordinate 7", y[7], sym("M0_1@7", None), site)
    cx.guard("created on demand", "get_il first", lazy, site)

    # reactions: nearest fully restrained support, whatever the other restraints are
    kinds = {"pin": [const(-1), ZERO], "clamp": [const(-1), const(-1)], "spring": [sym("ks"), ZERO], "rot": [ZERO, const(-1)], "free": [ZERO, ZERO], "pin+rs": [const(-1), sym("kr")]}
    spans = (4, 2, 4)
    xs = [0, 4, 6, 10]
    for lay in itertools.product(("pin", "clamp", "spring", "free"), ("pin", "spring", "rot", "free"), ("pin", "clamp", "free", "pin+rs"), ("pin", "clamp", "rot")):
        R = [r for k in lay for r in kinds[k]]
        vert = [i for i, k in enumerate(lay) if kinds[k][0] == const(-1)]
        rot = [i for i, k in enumerate(lay) if kinds[k][1] == const(-1)]
        fixed = [(2 * i + j) for i, k in enumerate(lay) for j in (0, 1) if kinds[k][j] == const(-1)]
        if len(vert) < 1 or len(fixed) < 2:
            continue
        name = f"supports {'/'.join(lay)}"

        def go():
            st = State()
            log = []

            def analyze(it, st, full, kw):
                k = len(log)
                mem, off = [], ZERO
                for i, s in enumerate(spans):
                    x = [off, off, off + const(s) * h / const(2), off + const(s) * h, off + const(s) * h]
                    mem.append(dict(x=x, M=[ZERO] * 5, V=[ZERO] * 5, R=[ZERO] * 5, D=[ZERO] * 5))
                    off = off + const(s) * h
                res = result_set(it, st, mem, [sym(f"Re{f}@{k}", None) for f in fixed])
                st.w(full[0]).attrs["_beam_results"] = res
                log.append(res)
                return ZERO
            o, _, L = il(st, spans, R=R)
            it.hooks["analysis.BeamAnalysis.analyze"] = analyze
            it.meth(o, "create_ils", st, const(5) * h)
            for eff, sup, off in (("R", vert, 0), ("MR", rot, 1)):
                if not sup:
                    continue
                for poi in (Fraction(0), Fraction(1, 2), Fraction(7, 4), Fraction(9, 4), Fraction(15, 4), Fraction(4), Fraction(21, 5), Fraction(19, 4), Fraction(21, 4), Fraction(6), Fraction(15, 2), Fraction(17, 2), Fraction(10)):
                    dist = sorted((abs(poi - xs[i]), i) for i in sup)
                    if len(dist) > 1 and dist[0][0] == dist[1][0]:
                        continue
                    r = it.meth(o, "get_il", st, const(poi) * h, K(eff))
                    y = data(st, r.items[1])
                    for k in range(len(log)):
                        cx.eq("support reaction", f"{name}: {eff} at {poi}, load {k}", y[k], sym(f"Re{2 * dist[0][1] + off}@{k}", None), site)
        cx.guard("support reaction", name, go, site)


# ------------------------------------------------------------------------ F04
def veh_obs(it, st, v):
    return dict(axs=data(st, it.getattr(v, "axs", st)), axw=data(st, it.getattr(v, "axw", st)), co=data(st, it.getattr(v, "axle_coords", st)),
                L=as_num(it.getattr(v, "L", st)), W=as_num(it.getattr(v, "W", st)), n=as_num(it.getattr(v, "NoAxles", st)))


def is_vehicle(cx, rule, name, it, st, v, axs, axw, site):
    try:
        o = veh_obs(it, st, v)
    except Unsup as e:
        return cx.und(rule, name, f"{e}", site)
    if len(o["axs"]) != len(axs) or len(o["axw"]) != len(axw) or len(o["co"]) != len(axw):
        return cx.bad(rule, name, f"{len(o['axs'])} spacings, {len(o['axw'])} weights, {len(o['co'])} coordinates; {len(axs)}/{len(axw)} expected", site)
    x, W = ZERO, ZERO
    for i, w in enumerate(axw):
        if i:
            cx.eq(rule, f"{name}: spacing {i - 1}", o["axs"][i - 1], axs[i - 1], site)
            x = x + axs[i - 1]
        W = W + w
        cx.eq(rule, f"{name}: weight {i}", o["axw"][i], w, site)
        cx.eq(rule, f"{name}: coordinate {i}", o["co"][i], x, site)
    cx.eq(rule, f"{name}: length", o["L"], x, site)
    cx.eq(rule, f"{name}: total weight", o["W"], W, site)
    cx.eq(rule, f"{name}: axle count", o["n"], const(len(axw)), site)


def scribble(it, st, v, at):
    """an in-place change of a vehicle's vector, as `veh.axw *= 2` makes"""
    x = it.getattr(v, at, st)
    if isinstance(st.cell(x), Arr):
        st.w(x).data = [sym(f"scribble{i}", None) for i in range(len(st.cell(x).data))]


G = Fraction(981, 100)
KIP, FT = Fraction(44482216, 10 ** 7), Fraction(3048, 10 ** 4)


def F(*xs):
    return [const(Fraction(str(x)) if isinstance(x, float) else Fraction(x)) for x in xs]


def la(count, sp, w):
    axs, axw = [const(2)], [const(Fraction(360, 300)) * w]
    for g in range(count):
        if g:
            axs.append(sp - const(Fraction(45, 10)))
        axs += F(1.7, 1.1, 1.7)
        axw += [w] * 4
    return axs, axw


M1600 = lambda m: F(1.25, 1.25, 3.75, 1.25, 1.25) + [m] + F(1.25, 1.25, 5, 1.25, 1.25)
COOPER = [5, 10, 10, 10, 10, Fraction(13, 2), Fraction(13, 2), Fraction(13, 2), Fraction(13, 2)]
COOPS = [8, 5, 5, 5, 9, 5, 6, 5]


def library():
    """documented axle spacings (m) and loads (kN): (getter, args, spacings, weights)"""
    m = const(Fraction(25, 4)) + sym("m")
    out = []
    tri = [Fraction(225, 30)] * 3
    for i, v in enumerate(((5.5, 6.5), (6.0, 6.0), (6.5, 5.5))):
        out.append(("AU.get_abag_bdouble", [const(i)], F(3.0, 1.2, v[0], 1.2, 1.2, v[1], 1.2, 1.2), [const(x * G) for x in [6, Fraction(17, 2), Fraction(17, 2)] + tri + tri]))
    for i, v in enumerate((4.4, 6.4, 8.4, 10.4)):
        out.append(("AU.get_abag_semitrailer", [const(i)], F(3.0, 1.2, v, 1.2, 1.2), [const(x * G) for x in [6, Fraction(17, 2), Fraction(17, 2)] + tri]))
    out.append(("AU.get_m1600", [m], M1600(m), [const(120)] * 12))
    out.append(("AU.get_m1600", F(6.25), M1600(F(6.25)[0]), [const(120)] * 12))
    out.append(("AU.get_s1600", [m], M1600(m), [const(80)] * 12))
    out.append(("AU.get_a160", [], [], [const(160)]))
    out.append(("AU.get_w80", [], [], [const(80)]))
    for cnt in (1, 2, 3, 10):
        for sp in (const(12), const(20), const(15)):
            out.append(("AU.get_la_rail", [const(cnt), sp, sym("w")], *la(cnt, sp, sym("w"))))
        out.append(("AU.get_300la", [const(cnt), const(14)], *la(cnt, const(14), const(300))))
    out.append(("AU.get_la_rail", [], *la(10, const(12), const(300))))
    out.append(("AU.get_300la", [], *la(10, const(12), const(300))))
    for a in ([], F(3), F(5.5), F(8)):
        v = a[0] if a else const(3)
        out.append(("AU.get_t44", a, F(3.7, 1.2) + [v] + F(1.2), F(48, 96, 96, 96, 96)))
    for a in ([], F(4.27), F(7), F(9.14)):
        out.append(("AU.get_ms18", a, F(4.27) + (a or F(4.27)), F(35.6, 142.3, 142.3)))
    for a in ([], F(4.3), F(7), F(9)):
        out.append(("US.get_hl93_truck", a, F(4.3) + (a or F(4.3)), F(35, 145, 145)))
    out.append(("US.get_hl93_tandem", [], F(1.2), F(110, 110)))
    for a in ([], [sym("e")]):
        e = a[0] if a else const(80)
        out.append(("US.get_cooper", a, [const(x * FT) for x in COOPS + [8] + COOPS], [const(x * KIP / 10) * e for x in COOPER * 2]))
    for a in ([], [sym("q")]):
        q = a[0] if a else ONE
        out.append(("EU.get_lm1", a, F(1.2), [const(300) * q] * 2))
        out.append(("EU.get_lm71", a, F(1.6, 1.6, 1.6), [const(250) * q] * 4))
    for a in ([], [sym("u")], [sym("u"), sym("s")]):
        u, s = (a + [const(45), const(6)][len(a):])
        out.append(("UK.get_hb", a, F(1.8) + [s] + F(1.8), [const(10) * u] * 4))
    out.append(("get_validation_truck", [], F(4, 4), F(5, 4, 3)))
    out.append(("AU.get_example_permit", [], F(1.793, 2.507, 1.370, 5.403, 1.232, 1.232, 6.303, 1.232, 1.232), [const(x * G) for x in [Fraction(11, 2)] * 2 + [Fraction(17, 2)] * 2 + [Fraction(15, 2)] * 6]))
    out.append(("CA.get_cl625", [], F(3.6, 1.2, 6.6, 6.6), F(50, 125, 125, 175, 150)))
    out.append(("CN.get_jtg_vehicle", [], F(3, 1.4, 7, 1.4), F(30, 120, 120, 140, 140)))
    return out


LIMITS = [("AU.get_m1600", Fraction(25, 4), None, 0), ("AU.get_s1600", Fraction(25, 4), None, 0), ("AU.get_t44", 3, 8, 0), ("AU.get_ms18", Fraction(427, 100), Fraction(914, 100), 0),
          ("US.get_hl93_truck", Fraction(43, 10), 9, 0), ("AU.get_la_rail", 12, 20, 1), ("AU.get_300la", 12, 20, 1)]


@prop("F04", floor=100, rule="A vehicle's coordinates are the running sums of its spacings, its length and weight the totals, and its counts are checked; reversal mirrors spacings, weights and coordinates (in place, twice, or on an independent copy); a train is its vehicles' axles in order separated by the given gaps, leaving the vehicles alone; every library vehicle has the documented spacings and loads for every parameter value, whatever was requested before; values outside a range a getter documents as rejected are rejected.")
def f04(cx):
    it = cx.interp()
    site = cx.loc("vehicle.Vehicle")
    for n in range(1, 7):
        for cont in ("array", "list"):
            name = f"{n} axles from {cont}"

            def go():
                st = State()
                axs, axw = [sym(f"s{i}") for i in range(n - 1)], [sym(f"w{i}", None) for i in range(n)]
                mk = arr if cont == "array" else lst
                a, w = mk(st, axs), mk(st, axw)
                pre = heap.snapshot(st, None)
                v = it.new("vehicle.Vehicle", st, a, w)
                is_vehicle(cx, "vehicle", name, it, st, v, axs, axw, site)
                r = it.meth(v, "reverse", st, in_place=FALSE)
                is_vehicle(cx, "reversed copy", name, it, st, r, axs[::-1], axw[::-1], site)
                is_vehicle(cx, "original kept by reversed copy", name, it, st, v, axs, axw, site)
                rr = it.meth(v, "reverse", st)
                is_vehicle(cx, "reversed in place", name, it, st, v, axs[::-1], axw[::-1], site)
                is_vehicle(cx, "copy independent of the original", name, it, st, r, axs[::-1], axw[::-1], site)
                it.meth(v, "reverse", st)
                is_vehicle(cx, "reversed twice", name, it, st, v, axs, axw, site)
                it.meth(r, "reverse", st, TRUE)
                is_vehicle(cx, "reversed copy reversed", name, it, st, r, axs, axw, site)
                for u in (v, r):
                    for at in ("axs", "axw", "axle_coords"):
                        scribble(it, st, u, at)
                heap.unchanged(cx, "caller's vectors kept", f"{name} spacings", pre, a, st, a, site)
                heap.unchanged(cx, "caller's vectors kept", f"{name} weights", pre, w, st, w, site)
                if cont == "array":
                    a2, w2 = mk(st, axs), mk(st, axw)
                    v = it.new("vehicle.Vehicle", st, a2, w2)
                    for x in (a2, w2):
                        st.w(x).data = [sym(f"later{i}", None) for i in range(len(st.cell(x).data))]
                    is_vehicle(cx, "vehicle unaffected by later changes of the caller's vectors", name, it, st, v, axs, axw, site)
            cx.guard("vehicle", name, go, site)
    for ns, nw in ((0, 0), (1, 1), (2, 2), (0, 2), (3, 2), (2, 5), (1, 3)):
        def bad(st, ns=ns, nw=nw):
            it.new("vehicle.Vehicle", st, arr(st, [sym(f"s{i}") for i in range(ns)]), arr(st, [sym(f"w{i}") for i in range(nw)]))
        rejects(cx, it, f"{ns} spacings with {nw} weights", bad, site, rule="inconsistent counts rejected")

    site = cx.loc("vehicle.make_train")
    for sizes in ((1,), (2,), (1, 1), (2, 1), (2, 3), (3, 1, 2), (1, 2, 1, 2)):
        for mode in ("each", "one value") if len(sizes) > 1 else ("each",):
            for zero in ((), (0,)) if len(sizes) > 1 else ((),):
                name = f"train of {sizes} axles, spacing {mode}{', zero gap' if zero else ''}"

                def go():
                    st = State()
                    vs, S, W = [], [], []
                    for i, k in enumerate(sizes):
                        s, w = [sym(f"s{i}_{j}") for j in range(k - 1)], [sym(f"w{i}_{j}", None) for j in range(k)]
                        vs.append(it.new("vehicle.Vehicle", st, arr(st, s), arr(st, w)))
                        S.append(s)
                        W.append(w)
                    g = [sym(f"gap{i}") for i in range(len(sizes) - 1)]
                    if mode == "one value":
                        g = [sym("gap")] * len(g)
                    for z in zero:
                        if mode == "one value":
                            g = [ZERO] * len(g)
                        else:
                            g[z] = ZERO
                    given = g[:1] if mode == "one value" else g
                    vl, gl = lst(st, vs), arr(st, given)
                    pre = heap.snapshot(st, None)
                    t, _ = it.analyze_call("vehicle.make_train", [vl, gl], st=st)
                    axs, axw = [], []
                    for i in range(len(sizes)):
                        if i:
                            axs.append(g[i - 1])
                        axs += S[i]
                        axw += W[i]
                    is_vehicle(cx, "train", name, it, st, t, axs, axw, site)
                    for i, v in enumerate(vs):
                        heap.unchanged(cx, "train leaves its vehicles", f"{name}: {i}", pre, v, st, v, site)
                    it.meth(t, "reverse", st)
                    for at in ("axs", "axw", "axle_coords"):
                        scribble(it, st, t, at)
                    for i, v in enumerate(vs):
                        heap.unchanged(cx, "train leaves its vehicles", f"{name}: {i} after reversal", pre, v, st, v, site)
                cx.guard("train", name, go, site)
    for nv, ng in ((2, 2), (3, 0), (3, 4), (2, 0), (4, 2)):
        def bad(st, nv=nv, ng=ng):
            vs = [it.new("vehicle.Vehicle", st, arr(st, []), arr(st, [sym("w")])) for _ in range(nv)]
            it.analyze_call("vehicle.make_train", [lst(st, vs), arr(st, [sym(f"g{i}") for i in range(ng)])], st=st)
        rejects(cx, it, f"{nv} vehicles with {ng} gaps", bad, site, rule="inconsistent train rejected")

    for bi, what in (("a weight list", lambda st: lst(st, [sym("w")])), ("a number", lambda st: sym("w"))):
        def bad(st, what=what):
            v = it.new("vehicle.Vehicle", st, arr(st, []), arr(st, [sym("w")]))
            it.analyze_call("vehicle.make_train", [lst(st, [v, what(st)]), arr(st, [sym("g")])], st=st)
        rejects(cx, it, f"train with {bi} for a vehicle", bad, site, rule="inconsistent train rejected")

    seen = {}
    for getter, args, axs, axw in library():
        key = f"{getter}({', '.join(alg.show(a, 30) for a in args)})"
        site = cx.loc(f"vehicle.VehicleLibrary.{getter}")

        def go():
            st = State()
            v, _ = it.analyze_call(f"vehicle.VehicleLibrary.{getter}", list(args), st=st)
            is_vehicle(cx, "library vehicle", key, it, st, v, axs, axw, site)
            # the shared tables are not exposed: reversing one vehicle leaves the next alone
            it.meth(v, "reverse", st)
            for at in ("axs", "axw", "axle_coords"):
                scribble(it, st, v, at)
            v2, _ = it.analyze_call(f"vehicle.VehicleLibrary.{getter}", list(args), st=st)
            is_vehicle(cx, "library unaffected by its vehicles", key, it, st, v2, axs, axw, site)
        cx.guard("library vehicle", key, go, site)
    # a request does not depend on the requests made before it: every case of a getter in one
    # program, forwards and backwards, and each parameter alone changed in between
    cases = {}
    for case in library():
        cases.setdefault(case[0], []).append(case)
    for getter, cs in cases.items():
        site = cx.loc(f"vehicle.VehicleLibrary.{getter}")
        seqs = [("in turn", cs), ("in reverse", cs[::-1])] if len(cs) > 1 else []
        for case in cs:
            for i, a in enumerate(case[1]):
                for y in sorted((x for x in a.atoms() if x.kind == "sym"), key=str) if isinstance(a, Poly) else ():
                    old, new = alg.atom_poly(y), sym(y.name + "'", y.pos, dim=y.dim, intlike=y.intlike)
                    ch = lambda v: alg.subst(as_num(v), {old: new}) if isinstance(v, (Poly, int, float)) else v
                    other = (getter, [ch(b) for b in case[1]], [ch(b) for b in case[2]], [ch(b) for b in case[3]])
                    seqs.append((f"{y.name} changed", [case, other, case]))
        for tag, seq in seqs:
            def go():
                st = State()
                for k, (_, args, axs, axw) in enumerate(seq):
                    v, _ = it.analyze_call(f"vehicle.VehicleLibrary.{getter}", list(args), st=st)
                    is_vehicle(cx, "library vehicle after other requests", f"{getter} {tag}: {k}: {', '.join(alg.show(a, 30) for a in args)}", it, st, v, axs, axw, site)
            cx.guard("library vehicle after other requests", f"{getter} {tag}", go, site)
    for getter, lo, hi, argi in LIMITS:
        site = cx.loc(f"vehicle.VehicleLibrary.{getter}")
        e = sym("e")
        pads = [const(10)] * argi
        for v in [const(lo) - e] + ([const(hi) + e] if hi is not None else []):
            def bad(st, v=v):
                it.analyze_call(f"vehicle.VehicleLibrary.{getter}", pads + [v], st=st)
            rejects(cx, it, f"{getter}({alg.show(v, 40)})", bad, site, rule="parameter outside the documented range rejected")

        for v in [const(lo)] + ([const(hi)] if hi is not None else [const(lo) + e]):
            def good():
                st = State()
                n0 = len(it.events)
                it.analyze_call(f"vehicle.VehicleLibrary.{getter}", pads + [v], st=st)
                ev = [x for x in it.events[n0:] if x[0] == "raise"]
                (cx.und if ev else cx.ok)("parameter in the documented range accepted", f"{getter}({alg.show(v, 40)})", f"{ev[:1]}", site)
            cx.guard("parameter in the documented range accepted", f"{getter}({alg.show(v, 40)})", good, site)
    for getter in ("AU.get_la_rail", "AU.get_300la"):
        for k in (0, -1):
            def bad(st, k=k):
                it.analyze_call(f"vehicle.VehicleLibrary.{getter}", [const(k), const(14)], st=st)
            rejects(cx, it, f"{getter} with {k} groups", bad, cx.loc(f"vehicle.VehicleLibrary.{getter}"), rule="parameter outside the documented range rejected")
