"""D: envelopes, coincident effects, merging, result queries."""
import itertools
from .loads import *  # noqa
from .loads import lst
from sa import heap
from sa.interp import Raised

EFF = ("M", "V", "R", "D")
ATTR = ("Vmax", "Vmin", "Mmax", "Mmin", "Vco_Mmax", "Vco_Mmin", "Mco_Vmax", "Mco_Vmin")


def arr(st, xs):
    xs = list(xs)
    return st.new(Arr((len(xs),), xs))


def data(st, v):
    c = st.cell(v)
    if not isinstance(c, Arr):
        raise Unsup(f"not an explicit array: {c if c is not None else v!r}")
    return c.data


def member_results(it, st, x, M, V, R, D):
    return it.new("load.MemberResults", st, vals=Tup([arr(st, x), arr(st, M), arr(st, V), arr(st, R), arr(st, D)]))


def result_set(it, st, members, R, nodes=None):
    """a BeamResults object with given member arrays; members: list of dict x,M,V,R,D"""
    ci = it.prog.cls("results.BeamResults")
    vr = [member_results(it, st, **m) for m in members]
    tot = {k: [e for m in members for e in m[k]] for k in ("x",) + EFF}
    o = st.new(Obj(ci, {
        "npts": const(len(members[0]["x"]) - 3), "shear_points": st.new(Dct({})),
        "vRes": lst(st, vr), "D": arr(st, nodes or []), "R": arr(st, R), "Rs": arr(st, []),
        "results": member_results(it, st, **tot)}))
    return o


def sv(n, s="+"):
    return sym(n, s)


def uniq_cases(n, tag=None):
    """every sign pattern of n values combined with every strict ordering of their
    magnitudes (so that comparisons of values, of absolute values and of sums of two
    values are all decided): list of (values, indices by increasing value, number
    negative); tag makes the symbols of each case its own"""
    out = []
    for mag in itertools.permutations(range(n)):
        for sg in itertools.product((1, -1), repeat=n):
            vals, acc = [None] * n, ZERO
            for r, k in enumerate(mag):
                acc = acc + sv(f"g{r}" if tag is None else f"{tag}{len(out)}_{r}")
                vals[k] = acc if sg[k] > 0 else -acc
            neg = [k for k in reversed(mag) if sg[k] < 0]
            perm = tuple(neg + [k for k in mag if sg[k] > 0])
            out.append((tuple(vals), perm, len(neg)))
    return out


def eff_case(n, eff, other):
    """station values for one effect under every ordering; other effect free"""
    cols = []
    for ci, (vals, perm, z) in enumerate(uniq_cases(n, eff)):
        hi = perm[-1] if z < n else None      # governing max (positive) or none
        lo = perm[0] if z > 0 else None
        o = [sv(f"{other}{ci}_{k}", None) for k in range(n)]
        cols.append((vals, o, hi, lo))
    return cols


@prop("D01", floor=100, rule="Each extreme stored by an envelope of 1..3 result sets equals, under every strict ordering of the result sets' values and zero, the governing value (zero when nothing exceeds it), and the paired coincident array holds the other effect of the same governing result set at the same station; reaction history rows are the positive/negative parts in result order and the reaction extremes their extremes.")
def d01(cx):
    it = cx.interp()
    site = cx.loc("results.Envelopes")
    for n in (1, 2, 3):
        def go(n=n):
            st = State()
            cm, cv = eff_case(n, "M", "v"), eff_case(n, "V", "m")
            npt = len(cm) + len(cv)
            M = [[c[0][k] for c in cm] + [c[1][k] for c in cv] for k in range(n)]
            V = [[c[1][k] for c in cm] + [c[0][k] for c in cv] for k in range(n)]
            x = [sum((sv(f"dx{j}") for j in range(i)), ZERO) for i in range(npt)]
            rs = uniq_cases(n, "s")
            R = [[c[0][k] for c in rs] for k in range(n)]
            z = [ZERO] * npt
            res = [result_set(it, st, [dict(x=x, M=M[k], V=V[k], R=[sv(f"r{k}_{i}", None) for i in range(npt)], D=[sv(f"d{k}_{i}", None) for i in range(npt)])], R[k]) for k in range(n)]
            pre = heap.snapshot(st, None)
            env = it.new("results.Envelopes", st, lst(st, res))
            A = {a: data(st, it.getattr(env, a, st)) for a in ATTR}
            for off, cols, ex, co in ((0, cm, ("Mmax", "Mmin"), ("Vco_Mmax", "Vco_Mmin")), (len(cm), cv, ("Vmax", "Vmin"), ("Mco_Vmax", "Mco_Vmin"))):
                for i, (vals, oth, hi, lo) in enumerate(cols):
                    j = off + i
                    for e, c, g in ((ex[0], co[0], hi), (ex[1], co[1], lo)):
                        tag = f"{n} result sets, case {i}"
                        cx.eq("extreme", f"{tag}:{e}", A[e][j], vals[g] if g is not None else ZERO, site)
                        cx.eq("coincident", f"{tag}:{c}", A[c][j], oth[g] if g is not None else ZERO, site)
            rmax, rmin = st.cell(it.getattr(env, "Rmax", st)), st.cell(it.getattr(env, "Rmin", st))
            rmv, rnv = data(st, it.getattr(env, "Rmaxval", st)), data(st, it.getattr(env, "Rminval", st))
            for i, (vals, perm, zc) in enumerate(rs):
                for k in range(n):
                    p = vals[k]
                    pos = perm.index(k) >= zc
                    cx.eq("reaction history", f"{n} result sets, support {i}, result {k}:max", rmax.at(i, k), p if pos else ZERO, site)
                    cx.eq("reaction history", f"{n} result sets, support {i}, result {k}:min", rmin.at(i, k), ZERO if pos else p, site)
                cx.eq("reaction extreme", f"{n} result sets, support {i}:max", rmv[i], vals[perm[-1]] if zc < n else ZERO, site)
                cx.eq("reaction extreme", f"{n} result sets, support {i}:min", rnv[i], vals[perm[0]] if zc > 0 else ZERO, site)
            for k in range(n):
                heap.unchanged(cx, "result sets not changed", f"{n} result sets, {k}", pre, res[k], st, res[k], site)
            xs = data(st, it.getattr(env, "x", st))
            for i in range(npt):
                cx.eq("stations", f"{n} result sets, {i}", xs[i], x[i], site)
        cx.guard("extreme", f"{n} result sets", go, site)


def env_like(it, st, tag, npt, nsup, nres=2):
    """an Envelopes object built by its constructor from placeholder results of the
    right extent, with every stored array replaced by fresh symbols"""
    x = [sum((sv(f"dx{j}") for j in range(i)), ZERO) for i in range(npt)]
    z = [ZERO] * npt
    res = [result_set(it, st, [dict(x=x, M=z, V=z, R=z, D=z)], [ZERO] * nsup) for _ in range(nres)]
    e = it.new("results.Envelopes", st, lst(st, res))
    for a in ATTR:
        it.setattr(e, a, arr(st, [sv(f"{tag}_{a}{i}", None) for i in range(npt)]), st)
    for a in ("Rmax", "Rmin"):
        it.setattr(e, a, st.new(Arr((nsup, nres), [sv(f"{tag}_{a}{i}_{k}", None) for i in range(nsup) for k in range(nres)])), st)
    for a in ("Rmaxval", "Rminval"):
        it.setattr(e, a, arr(st, [sv(f"{tag}_{a}{i}", None) for i in range(nsup)]), st)
    return e


PAIRS = (("Mmax", "Vco_Mmax", 1), ("Mmin", "Vco_Mmin", -1), ("Vmax", "Mco_Vmax", 1), ("Vmin", "Mco_Vmin", -1))


def ordered_envs(it, st, n, nsup=2, nres=2):
    """n envelopes; station 6k+j carries permutation j of the k-th extreme effect"""
    perms = list(itertools.permutations(range(n)))
    npt = len(perms) * len(PAIRS)
    es = [env_like(it, st, f"e{i}", npt, nsup, nres) for i in range(n)]
    D = [{a: list(data(st, it.getattr(e, a, st))) for a in ATTR} for e in es]
    want = []
    for pi, (ex, co, sg) in enumerate(PAIRS):
        for ji, perm in enumerate(perms):
            j = pi * len(perms) + ji
            acc = ZERO
            for r in perm:
                acc = acc + sv(f"h{r}")
                D[r][ex][j] = acc * const(sg)
            want.append((ex, co, j, perm[-1]))
    for e, d in zip(es, D):
        for a in ATTR:
            it.setattr(e, a, arr(st, d[a]), st)
    # reactions: every permutation of magnitudes for the extremes and history
    RD = []
    for i, e in enumerate(es):
        rx = [sum((sv(f"k{q}") for q in range(((i + s) % n) + 1)), ZERO) for s in range(nsup)]
        it.setattr(e, "Rmaxval", arr(st, rx), st)
        it.setattr(e, "Rminval", arr(st, [-v for v in rx]), st)
        h = [sum((sv(f"y{q}") for q in range(((i + s + k) % n) + 1)), ZERO) for s in range(nsup) for k in range(nres)]
        it.setattr(e, "Rmax", st.new(Arr((nsup, nres), h)), st)
        it.setattr(e, "Rmin", st.new(Arr((nsup, nres), [-v for v in h])), st)
        RD.append((rx, h))
    return es, D, RD, want


def biggest(vals):
    b = vals[0]
    for v in vals[1:]:
        if alg.sign(v - b) == 1:
            b = v
    return b


def expect_env(cx, it, st, tag, out, es, D, RD, want, n, site, history=True):
    A = {a: data(st, it.getattr(out, a, st)) for a in ATTR}
    for ex, co, j, g in want:
        cx.eq("governing extreme", f"{tag}:{ex}[{j}]", A[ex][j], D[g][ex][j], site)
        cx.eq("governing coincident", f"{tag}:{co}[{j}]", A[co][j], D[g][co][j], site)
    for a, sg in (("Rmaxval", 1), ("Rminval", -1)):
        got = data(st, it.getattr(out, a, st))
        for s in range(len(got)):
            cx.eq("reaction extreme", f"{tag}:{a}[{s}]", got[s], biggest([r[0][s] for r in RD[:n]]) * const(sg), site)
    for a, sg in (("Rmax", 1), ("Rmin", -1)):
        got = data(st, it.getattr(out, a, st))
        for q in range(len(got)):
            w = biggest([r[1][q] for r in RD[:n]]) * const(sg) if history else ZERO
            cx.eq("reaction history", f"{tag}:{a}[{q}]", got[q], w, site)


def expect_sum(cx, it, st, tag, out, es, st0, site, n):
    for a in ATTR + ("Rmaxval", "Rminval", "Rmax", "Rmin"):
        got = data(st, it.getattr(out, a, st))
        ins = [data(st0, it.getattr(e, a, st0)) for e in es[:n]]
        for j in range(len(got)):
            cx.eq("superposed", f"{tag}:{a}[{j}]", got[j], sum((i[j] for i in ins), ZERO), site)


@prop("D02", floor=150, rule="Merging 2..3 envelopes (in place, by combine and by operator) gives under every strict ordering of their extremes the governing extreme with that envelope's own coincident effect, element-wise sums for superposition of every stored array, the extreme of the reaction extremes, and the reaction history only while all merged envelopes have the same number of results; operands other than the in-place target are structurally unchanged, also after the merged object is augmented again; a zeroed envelope is zero everywhere; incompatible or empty inputs raise.")
def d02(cx):
    it = cx.interp()
    sA, sC, sS = (cx.loc(f"results.Envelopes.{m}") for m in ("augment", "combine", "sum"))
    CE = "results.Envelopes"

    def cm(st, name, *a, **kw):
        v, _ = it.analyze_call(f"{CE}.{name}", [ClsV(it.prog.cls(CE))] + list(a), kw, st=st)
        return v

    def calls(st, es, mode):
        if mode == "combine":
            return cm(st, "combine", lst(st, es))
        if mode == "combine-tuple":
            return cm(st, "combine", Tup(es), mode=K("envelope"))
        if mode == "|":
            r = es[0]
            for e in es[1:]:
                r = it.meth(r, "__or__", st, e)
            return r
        if mode == "augment":
            for e in es[1:]:
                it.meth(es[0], "augment", st, e)
            return es[0]
        if mode == "zero+augment":
            z = cm(st, "zero_like", es[0])
            for e in es:
                it.meth(z, "augment", st, e)
            return z
        if mode == "combine-sum":
            return cm(st, "combine", lst(st, es), mode=K("sum"))
        if mode == "+":
            r = es[0]
            for e in es[1:]:
                r = it.meth(r, "__add__", st, e)
            return r
        if mode == "sum":
            for e in es[1:]:
                it.meth(es[0], "sum", st, e)
            return es[0]
        z = cm(st, "zero_like", es[0])
        for e in es:
            it.meth(z, "sum", st, e)
        return z

    for n in (2, 3):
        for mode in ("combine", "combine-tuple", "|", "augment", "zero+augment", "combine-sum", "+", "sum", "zero+sum"):
            issum = mode in ("combine-sum", "+", "sum", "zero+sum")
            inplace = mode in ("augment", "sum")
            site = sS if issum else sA
            def go(n=n, mode=mode, issum=issum, inplace=inplace, site=site):
                st = State()
                es, D, RD, want = ordered_envs(it, st, n)
                s0 = heap.snapshot(st, None)
                out = calls(st, es, mode)
                tag = f"{n} envelopes, {mode}"
                if issum:
                    expect_sum(cx, it, st, tag, out, es, s0, site, n)
                else:
                    expect_env(cx, it, st, tag, out, es, D, RD, want, n, site)
                # a later in-place change of the merged object must not reach the operands
                if not inplace:
                    it.meth(out, "sum", st, es[-1])
                for i, e in enumerate(es):
                    if inplace and i == 0:
                        continue
                    heap.unchanged(cx, "operands not changed", f"{tag}: operand {i}", s0, e, st, e, site)
            cx.guard("merge", f"{n} envelopes, {mode}", go, site)
    # different numbers of results: only the extremes survive, and stay dropped
    for mode in ("combine", "|", "augment", "zero+augment"):
        def go(mode=mode):
            st = State()
            es, D, RD, want = ordered_envs(it, st, 3)
            odd = env_like(it, st, "e1", len(D[0]["Mmax"]), 2, nres=3)
            for a in ATTR + ("Rmaxval", "Rminval"):
                it.setattr(odd, a, it.getattr(es[1], a, st), st)
            out = calls(st, [es[0], odd, es[2]], mode)
            expect_env(cx, it, st, f"differing result counts, {mode}", out, es, D, RD, want, 3, sA, history=False)
        cx.guard("history dropped", mode, go, sA)
    for mode in ("combine-sum", "sum", "+"):
        def go(mode=mode):
            st = State()
            es = [env_like(it, st, "a", 3, 2, 2), env_like(it, st, "b", 3, 2, 3), env_like(it, st, "c", 3, 2, 2)]
            out = calls(st, es, mode)
            for a in ("Rmax", "Rmin"):
                for j, v in enumerate(data(st, it.getattr(out, a, st))):
                    cx.eq("history dropped", f"{mode}:{a}[{j}]", v, ZERO, sS)
        cx.guard("history dropped", mode, go, sS)

    def zero():
        st = State()
        e = env_like(it, st, "a", 4, 2, 2)
        s0 = heap.snapshot(st, None)
        z = cm(st, "zero_like", e)
        for a in ATTR + ("Rmaxval", "Rminval", "Rmax", "Rmin"):
            for j, v in enumerate(data(st, it.getattr(z, a, st))):
                cx.eq("zeroed", f"{a}[{j}]", v, ZERO, cx.loc(f"{CE}.zero_like"))
        for j, (v, w) in enumerate(zip(data(st, it.getattr(z, "x", st)), data(s0, it.getattr(e, "x", s0)))):
            cx.eq("zeroed", f"stations[{j}]", v, w, sC)
        heap.unchanged(cx, "operands not changed", "zero_like", s0, e, st, e, sC)
    cx.guard("zeroed", "zero_like", zero, sC)

    def single():
        st = State()
        ci = it.prog.cls("analysis.BeamAnalysis")
        x = [sum((sv(f"dx{j}") for j in range(i)), ZERO) for i in range(2)]
        r = result_set(it, st, [dict(x=x, M=[sv("M0"), -sv("M1")], V=[-sv("V0"), sv("V1")], R=[ZERO] * 2, D=[ZERO] * 2)], [sv("r0"), -sv("r1")])
        ba = st.new(Obj(ci, {"beam_results": r}))
        e = cm(st, "from_beam_analysis", ba)
        w = dict(Mmax=[sv("M0"), ZERO], Mmin=[ZERO, -sv("M1")], Vmax=[ZERO, sv("V1")], Vmin=[-sv("V0"), ZERO],
                 Vco_Mmax=[-sv("V0"), ZERO], Vco_Mmin=[ZERO, sv("V1")], Mco_Vmax=[ZERO, -sv("M1")], Mco_Vmin=[sv("M0"), ZERO],
                 Rmaxval=[sv("r0"), ZERO], Rminval=[ZERO, -sv("r1")])
        for a, xs in w.items():
            for j, (g, v) in enumerate(zip(data(st, it.getattr(e, a, st)), xs)):
                cx.eq("from one analysis", f"{a}[{j}]", g, v, sC)
    cx.guard("from one analysis", "from_beam_analysis", single, sC)

    rejects(cx, it, "no envelopes", lambda st: cm(st, "combine", lst(st, [])), sC)
    rejects(cx, it, "unknown mode", lambda st: cm(st, "combine", lst(st, [env_like(it, st, "a", 3, 2)]), mode=K("max")), sC)
    rejects(cx, it, "unanalysed beam", lambda st: cm(st, "from_beam_analysis", st.new(Obj(it.prog.cls("analysis.BeamAnalysis"), {"beam_results": NONE}))), sC)
    for meth in ("augment", "sum"):
        rejects(cx, it, f"{meth}: different stations", lambda st, m=meth: it.meth(env_like(it, st, "a", 3, 2), m, st, env_like(it, st, "b", 4, 2)), sA)
        rejects(cx, it, f"{meth}: different supports", lambda st, m=meth: it.meth(env_like(it, st, "a", 3, 2), m, st, env_like(it, st, "b", 3, 3)), sA)


# ------------------------------------------------------------------- D03
class Tagged:
    """a context whose obligations carry a prefix"""

    def __init__(self, cx, tag):
        self._cx, self._tag = cx, tag

    def __getattr__(self, a):
        f = getattr(self._cx, a)
        if a in ("eq", "ok", "bad", "und", "guard"):
            return lambda rule, construct, *r, **k: f(rule, self._tag + construct, *r, **k)
        return f


def gap(k, i, given=None):
    """the two parts of the distance between stations i and i + 1 of member k"""
    if given:
        return const(Fraction(given) * (1 + (k + 2 * i) % 3) / 2), const(Fraction(given) * (2 + (2 * k + i) % 3) / 2)
    return sv(f"s{k}_{i}"), sv(f"t{k}_{i}")


def members(ns=(3, 4), given=None):
    """stations of members incl. the duplicated closure stations, and free values"""
    mem, start = [], ZERO
    for k, n in enumerate(ns):
        xs = [start]
        for i in range(n - 1):
            s, t = gap(k, i, given)
            xs.append(xs[-1] + s + t)
        x = [xs[0]] + xs + [xs[-1]]
        m = dict(x=x)
        for e in EFF:
            m[e] = [sv(f"{e}c{k}_0", None)] + [sv(f"{e}{k}_{i}", None) for i in range(n)] + [sv(f"{e}c{k}_1", None)]
        mem.append(m)
        start = xs[-1]
    return mem


def query_points(mem, given=None):
    """(name, coordinate, expected(effect arrays per member))"""
    out = []
    for k, m in enumerate(mem):
        n = len(m["x"]) - 2
        for i in range(n - 1):
            s, t = gap(k, i, given)
            out.append((f"member {k} between stations {i} and {i + 1}", m["x"][1 + i] + s,
                        lambda v, k=k, i=i, s=s, t=t: v[k][1 + i] + (v[k][2 + i] - v[k][1 + i]) * s / (s + t)))
        for i in range(n):
            if k > 0 and i == 0:
                continue
            out.append((f"member {k} at station {i}", m["x"][1 + i], lambda v, k=k, i=i: v[k][1 + i]))
    return out


@prop("D03", floor=100, rule="A point query returns, for every requested effect, the linear interpolation between the two neighbouring evaluation stations of the member containing the point (the left-hand value at a member boundary), never a closure station; the beam-level, result-level and envelope-level queries agree; whole-beam arrays are the member arrays in order with coordinates offset by the preceding lengths; the deflection curve drops exactly the closure stations; exports write each effect under its own heading; per-member reductions use the right member's stations and the documented max/min.")
def d03(cx):
    it = cx.interp()
    sR, sE = cx.loc("results.BeamResults.at"), cx.loc("results.Envelopes.at")

    def dct(st, v):
        c = st.cell(v)
        if not isinstance(c, Dct):
            raise Unsup(f"query result {v!r}")
        return {k.v if isinstance(k, K) else k: x for k, x in c.items.items()}

    def beam_level(st, res):
        return st.new(Obj(it.prog.cls("analysis.BeamAnalysis"), {"beam_results": res, "_beam_results": res}))

    def on(cx, mem0, given):
        for nm, X, want in query_points(mem0, given):
            def go(nm=nm, X=X, want=want):
                st = State()
                res = result_set(it, st, mem0, [ZERO, ZERO])
                v = dct(st, it.meth(res, "at", st, X))
                for e in EFF:
                    cx.eq("point query", f"{nm}:{e}", v.get(e), want([m[e] for m in mem0]), sR)
                v = dct(st, it.meth(res, "at", st, X, attrs=Tup([K("V"), K("M")])))
                if set(v) == {"V", "M"}:
                    cx.ok("point query", f"{nm}:requested effects only", "", sR)
                else:
                    cx.bad("point query", f"{nm}:requested effects only", f"returned {sorted(v)}", sR)
                for e in ("V", "M"):
                    cx.eq("point query", f"{nm}:{e} requested", v.get(e), want([m[e] for m in mem0]), sR)
                ba = beam_level(st, res)
                v = dct(st, it.meth(ba, "at", st, X))
                for e in EFF:
                    cx.eq("beam query", f"{nm}:{e}", v.get(e), want([m[e] for m in mem0]), cx.loc("analysis.BeamAnalysis.at"))
            cx.guard("point query", nm, go, sR)

            def goe(nm=nm, X=X, want=want):
                st = State()
                z = [dict(m, **{e: [ZERO] * len(m["x"]) for e in EFF}) for m in mem0]
                env = it.new("results.Envelopes", st, lst(st, [result_set(it, st, z, [ZERO, ZERO]) for _ in range(2)]))
                vals = {}
                for a in ATTR:
                    vals[a] = [[sv(f"{a}c{k}_{i}", None) for i in range(len(m["x"]))] for k, m in enumerate(mem0)]
                    it.setattr(env, a, arr(st, [e for v in vals[a] for e in v]), st)
                v = dct(st, it.meth(env, "at", st, X))
                for a in ("Mmax", "Mmin", "Vmax", "Vmin"):
                    cx.eq("envelope query", f"{nm}:{a}", v.get(a), want(vals[a]), sE)
                v = dct(st, it.meth(env, "at", st, X, attrs=Tup([K(a) for a in ATTR])))
                for a in ATTR:
                    cx.eq("envelope query", f"{nm}:{a} requested", v.get(a), want(vals[a]), sE)
            cx.guard("envelope query", nm, goe, sE)

        def curve():
            st = State()
            res = result_set(it, st, mem0, [ZERO, ZERO])
            r = it.meth(res, "deflection_curve", st)
            x, d = [data(st, v) for v in r.items]
            wx = [e for m in mem0 for e in m["x"][1:-1]]
            wd = [e for m in mem0 for e in m["D"][1:-1]]
            site = cx.loc("results.BeamResults.deflection_curve")
            if len(x) != len(wx) or len(d) != len(wd):
                cx.bad("deflection curve", "stations", f"{len(x)} stations, {len(wx)} evaluation stations", site)
            for i, (g, w) in enumerate(zip(x, wx)):
                cx.eq("deflection curve", f"x[{i}]", g, w, site)
            for i, (g, w) in enumerate(zip(d, wd)):
                cx.eq("deflection curve", f"D[{i}]", g, w, site)
        cx.guard("deflection curve", "", curve, sR)

        def exports():
            st = State()
            res = result_set(it, st, mem0, [ZERO, ZERO])
            tot = {e: [v for m in mem0 for v in m[e]] for e in ("x",) + EFF}
            z = [dict(m, **{e: [ZERO] * len(m["x"]) for e in EFF}) for m in mem0]
            env = it.new("results.Envelopes", st, lst(st, [result_set(it, st, z, [ZERO, ZERO])]))
            et = {"x": tot["x"]}
            for a in ATTR:
                et[a] = [sv(f"{a}c{i}", None) for i in range(len(tot["x"]))]
                it.setattr(env, a, arr(st, et[a]), st)
            for label, o, tt, kw, cols in (
                    ("results", res, tot, {}, ["x", "M", "V", "R", "D"]),
                    ("beam", beam_level(st, res), tot, {}, ["x", "M", "V", "R", "D"]),
                    ("envelope", env, et, {}, ["x", "Mmax", "Mmin", "Vmax", "Vmin"]),
                    ("envelope coincident", env, et, dict(attrs=Tup([K("Vco_Mmin"), K("Mmin")])), ["x", "Vco_Mmin", "Mmin"])):
                def csv(label=label, o=o, tt=tt, kw=kw, cols=cols):
                    n0 = len(it.events)
                    it.meth(o, "to_csv", st, K("f.csv"), **kw)
                    ev = [e for e in it.events[n0:] if e[0] == "ext" and e[1].endswith("savetxt")]
                    if len(ev) != 1:
                        return cx.und("csv export", label, f"{len(ev)} savetxt calls", sR)
                    _, _, args, k, _, site = ev[0]
                    head = k.get("header")
                    a = st.cell(args[1])
                    if not isinstance(head, K) or not isinstance(a, Arr) or len(a.shape) != 2:
                        return cx.und("csv export", label, "table not explicit", sR)
                    names = head.v.split(",")
                    if sorted(names) != sorted(cols):
                        return cx.bad("csv export", label, f"headings {names}", sR)
                    if a.shape != (len(tt["x"]), len(cols)):
                        return cx.bad("csv export", label, f"table of shape {a.shape}", sR)
                    for j, nm in enumerate(names):
                        for i in range(a.shape[0]):
                            cx.eq("csv export", f"{label}:{nm}[{i}]", a.at(i, j), tt[nm][i], sR)
                cx.guard("csv export", label, csv, sR)

                def frame(label=label, o=o, tt=tt, kw=kw, cols=cols):
                    n0 = len(it.events)
                    it.meth(o, "to_dataframe", st, **kw)
                    ev = [e for e in it.events[n0:] if e[0] == "ext" and e[1].endswith("DataFrame")]
                    if len(ev) != 1 or not isinstance(st.cell(ev[0][2][0]), Dct):
                        return cx.und("dataframe export", label, "table not explicit", sR)
                    d = dct(st, ev[0][2][0])
                    if sorted(d) != sorted(cols):
                        return cx.bad("dataframe export", label, f"columns {sorted(d)}", sR)
                    for nm in cols:
                        got = data(st, d[nm])
                        if len(got) != len(tt[nm]):
                            cx.bad("dataframe export", f"{label}:{nm}", f"{len(got)} rows", sR)
                        for i, (g, w) in enumerate(zip(got, tt[nm])):
                            cx.eq("dataframe export", f"{label}:{nm}[{i}]", g, w, sR)
                cx.guard("dataframe export", label, frame, sR)
        cx.guard("exports", "", exports, sR)

        sP = cx.loc("results.Envelopes.per_span")

        def per_span():
            st = State()
            z = [dict(m, **{e: [ZERO] * len(m["x"]) for e in EFF}) for m in mem0]
            env = it.new("results.Envelopes", st, lst(st, [result_set(it, st, z, [ZERO, ZERO])]))
            # the values are in a known order that differs from the order of the stations
            ends = [0]
            for m in mem0:
                ends.append(ends[-1] + len(m["x"]))
            acc, v = ZERO, []
            for i in range(ends[-1]):
                acc = acc + sv(f"a{i}")
                v.append(acc)
            step = next(q for q in (5, 7, 11, 13, 17) if ends[-1] % q)
            vals = [v[(i * step + 2) % ends[-1]] for i in range(ends[-1])]
            cuts = list(zip(ends, ends[1:]))
            w = {"max": [biggest(vals[lo:hi]) for lo, hi in cuts], "min": [-biggest([-x for x in vals[lo:hi]]) for lo, hi in cuts]}
            for a in ATTR:
                it.setattr(env, a, arr(st, vals), st)
            for a in ATTR:
                auto = "min" if a.endswith("min") else "max"
                for red, key in (("auto", auto), ("max", "max"), ("min", "min"), (None, auto)):
                    kw = {} if red is None else dict(reduce=K(red))
                    got = data(st, it.meth(env, "per_span", st, K(a), **kw))
                    if len(got) != len(cuts):
                        cx.bad("per member", f"{a}:{red}", f"{len(got)} values for {len(cuts)} members", sP)
                        continue
                    for k in range(len(cuts)):
                        cx.eq("per member", f"{a}:{red or 'default'}[{k}]", got[k], w[key][k], sP)
                ch = st.cell(it.meth(env, "per_span", st, K(a), reduce=K("none")))
                if len(ch.ent) != len(cuts):
                    cx.bad("per member", f"{a}:chunks", f"{len(ch.ent)} arrays for {len(cuts)} members", sP)
                    continue
                for k, (lo, hi) in enumerate(cuts):
                    g = data(st, ch.ent[k][1])
                    if len(g) != hi - lo:
                        cx.bad("per member", f"{a}:chunks[{k}]", f"{len(g)} stations, member has {hi - lo}", sP)
                    for i, (x, y) in enumerate(zip(g, vals[lo:hi])):
                        cx.eq("per member", f"{a}:chunks[{k}][{i}]", x, y, sP)
        cx.guard("per member", "", per_span, sP)
        rejects(cx, it, "unknown reduction", lambda st: it.meth(env_like(it, st, "a", 3, 2), "per_span", st, K("Mmax"), reduce=K("mean")), sP)


    for ns, given in ((3, 4), None), ((2,), None), ((3, 2, 4), None), ((2, 3, 2, 3, 2), None), ((3, 4, 2), 1), ((2, 2, 3, 2), Fraction(1, 10 ** 4)), ((3, 3), 10 ** 4):
        on(Tagged(cx, f"{len(ns)} members{'' if given is None else f', lengths in {given}'}: "), members(ns, given), given)

    # concatenation of member arrays
    from .members import end_force_hooks, beam_results
    log = set()
    ih = cx.interp(hooks=end_force_hooks(log))
    sC = cx.loc("results.BeamResults")

    def concat():
        st = State()
        L = [sym(f"L{i}") for i in range(3)]
        b = ih.new("beam.Beam", st, L=lst(st, L), EI=lst(st, [sym(f"E{i}") for i in range(3)]), R=lst(st, [const(-1)] * 8), eletype=lst(st, [const(1)] * 3))
        ih.meth(b, "_set_loads", st)
        n = sym("npts", intlike=True)
        o, d = beam_results(ih, st, b, 8, n)
        vr = st.cell(ih.getattr(o, "vRes", st)).values()
        tot = ih.getattr(o, "results", st)
        if len(vr) != 3:
            cx.bad("concatenation", "members", f"{len(vr)} member results for 3 members", sC)
        off = ZERO
        for k, m in enumerate(vr):
            x = st.cell(ih.getattr(m, "x", st))
            cx.eq("concatenation", f"member {k}: first coordinate", ih.fld_at(x, 0), off, sC)
            cx.eq("concatenation", f"member {k}: last coordinate", ih.fld_at(x, -1), off + L[k], sC)
            if x.n is not None:
                cx.eq("concatenation", f"member {k}: number of stations", x.n, n + const(3), sC)
            off = off + L[k]
            for e in ("x",) + EFF:
                c = st.cell(ih.getattr(tot, e, st))
                mine = st.cell(ih.getattr(m, e, st))
                if not isinstance(c, Cat) or len(c.parts) != 3:
                    cx.und("concatenation", f"{e}: member {k}", f"{type(c).__name__}", sC)
                    continue
                cx.eq("concatenation", f"{e}: member {k}", c.parts[k].elem, mine.elem, sC)
                for p in (0, -1):
                    cx.eq("concatenation", f"{e}: member {k} end {p}", ih.fld_at(c.parts[k], p), ih.fld_at(mine, p), sC)
    cx.guard("concatenation", "", concat, sC)
