"""C: what an analysis depends on: the stability verdict and the history of edits."""
from .envelopes import *  # noqa
from .envelopes import arr, data
from .loads import ints, rejects, lst, LMv
from .members import SolveLog, dof_spec, A06_CONFIGS, FIX, FREE, SPR, SET, FSET, SSET
from .plastic import scaled_eq
from sa import heap

BA = "analysis.BeamAnalysis"


class EigLog:
    """stand-in for the symmetric eigenvalue routine: records the matrix, answers as told"""

    def __init__(self, it, st_answer):
        self.calls = []
        npm = it.npm

        def eig(args, kw, st, pair=False):
            A = npm.to_arr(args[0], st)
            if not (isinstance(A, Arr) and len(A.shape) == 2):
                raise Unsup("eigenvalues of a non-enumerated matrix")
            m = A.shape[0]
            self.calls.append([[as_num(A.at(i, j)) for j in range(m)] for i in range(m)])
            stable = st_answer(len(self.calls) - 1)
            lo = stable if not isinstance(stable, bool) else const(Fraction(1, 10 ** 10)) if stable else const(Fraction(1, 10 ** 14))
            v = [lo] + [const(1)] * (m - 1) if m > 1 else ([const(1)] if stable else [ZERO])
            if pair:
                raise Unsup("eigenvectors")
            return st.new(Arr((m,), v))

        npm.n_numpy_linalg_eigvalsh = npm.n_scipy_linalg_eigvalsh = eig
        npm.n_numpy_linalg_eigvals = npm.n_scipy_linalg_eigvals = eig


def model(it, st, kinds, ent=(), tag="", etypes=None, GAv=None):
    nd = len(kinds)
    n = nd // 2 - 1
    R, D = zip(*[dof_spec(k, i) for i, k in enumerate(kinds)])
    kw = dict(R=lst(st, R))
    if any(x is not None for x in D):
        kw["D"] = lst(st, [NONE if x is None else x for x in D])
    L, EI = [sym(f"L{tag}{i}") for i in range(n)], [sym(f"E{tag}{i}") for i in range(n)]
    if ent:
        kw["LM"] = LMv(st, ent)
    if etypes:
        kw["eletype"] = lst(st, ints(*etypes))
    return it.new(BA, st, lst(st, L), lst(st, EI), **kw), L, EI, R, D


def frees(kinds):
    return [i for i, k in enumerate(kinds) if k in (FREE, SPR)]


def outcome(it, st, fn):
    """'raised' | 'returned' | 'undecided' for a call"""
    n0 = len(it.events)
    r, exits = it.attempt(fn)
    if r is None:
        if exits:               # what the call had written when it raised stays written
            s2 = exits[-1][2]
            for _, pc, s1, _ in reversed(exits[:-1]):
                s2 = it.join(pc, State({}, s1.heap, TRUE), State({}, s2.heap, TRUE))
            st.heap = s2.heap
        return "raised", None
    if any(e[0] == "raise" for e in it.events[n0:]):
        return "undecided", r
    return "returned", r


def says(cx, rule, nm, got, want, site):
    if got == want:
        cx.ok(rule, nm, want, site)
    elif got in ("raised", "returned"):
        cx.bad(rule, nm, f"{got}, should have {want}", site)
    else:
        cx.und(rule, nm, f"{got}", site)


def homogeneous(cx, nm, M, L, EI, R, kinds, site):
    """a change of the length unit scales every entry of the judged matrix alike"""
    c = sym("c")
    mp = {}
    for x in L:
        mp[next(iter(x.atoms()))] = x * c
    for i, k in enumerate(kinds):
        if k == SPR:
            mp[next(iter(R[i].atoms()))] = R[i] / (c ** 3 if i % 2 == 0 else c)
    base = None
    for i in range(len(M)):
        for j in range(i, len(M)):
            if alg.is_zero(M[i][j]):
                continue
            f = alg.subst(M[i][j], mp) / M[i][j]
            if base is None:
                base = (f, i, j)
            elif not alg.equal(f, base[0]):
                return cx.bad("independent of the units", nm, f"entry ({i},{j}) scales by {alg.show(f, 80)}, entry ({base[1]},{base[2]}) by {alg.show(base[0], 80)} when the length unit changes", site)
    cx.ok("independent of the units", nm, "all entries scale alike", site)


@prop("C01", floor=60, rule="the matrix whose eigenvalues decide stability is the free partition of the system handed to the solver, up to a positive diagonal scaling that makes it independent of the units; outcome for either answer; no reuse of a verdict over a structural edit")
def c01(cx):
    site = cx.loc(f"{BA}.analyze")
    w = sym("w", None)
    for name, kinds in A06_CONFIGS.items():
        fr = frees(kinds)
        for how in ("analyze", "is_stable"):
            def go(name=name, kinds=kinds, how=how):
                it, st = cx.interp(tol0=False), State()
                it.exact_raise = {"LinAlgError", "ValueError"}
                sl, ev = SolveLog(it), EigLog(it, lambda k: True)
                ba, L, EI, R, D = model(it, st, kinds, [] if SSET in kinds else [[const(1), const(1), w]])
                if how == "analyze":
                    says(cx, "verdict", f"{name}: stable", outcome(it, st, lambda: it.meth(ba, "analyze", st))[0], "returned", site)
                else:
                    o, r = outcome(it, st, lambda: it.meth(ba, "is_stable", st))
                    flag(cx, "verdict", f"{name}: is_stable of a stable structure", r, alg.TRUE, site)
                    it.meth(ba, "analyze", st, check_stability=alg.FALSE)
                if not fr:
                    return
                if len(ev.calls) < 1 or len(sl.calls) != 1:
                    return cx.und("judged matrix", f"{name} ({how})", f"{len(ev.calls)} eigenvalue problems, {len(sl.calls)} solutions", site)
                A = sl.calls[0][0]
                M = ev.calls[0]
                if len(M) != len(fr):
                    return cx.bad("judged matrix", f"{name} ({how})", f"{len(M)} degrees of freedom judged, {len(fr)} are free", site)
                want = [[A[i][j] for j in fr] for i in fr]
                why = scaled_eq(M, want)
                if why:
                    cx.bad("judged matrix", f"{name} ({how})", why, site)
                else:
                    cx.ok("judged matrix", f"{name} ({how})", f"free partition, {len(fr)} degrees of freedom", site)
                homogeneous(cx, f"{name} ({how})", M, L, EI, R, kinds, site)
            cx.guard("judged matrix", f"{name} ({how})", go, site)

            def un(name=name, kinds=kinds, how=how):
                if not fr:
                    return
                it, st = cx.interp(tol0=False), State()
                it.exact_raise = {"LinAlgError", "ValueError"}
                sl, ev = SolveLog(it), EigLog(it, lambda k: False)
                ba, L, EI, R, D = model(it, st, kinds, [] if SSET in kinds else [[const(1), const(1), w]])
                if how == "analyze":
                    says(cx, "verdict", f"{name}: mechanism", outcome(it, st, lambda: it.meth(ba, "analyze", st))[0], "raised", site)
                else:
                    for k in range(2):
                        o, r = outcome(it, st, lambda: it.meth(ba, "is_stable", st))
                        flag(cx, "verdict", f"{name}: is_stable of a mechanism, call {k+1}", r, alg.FALSE, site)
                    says(cx, "verdict", f"{name}: analyze after is_stable of a mechanism", outcome(it, st, lambda: it.meth(ba, "analyze", st))[0], "raised", site)
            cx.guard("verdict", f"{name} ({how})", un, site)
    # the check can be waived, for that analysis only
    kinds = A06_CONFIGS["2-span continuous"]

    def waived():
        it, st = cx.interp(tol0=False), State()
        it.exact_raise = {"LinAlgError", "ValueError"}
        sl, ev = SolveLog(it), EigLog(it, lambda k: False)
        ba, *_ = model(it, st, kinds, [[const(1), const(1), w]])
        says(cx, "waived check", "mechanism analysed on request", outcome(it, st, lambda: it.meth(ba, "analyze", st, check_stability=alg.FALSE))[0], "returned", site)
        says(cx, "waived check", "the next analysis checks again", outcome(it, st, lambda: it.meth(ba, "analyze", st))[0], "raised", site)
    cx.guard("waived check", "waived", waived, site)
    # a verdict is not carried over a change of the structure
    for ename, edit in EDITS.items():
        for first in ("analyze", "is_stable"):
            for then in ("analyze", "is_stable"):
                nm = f"{first}, {ename}, {then}"

                def go(edit=edit, first=first, then=then, nm=nm):
                    it, st = cx.interp(tol0=False), State()
                    it.exact_raise = {"LinAlgError", "ValueError"}
                    ok = [True]
                    sl, ev = SolveLog(it), EigLog(it, lambda k: ok[0])
                    ba, *_ = model(it, st, kinds, [[const(1), const(1), w]])
                    it.meth(ba, first, st)
                    edit(it, st, ba)
                    ok[0] = False
                    o, r = outcome(it, st, lambda: it.meth(ba, then, st))
                    if then == "analyze":
                        says(cx, "verdict after an edit", nm, o, "raised", site)
                    else:
                        flag(cx, "verdict after an edit", nm, r, alg.FALSE, site)
                cx.guard("verdict after an edit", nm, go, site)


def flag(cx, rule, nm, got, want, site):
    if got == want:
        cx.ok(rule, nm, str(want), site)
    elif got in (alg.TRUE, alg.FALSE):
        cx.bad(rule, nm, f"{got}, should be {want}", site)
    else:
        cx.und(rule, nm, f"{got!r}", site)


def _beam(it, st, ba):
    return it.getattr(ba, "beam", st)


def ed_restraints(it, st, ba):
    it.setattr(_beam(it, st, ba), "restraints", lst(st, ints(-1, 0, 0, 0, 0, 0)), st)


def ed_prescribed(it, st, ba):
    it.setattr(_beam(it, st, ba), "prescribed_displacements", lst(st, [NONE, NONE, sym("g", None), NONE, NONE, NONE]), st)


EDITS = {"new restraints": ed_restraints, "new settlements": ed_prescribed}


class PosSolve:
    """solver stand-in whose unknowns are named by position only"""

    def __init__(self, it):
        self.calls = []
        npm = it.npm
        it.exact_raise = {"LinAlgError", "ValueError"}

        def solve(args, kw, st):
            A, b = npm.to_arr(args[0], st), npm.to_arr(args[1], st)
            if not (isinstance(A, Arr) and isinstance(b, Arr) and len(A.shape) == 2 and len(b.shape) == 1):
                raise Unsup("solve of a non-enumerated system")
            m = b.shape[0]
            self.calls.append(([[as_num(A.at(i, j)) for j in range(m)] for i in range(m)], [as_num(x) for x in b.data]))
            return st.new(Arr((m,), [sym(f"u{j}", None) for j in range(m)]))

        npm.n_numpy_linalg_solve = npm.n_scipy_linalg_solve = solve


class Fin:
    """final configuration of a two-member beam"""

    def __init__(self, LM, R=(-1, 0, -1, 0, -1, 0), D=None, npts=None):
        self.LM, self.R, self.D, self.npts = LM, R, D, npts


def L_(st, ents):
    return LMv(st, ents)


C02_EDITS = {}


def edit(name):
    def deco(f):
        C02_EDITS[name] = f
        return f
    return deco


def _u(k, s):
    return [const(k), const(1), sym(s, None)]


@edit("set_loads")
def _e(it, st, ba, f):
    f.LM = [_u(2, "wn"), [const(1), const(2), sym("Pn", None), sym("L0") / const(3)]]
    it.meth(ba, "set_loads", st, L_(st, f.LM))


@edit("no loads")
def _e(it, st, ba, f):
    f.LM = []
    it.meth(ba, "set_loads", st, L_(st, []))


@edit("loads of the beam")
def _e(it, st, ba, f):
    f.LM = [[const(2), const(4), sym("mn", None), sym("L1") / const(2)]]
    it.setattr(_beam(it, st, ba), "loads", L_(st, f.LM), st)


@edit("add_udl")
def _e(it, st, ba, f):
    f.LM = f.LM + [_u(2, "wa")]
    it.meth(ba, "add_udl", st, const(2), sym("wa", None))


@edit("add_pl")
def _e(it, st, ba, f):
    f.LM = f.LM + [[const(1), const(2), sym("Pa", None), sym("L0") / const(4)]]
    it.meth(ba, "add_pl", st, const(1), sym("Pa", None), sym("L0") / const(4))


@edit("add_pudl")
def _e(it, st, ba, f):
    a, c = sym("L1") / const(4), sym("L1") / const(3)
    f.LM = f.LM + [[const(2), const(3), sym("wp", None), a, c]]
    it.meth(ba, "add_pudl", st, const(2), sym("wp", None), a, c)


@edit("add_ml")
def _e(it, st, ba, f):
    f.LM = f.LM + [[const(1), const(4), sym("ma", None), sym("L0") / const(5)]]
    it.meth(ba, "add_ml", st, const(1), sym("ma", None), sym("L0") / const(5))


@edit("add_load on the beam")
def _e(it, st, ba, f):
    f.LM = f.LM + [_u(1, "wl")]
    it.meth(_beam(it, st, ba), "add_load", st, lst(st, _u(1, "wl")))


@edit("restraints")
def _e(it, st, ba, f):
    f.R = (-1, -1, 0, 0, -1, 0)
    it.setattr(_beam(it, st, ba), "restraints", lst(st, ints(*f.R)), st)


@edit("spring support")
def _e(it, st, ba, f):
    f.R = (-1, 0, sym("ksp"), 0, -1, -1)
    it.setattr(_beam(it, st, ba), "restraints", lst(st, [const(x) if isinstance(x, int) else x for x in f.R]), st)


@edit("settlement")
def _e(it, st, ba, f):
    f.D = (None, None, sym("dn", None), None, None, None)
    it.setattr(_beam(it, st, ba), "prescribed_displacements", lst(st, [NONE if x is None else x for x in f.D]), st)


@edit("stations")
def _e(it, st, ba, f):
    f.npts = 6


def build(it, st, f, npts=5):
    kw = {}
    if f.D is not None:
        kw["D"] = lst(st, [NONE if x is None else x for x in f.D])
    ba = it.new(BA, st, lst(st, [sym("L0"), sym("L1")]), lst(st, [sym("E0"), sym("E1")]), lst(st, [const(x) if isinstance(x, int) else x for x in f.R]), LM=L_(st, f.LM), **kw)
    return ba


def run(it, st, ba, f):
    return it.meth(ba, "analyze", st, npts=const(f.npts or 5), check_stability=alg.FALSE)


def observed(it, st, ba):
    """the results of the last analysis as plain numbers"""
    br = it.getattr(ba, "beam_results", st)
    out = {}
    for a in ("D", "R", "Rs"):
        out[a] = [as_num(x) for x in data(st, it.getattr(br, a, st))]
    tot = it.getattr(br, "results", st)
    for a in ("x", "M", "V"):
        out["along " + a] = [as_num(x) for x in data(st, it.getattr(tot, a, st))]
    return out


def same(cx, rule, nm, got, want, site):
    for k, w in want.items():
        g = got[k]
        if len(g) != len(w):
            cx.bad(rule, f"{nm}: {k}", f"{len(g)} values, {len(w)} expected", site)
            continue
        bads = []
        st_ = "ok"
        for i, (a, b) in enumerate(zip(g, w)):
            s, m = compare(a, b)
            if s != "ok":
                bads.append(f"[{i}] {m}")
                st_ = s if st_ != "bad" else st_
        {"ok": cx.ok, "bad": cx.bad, "und": cx.und}[st_](rule, f"{nm}: {k}", "; ".join(bads)[:600] or f"{len(w)} values", site)


@prop("C02", floor=150, rule="after any sequence of edits and analyses the system handed to the solver and the results equal those of a model built directly in the final configuration; earlier result objects and the results before a failed analysis stay as they were")
def c02(cx):
    site = cx.loc(f"{BA}.analyze")
    fresh = {}

    def reference(f):
        key = repr((f.LM, f.R, f.D, f.npts))
        if key not in fresh:
            it, st = cx.interp(tol0=True), State()
            sl = PosSolve(it)
            ba = build(it, st, f)
            run(it, st, ba, f)
            fresh[key] = (sl.calls[-1], observed(it, st, ba))
        return fresh[key]

    def against(nm, it, st, sl, ba, f):
        (A, b), want = reference(f)
        A2, b2 = sl.calls[-1]
        same(cx, "the system solved", nm, {"stiffness": [x for r in A2 for x in r], "loads": b2}, {"stiffness": [x for r in A for x in r], "loads": b}, site)
        same(cx, "the results", nm, observed(it, st, ba), want, site)

    start = lambda: Fin([_u(1, "w0"), [const(2), const(2), sym("P0", None), sym("L1") / const(3)]])
    names = list(C02_EDITS)
    seqs = [(a,) for a in names] + [(a, b) for a, b in zip(names, names[3:] + names[:3])] + [("settlement", "restraints", "set_loads"), ("stations", "spring support", "add_pl"), ("set_loads", "add_udl", "set_loads")]
    for seq in seqs:
        for between in (True, False):
            nm = ", ".join(seq) + (", analysed after each" if between else ", then analysed")

            def go(seq=seq, between=between, nm=nm):
                it, st = cx.interp(tol0=True), State()
                sl = PosSolve(it)
                f = start()
                ba = build(it, st, f)
                if between:
                    run(it, st, ba, f)
                for k, e in enumerate(seq):
                    if between:
                        old = it.getattr(ba, "beam_results", st)
                        pre = heap.snapshot(st, None)
                    C02_EDITS[e](it, st, ba, f)
                    if between:
                        heap.unchanged(cx, "results kept until the next analysis", f"{nm}: {k}", pre, old, st, it.getattr(ba, "beam_results", st), site, skip=("beam", "_beam"))
                        run(it, st, ba, f)
                        heap.unchanged(cx, "earlier results kept", f"{nm}: {k}", pre, old, st, old, site, skip=("beam", "_beam"))
                if not between:
                    run(it, st, ba, f)
                against(nm, it, st, sl, ba, f)
            cx.guard("the results", nm, go, site)

    # an analysis that fails leaves the results of the one before
    def failing(nm, breakit, opts):
        def go():
            it, st = cx.interp(tol0=True), State()
            sl = PosSolve(it)
            f = start()
            if nm == "mechanism":       # the verdict of a model built directly in this configuration
                it0, s0 = cx.interp(tol0=True), State()
                PosSolve(it0)
                b0 = build(it0, s0, f)
                EigLog(it0, lambda k: False)
                says(cx, "failed analysis", f"{nm}: directly", outcome(it0, s0, lambda: it0.meth(b0, "analyze", s0, **opts))[0], "raised", site)
            ba = build(it, st, f)
            run(it, st, ba, f)
            ev = EigLog(it, lambda k: False)
            old = it.getattr(ba, "beam_results", st)
            pre = heap.snapshot(st, None)
            breakit(it, st, ba)
            o, _ = outcome(it, st, lambda: it.meth(ba, "analyze", st, **opts))
            if o != "raised":
                return says(cx, "failed analysis", nm, o, "raised", site)
            heap.unchanged(cx, "results kept by a failed analysis", nm, pre, old, st, it.getattr(ba, "beam_results", st), site, skip=("beam", "_beam"))
        cx.guard("results kept by a failed analysis", nm, go, site)

    # the list handed over is edited in place and handed over again (or re-read at the next analysis)
    for again in (True, False):
        for how in ("entry", "append", "remove"):
            nm = f"load list edited in place ({how}){', set again' if again else ''}"

            def inplace(again=again, how=how, nm=nm):
                it, st = cx.interp(tol0=True), State()
                sl = PosSolve(it)
                f = start()
                ba = build(it, st, Fin([]))
                ref = L_(st, f.LM)
                it.meth(ba, "set_loads", st, ref)
                run(it, st, ba, f)
                c = st.w(ref)
                if how == "entry":
                    e = st.w(c.values()[0])
                    e.ent = e.ent[:-1] + [(TRUE, sym("wi", None))]
                    f.LM = [_u(1, "wi")] + f.LM[1:]
                elif how == "append":
                    c.ent = c.ent + [(TRUE, lst(st, _u(2, "wi")))]
                    f.LM = f.LM + [_u(2, "wi")]
                else:
                    c.ent = c.ent[:1]
                    f.LM = f.LM[:1]
                if again:
                    it.meth(ba, "set_loads", st, ref)
                run(it, st, ba, f)
                against(nm, it, st, sl, ba, f)
            if again:
                cx.guard("the results", nm, inplace, site)

    failing("mechanism", lambda it, st, ba: None, {})
    failing("mechanism after new loads", lambda it, st, ba: it.meth(ba, "add_udl", st, const(1), sym("wx", None)), {})
    failing("mechanism after new restraints", lambda it, st, ba: it.setattr(_beam(it, st, ba), "restraints", lst(st, ints(-1, 0, 0, 0, 0, 0)), st), {})

    def singular(it, st, ba):
        def solve(args, kw, s):
            it.raise_event("LinAlgError", s, s.pc)
            raise Raised("LinAlgError")
        it.npm.n_numpy_linalg_solve = it.npm.n_scipy_linalg_solve = solve
    failing("singular system", singular, {"check_stability": alg.FALSE})
