"""G: incremental elasto-plastic analysis (the linear solver is a stand-in whose
answers are scripted; every system handed to it is recorded)."""
from .envelopes import *  # noqa
from .envelopes import arr, data, sv
from .loads import ints, rejects
from .bridge import st_list
from sa import heap

CLS = "nonlinear.NonlinearBeamAnalysis"


def kff(E, L):
    return [[q / L ** 3 for q in r] for r in (
        [const(12) * E, const(6) * E * L, const(-12) * E, const(6) * E * L],
        [const(6) * E * L, const(4) * E * L ** 2, const(-6) * E * L, const(2) * E * L ** 2],
        [const(-12) * E, const(-6) * E * L, const(12) * E, const(-6) * E * L],
        [const(6) * E * L, const(2) * E * L ** 2, const(-6) * E * L, const(4) * E * L ** 2])]


def release(k, d):
    """static condensation of one rotation"""
    p = k[d][d]
    return [[k[i][j] - k[i][d] * k[d][j] / p for j in range(4)] for i in range(4)]


def kdeg(E, L, R1, R2):
    """degraded element stiffness: end parameters R1 (left), R2 (right), plain numbers"""
    k = kff(E, L)
    o = release(k, 3) if R1 >= R2 else release(k, 1)
    lo, hi = (R2, R1) if R1 >= R2 else (R1, R2)
    return [[const(lo) * k[i][j] + const(hi - lo) * o[i][j] for j in range(4)] for i in range(4)]


class Ref:
    """the documented model: mesh of equal elements per span, capacities, hinge ownership"""

    def __init__(self, ne, h, E, R, Mp=None, My=None):
        self.ne, self.R = ne, R
        self.h = h if isinstance(h, list) else [h] * len(ne)
        self.E = E
        self.el = [(i, self.h[i], E[i]) for i, n in enumerate(ne) for _ in range(n)]
        self.n = len(self.el) + 1
        self.x = [ZERO]
        for i, l, e in self.el:
            self.x.append(self.x[-1] + l)
        sup = [0]
        for n in ne:
            sup.append(sup[-1] + n)
        self.sup = sup
        self.fixed = [2 * sup[k // 2] + k % 2 for k, r in enumerate(R) if r == -1]
        self.free = [d for d in range(2 * self.n) if d not in self.fixed]
        self.Mp, self.My = Mp, My
        if Mp is not None:
            mem = [[self.el[max(j - 1, 0)][0], self.el[min(j, self.n - 2)][0]] for j in range(self.n)]
            self.nMp = [min(Mp[a], Mp[b]) for a, b in mem]
            self.nMy = [min(My[a], My[b]) for a, b in mem]

    def K(self, R=None):
        K = [[ZERO] * (2 * self.n) for _ in range(2 * self.n)]
        for e, (i, l, E) in enumerate(self.el):
            k = kff(E, l) if R is None else kdeg(E, l, *R[e])
            for p in range(4):
                for q in range(4):
                    K[2 * e + p][2 * e + q] = K[2 * e + p][2 * e + q] + k[p][q]
        return K

    def dM(self, u, R=None):
        out = []
        for e, (i, l, E) in enumerate(self.el):
            k = kff(E, l) if R is None else kdeg(E, l, *R[e])
            f = [sum((k[p][q] * u[2 * e + q] for q in range(4)), ZERO) for p in range(4)]
            if e == 0:
                out.append(-f[1])
            out.append(f[3])
        return out


def full(ref, A, b):
    """the recorded system as (stiffness over all degrees of freedom, load, free set)"""
    n = len(b)
    if n == len(ref.free) and n != 2 * ref.n:
        return A, b, list(ref.free)
    return [[A[i][j] for j in ref.free] for i in ref.free], [b[i] for i in ref.free], list(ref.free)


class Script:
    """stand-in for the linear solver"""

    def __init__(self, it, ref, answer):
        self.calls, self.ref, self.answer, self.rank = [], ref, answer, []
        npm = it.npm
        it.exact_raise = {"LinAlgError"}

        def solve(args, kw, st):
            A, b = npm.to_arr(args[0], st), npm.to_arr(args[1], st)
            if not (isinstance(A, Arr) and isinstance(b, Arr) and len(A.shape) == 2 and len(b.shape) == 1):
                raise Unsup("solve of a non-enumerated system")
            m = b.shape[0]
            if m not in (2 * ref.n, len(ref.free)):
                raise Unsup(f"system of {m} unknowns")
            rec = dict(A=[[as_num(A.at(i, j)) for j in range(m)] for i in range(m)], b=[as_num(x) for x in b.data])
            self.calls.append(rec)
            u = self.answer(len(self.calls) - 1)
            if u is None:
                from sa.npmodel import raise_raised
                raise_raised("LinAlgError")
            rec["u"] = u
            return st.new(Arr((m,), list(u) if m == 2 * ref.n else [u[d] for d in ref.free]))

        npm.n_numpy_linalg_solve = npm.n_scipy_linalg_solve = solve

        def rank(args, kw, st):
            A = npm.to_arr(args[0], st)
            if not (isinstance(A, Arr) and len(A.shape) == 2):
                raise Unsup("rank of a non-enumerated matrix")
            m = A.shape[0]
            self.rank.append([[as_num(A.at(i, j)) for j in range(m)] for i in range(m)])
            return const(m - (1 if self.mech(len(self.rank) - 1) else 0))

        self.mech = lambda k: False
        npm.n_matrix_rank = npm.n_numpy_linalg_matrix_rank = rank


def make_nba(it, st, ref, **kw):
    args = dict(L=lst(st, [const(n) * h for n, h in zip(ref.ne, ref.h)]), EI=lst(st, list(ref.E)), R=lst(st, ints(*ref.R)))
    args.update(kw)
    return it.new(CLS, st, **args)


def restrained_ok(cx, nm, ref, rec, site):
    """unknowns at restrained degrees of freedom are held at zero"""
    A, b = rec["A"], rec["b"]
    if len(b) == len(ref.free) and len(b) != 2 * ref.n:
        return cx.ok("restraints held", nm, "restrained unknowns eliminated", site)
    for d in ref.fixed:
        off = [j for j in range(len(b)) if j != d and not alg.is_zero(A[d][j])]
        cx.eq("restraints held", f"{nm}: load at {d}", b[d], ZERO, site)
        if off:
            cx.bad("restraints held", f"{nm}: row {d}", f"coupled to {off}", site)
        elif alg.is_zero(A[d][d]):
            cx.bad("restraints held", f"{nm}: row {d}", "no pivot", site)
        else:
            cx.ok("restraints held", f"{nm}: row {d}", "identity row", site)


P2 = [-1, 0]
MESH = 3
# (name, elements per span, element length per span, restraints)
LAY = [("one span", [2], [3], [-1, 0, -1, 0]), ("fixed start", [2], [Fraction(5, 2)], [-1, -1, 0, 0]),
       ("two spans", [2, 1], [3, 4], P2 * 3), ("three spans", [1, 2, 1], [2, 3, 4], [-1, -1, -1, 0, 0, 0, -1, -1])]


@prop("G01", floor=1500, rule="every linear system handed to the solver, and the state after it, equals the documented degraded model for scripted moment histories (solver opaque, its answers chosen so that each branch of the law is met)")
def g01(cx):
    site = cx.loc(f"{CLS}.analyze")
    history(cx, site)
    refusals(cx, site)
    BIG = const(10 ** 9)
    for nm, ne, hs, R in LAY:
        E = [sym("E") * const(i + 1) for i in range(len(ne))]
        hs = [const(v) for v in hs]
        ref = Ref(ne, hs, E, R)
        nd = 2 * ref.n
        loads = []
        for i, n in enumerate(ne):
            h = hs[i]
            for e in range(n):
                e0 = sum(ne[:i]) + e
                x0 = const(e) * h
                for pn, t in (("at its start", const(0)), ("left of the middle", h / const(3)), ("right of the middle", h * const(Fraction(3, 5))), ("at its end", h)):
                    loads.append((f"point load {pn} of element {e} of span {i+1}", i, e0, [const(i + 1), const(2), sym("P", None), x0 + t], t))
            loads.append((f"uniform load on span {i+1}", i, None, [const(i + 1), const(1), sym("w", None)], None))

        def force(ld):
            _, i, e0, ent, p = ld
            F = [ZERO] * nd
            h = hs[i]
            if e0 is None:
                for e, (s, l, _E) in enumerate(ref.el):
                    if s == i:
                        for d in (2 * e, 2 * e + 2):
                            F[d] = F[d] - ent[2] * l / const(2)
                return F
            q = h - p
            P = ent[2]
            for d, v in ((0, q ** 2 * (const(3) * p + q) / h ** 3), (1, p * q ** 2 / h ** 2), (2, p ** 2 * (p + const(3) * q) / h ** 3), (3, -p ** 2 * q / h ** 2)):
                F[2 * e0 + d] = F[2 * e0 + d] - P * v
            return F

        def run(lds, answer, lam, st, **kw):
            it = cx.interp(tol0=True)
            sc = Script(it, ref, answer)
            nba = make_nba(it, st, ref, Mp=lst(st, [BIG * e for e in E]), mesh_size=const(MESH))
            r = it.meth(nba, "analyze", st, LMv(st, [l[3] for l in lds]), lambda_max=lam, **kw)
            return it, sc, r

        zero = lambda k: [ZERO] * nd
        # loads and stiffness
        for grp in [[l] for l in loads] + [[loads[0], loads[-1], loads[1], loads[1]]]:
            name = f"{nm}: " + " + ".join(l[0] for l in grp)

            def go(grp=grp, name=name):
                st = State()
                it, sc, r = run(grp, zero, const(Fraction(1, 20)), st)
                if len(sc.calls) != 1:
                    return cx.bad("increments", name, f"{len(sc.calls)} solutions for one increment", site)
                A, bb, fr = full(ref, sc.calls[0]["A"], sc.calls[0]["b"])
                F = [ZERO] * nd
                for l in grp:
                    F = [u + v for u, v in zip(F, force(l))]
                for i, d in enumerate(fr):
                    cx.eq("reference loads", f"{name}: degree of freedom {d}", bb[i], F[d] / const(20), cx.loc(f"{CLS}"))
                K = ref.K()
                if grp is loads or len(grp) > 1 or grp[0] is loads[0]:
                    for i, d in enumerate(fr):
                        for j, e in enumerate(fr):
                            cx.eq("elastic stiffness", f"{nm}: ({d},{e})", A[i][j], K[d][e], cx.loc(f"{CLS}"))
                    restrained_ok(cx, nm, ref, sc.calls[0], site)
            cx.guard("reference loads", name, go, site)
        # moments and displacements are the linear images of the solution, summed over increments
        for d in ref.free:
            def go(d=d):
                st = State()
                t = [const(0) if k != d else ONE for k in range(nd)]
                it, sc, r = run(loads[:1], lambda k: [const(k + 1) * q for q in t], const(Fraction(3, 10)), st)
                want = ref.dM([const(6) * q for q in t])
                M = data(st, it.getattr(r, "final_moments", st))
                for j, (u, v) in enumerate(zip(M, want)):
                    cx.eq("moments", f"{nm}: unit {d}, node {j}", u, v, site)
                D = data(st, it.getattr(r, "final_displacements", st))
                for j in range(nd):
                    cx.eq("displacements", f"{nm}: unit {d}, {j}", D[j], const(6) * t[j], site)
                cx.eq("load factor", f"{nm}: unit {d}", it.getattr(r, "collapse_lambda", st), const(Fraction(3, 10)), site)
                X = data(st, it.getattr(r, "node_coords", st))
                for j in range(ref.n):
                    cx.eq("node coordinates", f"{nm}: {j}", X[j], ref.x[j], site)
                S = data(st, it.getattr(r, "support_coords", st))
                for j, s in enumerate(ref.sup):
                    cx.eq("support coordinates", f"{nm}: {j}", S[j], ref.x[s], site)
            cx.guard("moments", f"{nm}: unit {d}", go, site)


# -- the documented softening law, on plain numbers (moments in units of E) ---------------
def nk(k, L, R1, R2):
    return [[x.const() for x in r] for r in kdeg(const(k), const(L), R1, R2)]


class Num:
    def __init__(self, ne, hs, R, k, Mp, My, q):
        self.ref = Ref(ne, [const(h) for h in hs], [const(v) for v in k], R, [Fraction(m) for m in Mp], [Fraction(m) for m in My])
        self.q = Fraction(q)
        self.hs, self.k = hs, k
        n = self.ref.n
        self.Rel = [[Fraction(1), Fraction(1)] for _ in self.ref.el]
        self.M = [Fraction(0)] * n
        self.gmax = [Fraction(0)] * n
        self.yl, self.hg, self.events = set(), set(), []

    def rows(self, Rel=None):
        """increment of the nodal moments per unit displacement"""
        ref = self.ref
        out = [[Fraction(0)] * (2 * ref.n) for _ in range(ref.n)]
        for e, (i, l, E) in enumerate(ref.el):
            k = nk(self.k[i], self.hs[i], *(Rel[e] if Rel else (1, 1)))
            for c in range(4):
                if e == 0:
                    out[0][2 * e + c] = -k[1][c]
                out[e + 1][2 * e + c] += k[3][c]
        return out

    def add(self, u, elastic=False):
        D = self.rows(None if elastic else self.Rel)
        self.M = [m + sum(a * b for a, b in zip(r, u)) for m, r in zip(self.M, D)]

    def reach(self, target):
        """displacements taking the nodal moments to the targets (where they can be)"""
        D, fr, n = self.rows(self.Rel), self.ref.free, self.ref.n
        rows = []
        for j in range(n):
            r = [D[j][d] for d in fr] + [target[j] - self.M[j]]
            for p, b in rows:
                if r[p]:
                    f = r[p] / b[p]
                    r = [x - f * y for x, y in zip(r, b)]
            p = next((i for i in range(len(fr)) if r[i]), None)
            if p is not None:
                rows.append((p, r))
        u = [Fraction(0)] * len(fr)
        for p, r in reversed(rows):
            u[p] = (r[-1] - sum(r[i] * u[i] for i in range(len(fr)) if i != p)) / r[p]
        out = [Fraction(0)] * (2 * n)
        for d, v in zip(fr, u):
            out[d] = v
        return out

    def update(self, label):
        new = False
        for j in range(self.ref.n):
            e, end = (0, 0) if j == 0 else (j - 1, 1)
            g, gy = abs(self.M[j]) / self.ref.nMp[j], self.ref.nMy[j] / self.ref.nMp[j]
            if g >= self.gmax[j]:
                self.gmax[j] = g
                r = Fraction(1) if g <= gy else self.q if g >= 1 else 1 - (g - gy) / (1 - gy) * (1 - self.q)
            else:
                r = Fraction(1)
            self.Rel[e][end] = r
            if g >= gy and j not in self.yl:
                self.yl.add(j)
                self.events.append((label, j, "initial_yield"))
            if g >= 1 and j not in self.hg:
                self.hg.add(j)
                self.events.append((label, j, "plastic_hinge"))
                new = True
        return new


LEVELS = ["0.4", "y", "m", "1", "m", "0.3", "1.2", "-0.5", "-y", "-m", "-1.1", "0.2", "0.9", "1", "-1", "0.95", "-0.97", "0.1"]


def level(s, gy):
    sg = -1 if s[0] == "-" else 1
    s = s.lstrip("-")
    return sg * (gy if s == "y" else (gy + 1) / 2 if s == "m" else Fraction(s))


def num(x):
    return Fraction(x.const()) if x.is_const() else None


def events_of(it, st, r):
    out = []
    for ev in st_list(it, st, it.getattr(r, "hinge_events", st)):
        out.append(tuple(it.getattr(ev, a, st) for a in ("load_factor", "node_index", "event_type", "location")))
    return out


def same_events(cx, it, st, r, nm, want, ref, site):
    got = events_of(it, st, r)
    if len(got) != len(want):
        return cx.bad("hinge events", nm, f"{len(got)} recorded, {len(want)} expected: {got}", site)
    for k, ((l, j, t, x), (wl, wj, wt)) in enumerate(zip(got, want)):
        if not isinstance(t, K):
            cx.und("hinge events", f"{nm}: {k}", f"{t!r}", site)
        elif t != K(wt):
            cx.bad("hinge events", f"{nm}: {k}", f"{t}, expected {wt} at node {wj}", site)
        else:
            cx.ok("hinge events", f"{nm}: {k}", t, site)
        cx.eq("hinge events", f"{nm}: {k} node", as_num(j), const(wj), site)
        cx.eq("hinge events", f"{nm}: {k} load", as_num(l), wl, site)
        cx.eq("hinge events", f"{nm}: {k} location", as_num(x), ref.x[wj], site)


def verdict(cx, nm, got, want, site):
    if got == want:
        cx.ok("verdict", nm, f"collapsed = {got}", site)
    elif got in (alg.TRUE, alg.FALSE):
        cx.bad("verdict", nm, f"collapsed = {got}, expected {want}", site)
    else:
        cx.und("verdict", nm, f"{got!r}", site)


def final_state(cx, it, st, r, nm, nu, E, site):
    M = data(st, it.getattr(r, "final_moments", st))
    for j, m in enumerate(nu.M):
        cx.eq("moments", f"{nm}: node {j}", M[j], const(m) * E, site)
    Rf = data(st, it.getattr(r, "final_R", st))
    for e, (r1, r2) in enumerate(nu.Rel):
        cx.eq("stiffness parameters", f"{nm}: element {e} start", Rf[2 * e], const(r1), site)
        cx.eq("stiffness parameters", f"{nm}: element {e} end", Rf[2 * e + 1], const(r2), site)


def stiff_eq(cx, nm, ref, A, fr, K, E, site):
    for i, d in enumerate(fr):
        for j in range(i, len(fr)):
            cx.eq("degraded stiffness", f"{nm}: ({d},{fr[j]})", A[i][j], K[d][fr[j]] * E, site)


def numK(nu, Rel=None):
    return nu.ref.K([tuple(r) for r in (nu.Rel if Rel is None else Rel)])


# name, elements, lengths, restraints, EI, Mp, My, q
HIST = [("one span", [4], [2], [-1, 0, -1, 0], [1], [10], [8], 0),
        ("fixed ended, hardening", [3], [2], [-1, -1, -1, -1], [3], [5], [4], Fraction(1, 50)),
        ("weaker second span", [2, 2], [3, Fraction(5, 2)], P2 * 3, [1, 2], [9, 6], [7, 5], 0),
        ("weaker first span, hardening", [2, 3], [3, 3], [-1, -1, -1, 0, -1, 0], [2, 1], [6, 8], [Fraction(11, 2), 6], Fraction(1, 10)),
        ("default yield moment", [2, 1], [3, 4], P2 * 3, [1, 1], [23, 46], None, 0)]


def history(cx, site):
    for hn, (nm, ne, hs, R, k, Mp, My, q) in enumerate(HIST):
        my = My or [Fraction(m) * 20 / 23 for m in Mp]
        for variant in range(2):
            name = f"{nm}, history {variant + 1}"

            def go():
                nu = Num(ne, hs, R, k, Mp, my, q)
                ref, n, nd = nu.ref, nu.ref.n, 2 * nu.ref.n
                E = sym("E")
                it, st = cx.interp(tol0=True), State()
                steps = 9
                log = []

                def answer(s):
                    tgt = [level(LEVELS[(s + 5 * j + 7 * variant) % len(LEVELS)], ref.nMy[j] / ref.nMp[j]) * ref.nMp[j] for j in range(n)]
                    u = nu.reach(tgt)
                    log.append((numK(nu), u))
                    nu.add(u)
                    nu.ev0 = len(nu.events)
                    nu.update(s)
                    return [const(v) for v in u]

                sc = Script(it, ref, answer)
                P = sym("P", None)
                kw = {} if My is None else dict(My=lst(st, [const(m) * E for m in my]))
                nba = it.new(CLS, st, L=lst(st, [const(a * b) for a, b in zip(ne, hs)]), EI=lst(st, [const(v) * E for v in k]), R=lst(st, ints(*R)),
                             Mp=lst(st, [const(m) * E for m in Mp]), mesh_size=const(max(hs)), q=const(q), **kw)
                r = it.meth(nba, "analyze", st, LMv(st, [[const(1), const(1), P]]), lambda_max=const(1000), max_steps=const(steps), record_every=const(2))
                if len(sc.calls) != steps:
                    hl = len(st_list(it, st, it.getattr(r, "lambda_history", st)))
                    if hl != steps // 2:
                        cx.bad("recorded load factors", name, f"{hl} snapshots of every second of {steps} increments", site)
                    return cx.und("increments", name, f"{len(sc.calls)} solutions for {steps} increments", site)
                F = [ZERO] * nd
                for e, (s_, l, _E) in enumerate(ref.el):
                    if s_ == 0:
                        F[2 * e], F[2 * e + 2] = F[2 * e] - P * l / const(2), F[2 * e + 2] - P * l / const(2)
                lam, lams = ZERO, []
                for s, rec in enumerate(sc.calls):
                    A, b, fr = full(ref, rec["A"], rec["b"])
                    stiff_eq(cx, f"{name}, increment {s}", ref, A, fr, log[s][0], E, site)
                    p = next(i for i, d in enumerate(fr) if not alg.is_zero(F[d]))
                    f = b[p] / F[fr[p]]
                    if not (f.is_const() and f.const() > 0):
                        cx.und("increments", f"{name}, increment {s}", f"load factor {f}", site)
                    for i, d in enumerate(fr):
                        cx.eq("proportional loading", f"{name}, increment {s}: {d}", b[i], f * F[d], site)
                    lam = lam + f
                    lams.append(lam)
                cx.eq("load factor", name, it.getattr(r, "collapse_lambda", st), lam, site)
                final_state(cx, it, st, r, name, nu, E, site)
                U = data(st, it.getattr(r, "final_displacements", st))
                for d in range(nd):
                    cx.eq("displacements", f"{name}: {d}", U[d], const(sum(u[d] for _, u in log)), site)
                same_events(cx, it, st, r, name, [(lams[s], j, t) for s, j, t in nu.events], ref, site)
                h = [as_num(x) for x in st_list(it, st, it.getattr(r, "lambda_history", st))]
                for i, x in enumerate(h):
                    cx.eq("recorded load factors", f"{name}: {i}", x, lams[2 * i + 1], site)
                if len(h) != steps // 2:
                    cx.bad("recorded load factors", name, f"{len(h)} snapshots of every second of {steps} increments", site)
                verdict(cx, name, it.getattr(r, "collapsed", st), alg.FALSE, site)
            cx.guard("softening", name, go, site)


# -- the mechanism verdict ------------------------------------------------------------------
def scaled_eq(A, K):
    """A = D K D for a positive diagonal D (the rank is the same): None if it is, else where not"""
    n = len(K)
    for i in range(n):
        for j in range(i, n):
            a, k = A[i][j], K[i][j]
            if alg.is_zero(K[i][i]) or alg.is_zero(K[j][j]) or i == j:
                if alg.is_zero(a) != alg.is_zero(k):
                    return f"entry ({i},{j}) is {a}, of the stiffness {k}"
                continue
            if not alg.is_zero(a * A[j][i] * K[i][i] * K[j][j] - k * k * A[i][i] * A[j][j]):
                return f"entry ({i},{j}) is {a} (diagonal {A[i][i]}, {A[j][j]}), of the stiffness {k} ({K[i][i]}, {K[j][j]})"
            if alg.sign(a) is not None and alg.sign(k) is not None and alg.sign(a) != alg.sign(k):
                return f"entry ({i},{j}) has the wrong sign"
    return None


# name, elements per span, element length, restraints, groups of nodes in the order they reach full plasticity
MECH = [("simple beam, middle hinge", [4], [2], [-1, 0, -1, 0], [[2]]),
        ("simple beam, hinge at the support", [6], [2], [-1, 0, -1, 0], [[0], [3]]),
        ("fixed-ended beam", [6], [2], [-1, -1, -1, -1], [[0, 6], [3]]),
        ("propped beam", [6], [2], [-1, -1, -1, 0], [[0], [3]]),
        ("two neighbouring nodes", [8], [2], [-1, -1, -1, -1], [[0], [3, 4], [8]]),
        ("two spans", [4, 4], [3, Fraction(16, 5)], P2 * 3, [[4], [1], [7]]),
        ("three spans", [4, 4, 4], [2, 2, 2], P2 * 4, [[4], [8], [1]]),
        # spans meshed differently: what is near is measured on the finer one
        ("finer first span", [2, 5], [Fraction(8, 5), 2], [-1, -1, -1, 0, -1, -1], [[4], [6], [2]]),
        ("finer last span", [5, 2], [2, Fraction(8, 5)], [-1, -1, -1, 0, -1, -1], [[1, 3], [5]]),
        ("finer middle span", [4, 3, 4], [3, Fraction(13, 5), 3], P2 * 4, [[4], [2, 9], [7]])]


@prop("G02", floor=250, rule="the matrix whose rank is tested is the stiffness with one release per hinge; the result for each possible answer of rank test and solver")
def g02(cx):
    site = cx.loc(f"{CLS}.analyze")
    for nm, ne, hs, R, groups in MECH:
        k = [1 + i for i in range(len(ne))]
        Mp = [10 + i for i in range(len(ne))]
        for stop in range(len(groups) + 1):
            # stop < len(groups): the rank test reports a mechanism at that group of hinges;
            # else the solver reports a singular system one increment later
            for by in ("rank", "solver") if stop == len(groups) - 1 else ("rank",) if stop < len(groups) else ("none",):
                name = f"{nm}, " + {"rank": f"mechanism at hinge group {stop + 1}", "solver": "singular system after the last hinge", "none": "no mechanism"}[by]

                def go():
                    nu = Num(ne, hs, R, k, Mp, [Fraction(m) * 4 / 5 for m in Mp], Fraction(1, 10))
                    ref, n = nu.ref, nu.ref.n
                    E = sym("E")
                    it, st = cx.interp(tol0=True), State()
                    # hinge groups form at increments 1, 3, 5, ...
                    form = {2 * i + 1: g for i, g in enumerate(groups)}
                    nst = 2 * len(groups) + 2
                    last = [Fraction(0)] * n
                    M_end, hinges = [], []

                    def answer(s):
                        if by == "solver" and s == 2 * len(groups):
                            return None
                        for j in form.get(s, ()):
                            last[j] = (-1) ** j * Fraction(101, 100) * ref.nMp[j]
                        tgt = [last[j] if last[j] else Fraction(1, 3) * ref.nMp[j] for j in range(n)]
                        u = nu.reach(tgt)
                        nu.add(u)
                        if nu.update(s):
                            hinges.append(sorted(nu.hg))
                        return [const(v) for v in u]

                    sc = Script(it, ref, answer)
                    sc.mech = lambda c: by == "rank" and len(hinges) == stop + 1
                    nba = it.new(CLS, st, L=lst(st, [const(a * b) for a, b in zip(ne, hs)]), EI=lst(st, [const(v) * E for v in k]), R=lst(st, ints(*R)),
                                 Mp=lst(st, [const(m) * E for m in Mp]), My=lst(st, [const(Fraction(m) * 4 / 5) * E for m in Mp]), mesh_size=const(max(hs)), q=const(Fraction(1, 10)))
                    r = it.meth(nba, "analyze", st, LMv(st, [[const(1), const(1), sym("P", None)]]), lambda_max=const(1000), max_steps=const(nst))
                    want_calls = {"rank": 2 * stop + 2, "solver": 2 * len(groups) + 1, "none": nst}[by]
                    if len(hinges) != (stop + 1 if by == "rank" else len(groups)):
                        return cx.und("hinge history", name, f"{len(sc.calls)} increments, hinges {hinges}", site)
                    if len(sc.calls) != want_calls:
                        cx.bad("the analysis ends at collapse", name, f"{len(sc.calls)} increments, {want_calls} expected", site)
                    else:
                        cx.ok("the analysis ends at collapse", name, f"{want_calls} increments", site)
                    verdict(cx, name, it.getattr(r, "collapsed", st), alg.FALSE if by == "none" else alg.TRUE, site)
                    F = ZERO
                    for rec in sc.calls[:-1] if by == "solver" else sc.calls:
                        A, b, fr = full(ref, rec["A"], rec["b"])
                        p = next(i for i, d in enumerate(fr) if d % 2 == 0)
                        F = F + b[p] / (-sym("P", None) * ref.h[0] * const(Fraction(1, 2) if fr[p] == 0 else 1))
                    cx.eq("collapse load factor", name, it.getattr(r, "collapse_lambda", st), F, site)
                    final_state(cx, it, st, r, name, nu, E, site)
                    # the matrix whose rank decides
                    if len(sc.rank) < len(hinges):
                        return cx.und("mechanism test", name, f"{len(sc.rank)} rank tests for {len(hinges)} new hinges", site)
                    if len(sc.rank) == len(hinges):
                        for A, hg in zip(sc.rank, hinges):
                            mech_matrix(cx, f"{name}, hinges at nodes {hg}", ref, A, hg, E, site)
                cx.guard("mechanism", name, go, site)


def mech_matrix(cx, nm, ref, A, hg, E, site):
    site = cx.loc(f"{CLS}.analyze")
    n2 = 2 * ref.n
    if len(A) not in (n2, len(ref.free)):
        return cx.und("mechanism test", nm, f"matrix of {len(A)}", site)
    # neighbouring hinged nodes are one hinge, at any of them
    cl = [[hg[0]]]
    for j in hg[1:]:
        (cl[-1].append(j) if j - cl[-1][-1] <= 1 else cl.append([j]))
    why = None
    for reps in itertools.product(*cl):
        R = [[1, 1] for _ in ref.el]
        for j in reps:
            R[max(0, j - 1)][1 if j else 0] = 0
        K = ref.K([tuple(r) for r in R])
        K = [[K[a][b] * E for b in ref.free] for a in ref.free]
        B = A if len(A) == len(ref.free) else [[A[a][b] for b in ref.free] for a in ref.free]
        w = scaled_eq(B, K)
        if w is None and len(A) == n2:
            w = next((f"restrained degree of freedom {d} is coupled" for d in ref.fixed for j in range(n2) if (j == d) == alg.is_zero(A[d][j])), None)
        if w is None:
            return cx.ok("mechanism test", nm, "the rank is that of the stiffness with these hinges released", site)
        why = why or w
    cx.bad("mechanism test", nm, why, site)


# -- moving loads -------------------------------------------------------------------------------
# name, elements, lengths, restraints, EI, Mp, q, axle weights (units of E) or a plain load, spacings, step, n_sub
MOVE = [("one axle", [2], [3], [-1, 0, -1, 0], [1], [Fraction(2, 5)], 0, None, [], 1, 2),
        ("one axle, hardening", [1, 2], [4, 3], [-1, -1, -1, 0, -1, 0], [1, 2], [Fraction(3, 2), Fraction(4, 5)], Fraction(1, 20), None, [], Fraction(5, 2), 1),
        ("three axles", [2, 1], [2, 2], P2 * 3, [2, 1], [5, 4], 0, [2, 1, 3], [1, Fraction(3, 2)], Fraction(1, 2), 2)]


def refusals(cx, site):
    """inputs outside the documented model are refused, not silently taken for something else"""
    def mk(it, st, **kw):
        a = dict(L=lst(st, [const(4), const(4)]), EI=lst(st, [sym("E0"), sym("E1")]), R=lst(st, ints(*P2 * 3)), Mp=sym("Mp"), mesh_size=const(4))
        a.update(kw)
        return it.new(CLS, st, **a)

    def refuse(name, f):
        it = cx.interp()
        rejects(cx, it, name, lambda st: f(it, st), site)

    for pos in range(2):
        def sec(it, st, pos=pos):
            s = it.new("section.SectionEI", st)
            return mk(it, st, EI=lst(st, [s if i == pos else sym("E") for i in range(2)]))
        refuse(f"variable section in span {pos + 1}", sec)
    def alone(it, st):
        return mk(it, st, EI=it.new("section.SectionEI", st))
    refuse("variable section of every span", alone)
    for pos in range(6):
        def spring(it, st, pos=pos):
            return mk(it, st, R=lst(st, [sym("ks") if i == pos else x for i, x in enumerate(ints(*P2 * 3))]))
        refuse(f"spring at restraint {pos}", spring)
    for lt, ent in ((3, [sym("w"), sym("a"), sym("c")]), (4, [sym("m"), sym("a")]), (5, [sym("w1"), sym("w2")]), (7, [sym("w")])):
        for before in (0, 1):
            def load(it, st, lt=lt, ent=ent, before=before):
                nba = mk(it, st)
                lm = [[const(1), const(1), sym("w0")]] * before + [[const(2), const(lt)] + ent]
                return it.meth(nba, "analyze", st, LMv(st, lm), lambda_max=const(0))
            refuse(f"load type {lt}" + (" after a valid load" if before else ""), load)

    def nothing(it, st):
        return it.meth(mk(it, st), "analyze_moving", st)
    refuse("moving load without a load", nothing)


@prop("G03", floor=1200, rule="every linear system of a crossing equals the documented unload/reload pair, for an arbitrary linear stand-in of the solver")
def g03(cx):
    site = cx.loc(f"{CLS}.analyze_moving")
    for nm, ne, hs, R, k, Mp, q, ws, sp, step, nsub in MOVE:
        for mode in ("crossing", "mechanism", "singular", "singular at once", "singular before the first step"):
            name = f"{nm}, {mode}"

            def go():
                My = [Fraction(m) * 7 / 10 for m in Mp]
                nu = Num(ne, hs, R, k, Mp, My, q)
                ref, n, nd = nu.ref, nu.ref.n, 2 * nu.ref.n
                E = sym("E")
                W = ws or [Fraction(3, 2)]
                off = [sum(sp[:i], Fraction(0)) for i in range(len(W))]
                L = sum(Fraction(a) * b for a, b in zip(ne, hs))
                npos = int((L + off[-1]) / Fraction(step)) + 1
                assert (L + off[-1]) == Fraction(step) * (npos - 1)

                def force(x0):
                    F = [Fraction(0)] * nd
                    for w, o in zip(W, off):
                        x = x0 - o
                        if not 0 <= x <= L:
                            continue
                        for e in range(len(ref.el)):
                            xl, h = ref.x[e].const(), ref.el[e][1].const()
                            if xl <= x < xl + h or (e == len(ref.el) - 1 and x == L):
                                p, r = x - xl, xl + h - x
                                for d, v in ((0, r ** 2 * (3 * p + r) / h ** 3), (1, p * r ** 2 / h ** 2), (2, p ** 2 * (p + 3 * r) / h ** 3), (3, -p ** 2 * r / h ** 2)):
                                    F[2 * e + d] -= w * v
                    return F

                def G(b):
                    """the stand-in's response to a load: fixed, linear and arbitrary"""
                    u = [Fraction(0)] * nd
                    for i in ref.free:
                        u[i] = sum(Fraction((3 * i * i + 5 * i * j + 2 * j) % 11 - 5, 9) * b[j] for j in ref.free)
                    return u

                pos = [Fraction(step) * i for i in range(npos)]
                sing_at = {"singular at once": (0, 0), "singular before the first step": (0, nsub - 1)}.get(mode, (npos // 2, nsub - 1))
                # the documented procedure
                log, ended = [], None
                prev = [Fraction(0)] * nd
                one = [(Fraction(1), Fraction(1))] * len(ref.el)
                hist = []
                for i, x in enumerate(pos):
                    cur = force(x)
                    for s in range(nsub):
                        if i:
                            b = [-v / nsub for v in prev]
                            log.append(("unload", i, one, b))
                            nu.add(G(b), elastic=True)
                        nu.update(x)
                        b = [v / nsub for v in cur]
                        log.append(("reload", i, [tuple(r) for r in nu.Rel], b))
                        if mode.startswith("singular") and (i, s) == sing_at:
                            ended = x
                            break
                        nu.add(G(b))
                    if ended is not None:
                        break
                    if i:
                        nh = nu.update(x)
                        if nh and mode == "mechanism":
                            ended = x
                            break
                    hist.append((x, list(nu.M)))
                    prev = cur
                if mode == "mechanism":
                    assert ended is not None and ended != pos[-1]
                it, st = cx.interp(tol0=True), State()
                sing_idx = len(log) if mode.startswith("singular") else None
                box = []

                def answer(c):
                    if sing_idx is not None and c == sing_idx - 1:
                        return None
                    b = [x for x in box[0].calls[c]["b"]]
                    if len(b) != nd:
                        bb = [ZERO] * nd
                        for d, v in zip(ref.free, b):
                            bb[d] = v
                        b = bb
                    u = [ZERO] * nd
                    for i in ref.free:
                        u[i] = sum((const(Fraction((3 * i * i + 5 * i * j + 2 * j) % 11 - 5, 9)) * b[j] for j in ref.free), ZERO) / E
                    return u

                sc = Script(it, ref, answer)
                box.append(sc)
                sc.mech = lambda c: mode == "mechanism"
                nba = it.new(CLS, st, L=lst(st, [const(Fraction(a) * b) for a, b in zip(ne, hs)]), EI=lst(st, [const(v) * E for v in k]), R=lst(st, ints(*R)),
                             Mp=lst(st, [const(m) * E for m in Mp]), My=lst(st, [const(m) * E for m in My]), mesh_size=const(max(hs)), q=const(q))
                kw = dict(step=const(step), n_sub=const(nsub), record_every=const(1))
                if ws is None:
                    kw["P"] = const(W[0]) * E
                else:
                    kw["vehicle"] = it.new("vehicle.Vehicle", st, arr(st, [const(v) for v in sp]), arr(st, [const(w) * E for w in W]))
                r = it.meth(nba, "analyze_moving", st, **kw)
                asked = len(sc.calls) == len(log)
                if not asked:
                    # the stand-in is linear, so the outcome is the same however often it is asked
                    cx.und("sub-increments", name, f"{len(sc.calls)} systems solved, {len(log)} in the documented procedure", site)
                    if mode.startswith("singular"):
                        return
                for c, ((what, i, Rel, b), rec) in enumerate(zip(log, sc.calls) if asked else ()):
                    A, bb, fr = full(ref, rec["A"], rec["b"])
                    K = ref.K(Rel)
                    nn = f"{name}, position {pos[i]}, {what} {c}"
                    for a, d in enumerate(fr):
                        cx.eq(f"{what} loads", f"{nn}: {d}", bb[a], const(b[d]) * E, site)
                    stiff_eq(cx, nn, ref, A, fr, K, E, site)
                cx.eq("front axle position", name, it.getattr(r, "collapse_lambda", st), const(pos[-1] if ended is None else ended), site)
                verdict(cx, name, it.getattr(r, "collapsed", st), alg.FALSE if ended is None else alg.TRUE, site)
                final_state(cx, it, st, r, name, nu, E, site)
                same_events(cx, it, st, r, name, [(const(x), j, t) for x, j, t in nu.events], ref, site)
                h = st_list(it, st, it.getattr(r, "lambda_history", st))
                m = st_list(it, st, it.getattr(r, "moment_history", st))
                if len(h) != len(hist) or len(m) != len(hist):
                    return cx.bad("recorded positions", name, f"{len(h)} positions and {len(m)} moment sets recorded of {len(hist)}", site)
                for i, ((x, M), a, v) in enumerate(zip(hist, h, m)):
                    cx.eq("recorded positions", f"{name}: {i}", as_num(a), const(x), site)
                    for j, (p_, q_) in enumerate(zip(data(st, v), M)):
                        cx.eq("recorded moments", f"{name}: {i} node {j}", p_, const(q_) * E, site)
            cx.guard("moving load", name, go, site)
