"""A07 Winkler foundation members, A08 free vibration."""
from fractions import Fraction as F
from itertools import permutations
from .elements import *  # noqa
from .elements import comps, usec, section_hooks, kref, COMP, lm
from .members import SolveLog, atom_of, member_ref
import math
from .loads import lst, LMv, rejects
from sa.vals import *  # noqa

HERM = [([1, 0, -3, 2], 0), ([0, 1, -2, 1], 1), ([0, 0, 3, -2], 0), ([0, 0, -1, 1], 1)]


def energy(order, h):
    """integral over a cubic element of the products of the order-th derivatives
    of its shape functions (from the shape functions, by hand)"""
    def d(c):
        return [i * c[i] for i in range(1, len(c))]
    out = []
    for ci, pi in HERM:
        row = []
        for cj, pj in HERM:
            a, b = ci, cj
            for _ in range(order):
                a, b = d(a), d(b)
            s = sum(F(x * y, i + j + 1) for i, x in enumerate(a) for j, y in enumerate(b))
            row.append(const(s) * h ** (pi + pj + 1 - 2 * order))
        out.append(row)
    return out


def mul(M, c):
    return [[c * x for x in r] for r in M]


def madd(A, B):
    return [[x + y for x, y in zip(r, s)] for r, s in zip(A, B)]


def assemble(mats, nd):
    K = [[ZERO] * nd for _ in range(nd)]
    for s, m in mats:
        for i in range(4):
            for j in range(4):
                K[s + i][s + j] = K[s + i][s + j] + m[i][j]
    return K


def minv(A):
    """explicit inverse of a 1x1 or 2x2 matrix"""
    if not A:
        return []
    if len(A) == 1:
        return [[ONE / A[0][0]]]
    (a, b), (c, d) = A
    D = ONE / (a * d - b * c)
    return [[d * D, -b * D], [-c * D, a * D]]


class InvLog:
    """inverse of a symmetric matrix: explicit up to 2x2, else fresh symmetric
    unknowns per distinct argument (the argument is recorded)"""

    def __init__(self, it, explicit=2):
        self.args = []
        npm = it.npm
        self.npm = npm

        def mat(v, st):
            A = npm.to_arr(v, st)
            if not isinstance(A, Arr) or len(A.shape) != 2:
                raise Unsup("inverse of a non-enumerated matrix")
            m = A.shape[0]
            return [[as_num(A.at(i, j)) for j in range(m)] for i in range(m)]

        def inverse(A):
            if len(A) <= explicit:
                return minv(A)
            for B, X in self.args:
                if len(B) == len(A) and all(alg.is_zero(x - y) for r, s in zip(A, B) for x, y in zip(r, s)):
                    return X
            k = len(self.args)
            m = len(A)
            X = [[sym(f"inv{k}_{min(i, j)}_{max(i, j)}", None) for j in range(m)] for i in range(m)]
            self.args.append((A, X))
            return X

        def inv(args, kw, st):
            X = inverse(mat(args[0], st))
            return st.new(Arr((len(X), len(X)), [x for r in X for x in r]))

        def solve(args, kw, st):
            X = inverse(mat(args[0], st))
            m = len(X)
            b = npm.to_arr(args[1], st)
            if not isinstance(b, Arr):
                raise Unsup("solve of a non-enumerated system")
            if len(b.shape) == 1:
                return st.new(Arr((m,), [sum((X[i][j] * as_num(b.data[j]) for j in range(m)), ZERO) for i in range(m)]))
            q = b.shape[1]
            return st.new(Arr((m, q), [sum((X[i][j] * as_num(b.at(j, k)) for j in range(m)), ZERO) for i in range(m) for k in range(q)]))

        npm.n_numpy_linalg_inv = inv
        npm.n_scipy_linalg_inv = inv
        npm.n_numpy_linalg_solve = solve
        npm.n_scipy_linalg_solve = solve


def vec(it, st, v):
    a = it.npm.to_arr(v, st)
    if not isinstance(a, Arr):
        raise Unsup(f"not an enumerated array: {v!r}")
    return [as_num(x) for x in a.data]


def wink(e, f, sub):
    """restriction of a load to sub-elements: sub = {element: mech.Load on length h}"""
    return e, f, sub


class ENDP:
    """point load exactly on the last node"""
    terms = ()

    def __init__(self, P):
        self.P = P

    def fixed(self):
        return dict(Va=ZERO, Ma=ZERO, Vb=self.P, Mb=ZERO)


def sub_loads(n, h):
    """(name, member load entry, {sub-element: [Load local]})"""
    w, P = sym("w", None), sym("P", None)
    u, v, p, q, z = (sym(x) for x in "uvpqz")
    L = const(n) * h
    out = []

    def full():
        return mech.Load("s", None, [h], [(w, ZERO, 0)], "")

    def part(s, t):
        terms = [(w, s, 0)]
        gaps = [h]
        if not alg.is_zero(t - h):
            terms.append((-w, t, 0))
        return mech.Load("s", None, gaps, terms, "")

    out.append(("udl", [ONE, const(1), w], {e: [full()] for e in range(n)}))
    s = h * u / (u + v)
    t = h * p / (p + q)
    for e in range(n):
        out.append((f"point in sub-element {e}", [ONE, const(2), P, const(e) * h + s], {e: [mech.Load("s", None, [h], [(P, s, -1)], "")]}))
    out.append(("point at the end", [ONE, const(2), P, L], {n - 1: [ENDP(P)]}))
    out.append(("point at the start", [ONE, const(2), P, ZERO], {0: [mech.Load("s", None, [h], [(P, ZERO, -1)], "")]}))
    for i in range(n):
        s3, t3 = h * u / (u + v + z), h * (u + v) / (u + v + z)
        out.append((f"partial within sub-element {i}", [ONE, const(3), w, const(i) * h + s3, t3 - s3], {i: [part(s3, t3)]}))
        for j in range(i + 1, n):
            sub = {i: [part(s, h)], j: [part(ZERO, t)]}
            sub.update({k: [full()] for k in range(i + 1, j)})
            out.append((f"partial from sub-element {i} into {j}", [ONE, const(3), w, const(i) * h + s, const(j) * h + t - const(i) * h - s], sub))
        sub = {i: [part(s, h)]}
        sub.update({k: [full()] for k in range(i + 1, n)})
        out.append((f"partial from sub-element {i} to the end", [ONE, const(3), w, const(i) * h + s, L - const(i) * h - s], sub))
        out.append((f"partial from sub-element {i} past the end", [ONE, const(3), w, const(i) * h + s, L - const(i) * h - s + z], sub))
        sub = {i: [part(ZERO, t)]}
        sub.update({k: [full()] for k in range(i)})
        out.append((f"partial from the start into sub-element {i}", [ONE, const(3), w, ZERO, const(i) * h + t], sub))
        if i + 1 < n:
            out.append((f"partial over sub-elements 0..{i}", [ONE, const(3), w, ZERO, const(i + 1) * h], {k: [full()] for k in range(i + 1)}))
    return out


@prop("A07", floor=200, rule="For enumerated meshes of a foundation member with symbolic length, rigidity and modulus: its two-node stiffness is the static condensation of the assembled bending stiffness plus consistent Winkler stiffness (each integrated from the cubic shape functions), its equivalent end forces are the condensation of the sub-element fixed-end forces of exactly the given loads, and the recovered fields start on each sub-element from the condensed mesh's own displacements and follow the exact bending field of its end forces and loads. Unsupported loads and member kinds are rejected; the beam uses the condensed member and rebuilds it when the structure changes.")
def a07(cx):
    h, EI, kf = sym("h"), sym("EI"), sym("kf")
    site = cx.loc("foundation.FoundationElement")
    ke = madd(mul(energy(2, h), EI), mul(energy(0, h), kf))
    kb = mul(energy(2, h), EI)

    def element(n, explicit=0):
        it = cx.interp(tol0=True)
        log = InvLog(it, explicit)
        st = State()
        o = it.new("foundation.FoundationElement", st, const(n) * h, EI, kf, n=const(n))
        return it, log, st, o

    def inverse_for(n, log):
        nd = 2 * (n + 1)
        K = assemble([(2 * e, ke) for e in range(n)], nd)
        r = [0, 1, nd - 2, nd - 1]
        c = [i for i in range(nd) if i not in r]
        if not c:
            return K, r, c, []
        Kcc = [[K[i][j] for j in c] for i in c]
        if len(c) <= 2 and not log.args:
            return K, r, c, minv(Kcc)
        m = len(c)
        for A, X in log.args:
            if len(A) != m:
                continue
            for p in permutations(range(m)) if m <= 4 else [tuple(range(m))]:
                if all(alg.is_zero(A[p[i]][p[j]] - Kcc[i][j]) for i in range(m) for j in range(m)):
                    return K, r, c, [[X[p[i]][p[j]] for j in range(m)] for i in range(m)]
        return K, r, c, None

    sizes = (1, 2, 3) if cx.tier != "thorough" else (1, 2, 3, 4, 5)
    for n, ex in [(1, 0), (2, 2)] + [(n, 0) for n in sizes if n > 1]:
        def stiff(n=n, ex=ex):
            it, log, st, o = element(n, ex)
            got = vec(it, st, it.getattr(o, "k", st))
            K, r, c, X = inverse_for(n, log)
            if X is None:
                if len(log.args) == 1 and len(log.args[0][0]) == len(c) and all(plain(x) for row in log.args[0][0] for x in row):
                    cx.bad("condensed stiffness", f"n={n}", "the condensed block is not the assembled stiffness of the interior nodes", site)
                else:
                    cx.und("condensed stiffness", f"n={n}", "condensation not recognised", site)
                return
            for a in range(4):
                for b in range(4):
                    w = K[r[a]][r[b]]
                    for i in range(len(c)):
                        for j in range(len(c)):
                            w = w - K[r[a]][c[i]] * X[i][j] * K[c[j]][r[b]]
                    cx.eq("condensed stiffness", f"n={n}:{a}{b}" + (":explicit" if ex else ""), got[4 * a + b], w, site)
            if n == 1 or ex:
                return
            for nm, ent, sub in sub_loads(n, h):
                def ld(nm=nm, ent=ent, sub=sub):
                    s2 = st.fork()
                    ol = it.analyze_call("load.parse_LM", [lm(s2, ent)], st=s2)[0]
                    R = [ZERO] * (2 * (n + 1))
                    loc = {}
                    for e, ls in sub.items():
                        f = [ZERO] * 4
                        for q in ls:
                            fx = q.fixed()
                            f = [x + fx[k] for x, k in zip(f, COMP)]
                        loc[e] = f
                        for i in range(4):
                            R[2 * e + i] = R[2 * e + i] + f[i]
                    g = vec(it, s2, it.meth(o, "ref", s2, ol))
                    for a in range(4):
                        w = R[r[a]]
                        for i in range(len(c)):
                            for j in range(len(c)):
                                w = w - K[r[a]][c[i]] * X[i][j] * R[c[j]]
                        cx.eq("condensed load", f"n={n}:{nm}:{a}", g[a], w, cx.loc("foundation.FoundationElement.ref"))
                    if n > 2 and cx.tier != "thorough" and not nm.startswith(("udl", "point in sub-element 1", "partial from sub-element 0 into 2")):
                        return
                    if " at the " in nm:
                        return
                    d = [sym(f"d{i}", None) for i in range(4)]
                    m = sym("m", intlike=True)
                    res = it.meth(o, "recover", s2, s2.new(Arr((4,), d)), ol, const(n) * (m + const(2)))
                    dm = [ZERO] * (2 * (n + 1))
                    for i in range(4):
                        dm[r[i]] = d[i]
                    rhs = [-R[j] - sum((K[j][r[i]] * d[i] for i in range(4)), ZERO) for j in c]
                    for i in range(len(c)):
                        dm[c[i]] = sum((X[i][j] * rhs[j] for j in range(len(c))), ZERO)
                    cols = {a: s2.cell(it.getattr(res, a, s2)) for a in ("x", "V", "M", "R", "D")}
                    sr = cx.loc("foundation.FoundationElement.recover")
                    for a, cc in cols.items():
                        if not isinstance(cc, Cat) or len(cc.parts) != n:
                            cx.und("recovered field", f"n={n}:{nm}:{a}", f"{type(cc).__name__}", sr)
                            return
                    xi = sym("x", None)
                    zz = (sym("za"), sym("zb"))
                    for e in range(n):
                        de = dm[2 * e: 2 * e + 4]
                        fe = [sum((kb[i][j] * de[j] for j in range(4)), ZERO) + loc.get(e, [ZERO] * 4)[i] for i in range(4)]
                        for a in ("x", "V", "M", "R", "D"):
                            p = cols[a].parts[e]
                            if not isinstance(p, Fld):
                                cx.und("recovered field", f"n={n}:{nm}:{e}:{a}", f"{p!r}"[:100], sr)
                                continue
                            gx = as_num(p.elem) if p.st is None else alg.subst(as_num(p.elem), {p.st.x: xi * (m + const(2)) / h})
                            if a == "x":
                                cx.eq("recovered field", f"n={n}:{nm}:{e}:x", gx, xi + const(e) * h, sr)
                                continue
                            pieces = sub.get(e, [])
                            want = local_field(pieces, fe, de, EI, h, xi)[a]
                            for lab, x in zones(pieces, h):
                                cx.eq("recovered field", f"n={n}:{nm}:{e}:{a}:{lab}", alg.subst(gx, {atom_of(xi): x}), alg.subst(want, {atom_of(xi): x}), sr)
                cx.guard("condensed load", f"n={n}:{nm}", ld, site)
        cx.guard("condensed stiffness", f"n={n}", stiff, site)

    # default mesh: at least eight parts per characteristic length, eight to 400 in all
    it = cx.interp()
    if cx.prog.has("foundation.auto_subdivisions"):
        sm = cx.loc("foundation.auto_subdivisions")
        for (ei, kw_), lam in (((4, 1), F(2)), ((324, 1), F(6)), ((4, 64 * 4), F(1, 2)), ((64, 1), F(4))):
            for length in (F(1, 10), 1, lam, lam + F(1, 100), 3, F(37, 4), 10, 49 * lam, 50 * lam, 51 * lam, 500):
                def mesh(ei=ei, kw_=kw_, lam=lam, length=length):
                    st = State()
                    n, _ = it.analyze_call("foundation.auto_subdivisions", [const(length), const(ei), const(kw_)], st=st)
                    n = as_num(n)
                    if not n.is_const():
                        raise Unsup(f"number of parts {alg.show(n)[:60]}")
                    want = min(max(8, math.ceil(8 * F(length) / lam)), 400)
                    nm = f"EI={ei}, kf={kw_}, L={length}"
                    if n.const() == want or want < n.const() <= 400 and n.const() < want + 2:
                        cx.ok("default mesh", nm, str(want), sm)
                    else:
                        cx.bad("default mesh", nm, f"{n.const()} parts, {want} documented", sm)
                cx.guard("default mesh", f"EI={ei}, kf={kw_}, L={length}", mesh, sm)
    for nm, ent in (("moment load", [ONE, const(4), sym("m", None), sym("a")]), ("trapezoidal load", [ONE, const(5), sym("w", None), sym("w2", None)])):
        it2, log, st0, o = element(2)

        def rej(st, ent=ent, it2=it2, o=o, st0=st0):
            s2 = st0.fork()
            ol = it2.analyze_call("load.parse_LM", [lm(s2, ent)], st=s2)[0]
            it2.meth(o, "ref", s2, ol)
        rejects(cx, it2, nm, rej, cx.loc("foundation.FoundationElement.ref"))

    # the beam presents the condensed member: of that member's own length, rigidity and
    # stiffness, whatever it has in common with another member
    L0, E0 = sym("L0"), sym("E0")

    def tag_of(vals):
        return "|".join(alg.show(as_num(v)) for v in vals)

    def fhooks():
        def init(it, st, full, kw):
            names = ("L", "EI", "kf")
            got = list(full[1:4]) + [kw.get(x) for x in names[len(full[1:4]):]]
            if any(g is None for g in got) or len(full) > 4 or set(kw) - set(names):
                raise Unsup("foundation member built with other arguments")
            t = tag_of(got)
            c = st.w(full[0])
            c.attrs["k"] = st.new(Arr((4, 4), [sym(f"fk[{t}]{i}{j}", None) for i in range(4) for j in range(4)]))
            c.attrs["tag"] = K(t)
            return NONE

        def ref(it, st, full, kw):
            t = st.cell(full[0]).attrs["tag"].v
            ws = sorted(alg.show(as_num(it.getattr(o, a, st))) for o in st_seq(st, full[1]) for a in ("P", "w", "m") if a in st.cell(o).attrs)
            return st.new(Arr((4,), [sym(f"fr[{t};{','.join(ws)}]{i}", None) for i in range(4)]))
        return {"foundation.FoundationElement.__init__": init, "foundation.FoundationElement.ref": ref}

    def st_seq(st, v):
        c = st.cell(v)
        if not isinstance(c, Lst) or not c.concrete():
            raise Unsup("loads handed to a foundation member")
        return c.values()

    patterns = {"all different": [(0, 0, None), (1, 1, 1), (2, 2, 2)],
                "same length and rigidity": [(0, 0, 1), (0, 0, 2), (0, 0, None), (0, 0, 3)],
                "one quantity different": [(0, 0, 1), (0, 1, 1), (1, 0, 1)],
                "equal members": [(0, 0, 1), (1, 1, None), (0, 0, 1)]}

    def inbeam(spans, rev, added):
        it = cx.interp(hooks=fhooks())
        st = State()
        val = lambda p: (sym(f"L{p[0]}"), sym(f"E{p[1]}"), NONE if p[2] is None else sym(f"kf{p[2]}"))
        V = [val(p) for p in spans]
        sB, sr = cx.loc("beam.Beam.get_span_k"), cx.loc("beam.Beam.get_ref")
        loads = [[const(i + 1), const(1), sym(f"w{i}", None)] for i in range(len(spans))] + [[const(2), const(2), sym("P", None), sym("a")]]
        b = it.new("beam.Beam", st, L=lst(st, [v[0] for v in V]), EI=lst(st, [v[1] for v in V]), R=lst(st, [const(-1)] * (2 * len(V) + 2)),
                   eletype=lst(st, [ONE] * len(V)), kf=lst(st, [v[2] for v in V]), LM=LMv(st, loads))
        it.meth(b, "_set_loads", st)
        order = list(range(len(V)))
        if rev:
            order.reverse()

        def judge(i, nm):
            k = vec(it, st, it.meth(b, "get_span_k", st, const(i)))
            if V[i][2] == NONE:
                for a in range(4):
                    for c in range(4):
                        cx.eq("member form", f"{nm}:{a}{c}", k[4 * a + c], kref(V[i][1], V[i][0])[a][c], sB)
                return
            for a in range(16):
                cx.eq("member form", f"{nm}:k{a}", k[a], sym(f"fk[{tag_of(V[i])}]{a // 4}{a % 4}", None), sB)
            if added and i == len(spans):
                return
            f = vec(it, st, it.meth(b, "get_ref", st, const(i)))
            ws = ",".join(sorted([f"w{i}"] + (["P"] if i == 1 else [])))
            for a in range(4):
                cx.eq("member loads", f"{nm}:{a}", f[a], sym(f"fr[{tag_of(V[i])};{ws}]{a}", None), sr)
        for i in order:
            judge(i, f"span {i + 1} {spans[i]}")
        # adding a span must not leave a stale condensed member behind
        if added:
            V.append(val(added))
            it.meth(b, "add_span", st, V[-1][0], V[-1][1], kf=V[-1][2])
            judge(len(spans), f"added span {added}")
    for nm, spans in patterns.items():
        for rev in (False, True):
            for added in (None, (0, 0, 5), (3, 3, 1)):
                cx.guard("member form", f"beam, {nm}, {'last' if rev else 'first'} span first, added {added}", lambda spans=spans, rev=rev, added=added: inbeam(spans, rev, added), site)

    for nm, kw in (("shear-flexible member", dict(GAv=sym("GA"))), ("pinned member", dict(et=2)), ("variable-rigidity member", dict(sec=1))):
        def rj(st, kw=kw):
            ei = E0
            if "sec" in kw:
                ei = usec(itr, st, (L0, E0))
            a = dict(L=lst(st, [L0]), EI=lst(st, [ei]), R=lst(st, [const(-1)] * 4), eletype=lst(st, [const(kw.get("et", 1))]), kf=kf)
            if "GAv" in kw:
                a["GAv"] = kw["GAv"]
            b = itr.new("beam.Beam", st, **a)
            itr.meth(b, "get_span_k", st, ZERO)
        itr = cx.interp(hooks=section_hooks(), tol0=True)
        rejects(cx, itr, nm, rj, cx.loc("beam.Beam.get_span_k"))


def local_field(pieces, f, d, EI, h, x):
    """bending field on [0,h] from end forces f, left-end displacements d and loads"""
    V, M, R, D = ZERO, ZERO, ZERO, ZERO
    Ma, Mb = f[1], f[3]
    q = (Ma + Mb) / h
    V, M = q, q * x - Ma
    IM, IIM = q * x ** 2 / const(2) - Ma * x, q * x ** 3 / const(6) - Ma * x ** 2 / const(2)
    for ld in pieces:
        fl, Va, Ra = ld.field(x)
        V, M = V + fl["V"], M + fl["M"]
        IM = IM + fl["R"] - Ra
        IIM = IIM + fl["D"] - Ra * x
    return dict(V=V, M=M, R=d[1] + IM / EI, D=d[0] + d[1] * x + IIM / EI)


def zones(pieces, h):
    """symbolic stations, one per zone between load discontinuities"""
    za, zb = sym("za"), sym("zb")
    cuts = [ZERO]
    for ld in pieces:
        for c, a, n in ld.terms:
            if not any(alg.is_zero(a - y) for y in cuts):
                cuts.append(a)
    cuts = [c for c in cuts if not alg.is_zero(c - h)] + [h]
    return [(f"zone {k}", cuts[k] + (cuts[k + 1] - cuts[k]) * za / (za + zb)) for k in range(len(cuts) - 1)]


MODAL = {
    "1-span simply supported": ["f", "o", "f", "o"],
    "1-span cantilever": ["f", "f", "o", "o"],
    "1-span on springs": ["s", "s", "s", "o"],
    "2-span continuous": ["f", "o", "f", "o", "f", "o"],
    "2-span middle spring": ["f", "f", "s", "o", "f", "o"],
    "2-span middle rotational spring": ["f", "o", "f", "s", "o", "o"],
    "3-span mixed": ["o", "s", "f", "o", "s", "f", "f", "f"],
}


@prop("A08", floor=300, rule="For enumerated support layouts (1-3 spans, enumerated refinements) with symbolic lengths, rigidities, masses, springs and foundation moduli: the pencil handed to the eigen-solver is, entry by entry, the assembled stiffness (bending, foundation, springs at the span nodes) and consistent mass of the refined mesh, each from the cubic shape functions, restricted to the unsupported freedoms; frequencies are the square roots of its eigenvalues in order, converted by 2 pi, the mode shapes are its eigenvectors at the freedoms they belong to and zero at the supports, at the coordinates of the mesh. Unsupported member kinds and wrong mass counts are rejected.")
def a08(cx):
    site = cx.loc("modal.solve_modal")
    for name, kinds in MODAL.items():
        for nseg in ((1, 2) if len(kinds) < 8 else (1,)) + ((3,) if cx.tier == "thorough" else ()):
            for found in (False, True):
                for scalar in (False, True):
                    if scalar and (found or nseg > 1):
                        continue
                    cx.guard("pencil", f"{name}:nseg={nseg}", lambda: modal_case(cx, name, kinds, nseg, found, scalar, site), site)

    def shapes():
        it = cx.interp()
        for big in range(3):
            for sgn in (1, -1):
                st = State()
                parts = [sym(f"e{k}") for k in range(3)]
                v = [parts[0], -(parts[0] + parts[1]), parts[0] + parts[1] + parts[2]]
                vals = [v[(k - big + 2) % 3] for k in range(3)]
                vals = [const(sgn) * x for x in vals]
                w = [sym(f"w{k}") for k in range(2)]
                phi = []
                for k in range(3):
                    phi += [sym(f"z{k}", None), vals[k]] + [sym(f"y{k}0", None), sym(f"y{k}1", None)]
                xs = [sym(f"x{k}") for k in range(3)]
                o = it.new("modal.ModalResults", st, st.new(Arr((2,), w)), st.new(Arr((6, 2), phi)), st.new(Arr((3,), xs)))
                x, s = it.meth(o, "mode_shape", st, ONE).items
                bigv = vals[big]
                for k, (gx, gv) in enumerate(zip(vec(it, st, x), vec(it, st, s))):
                    sm = cx.loc("modal.ModalResults.mode_shape")
                    cx.eq("mode shape", f"largest at node {big}, sign {sgn}: x{k}", gx, xs[k], sm)
                    cx.eq("mode shape", f"largest at node {big}, sign {sgn}: v{k}", gv, vals[k] / bigv, sm)
    cx.guard("mode shape", "", shapes, cx.loc("modal.ModalResults"))

    L0, E0 = sym("L0"), sym("E0")
    for nm, kw in (("shear-flexible span", dict(GAv=sym("GA"))), ("pinned span", dict(et=3)), ("variable-rigidity span", dict(sec=1)), ("wrong mass count", dict(mass=2))):
        def rj(st, kw=kw):
            ei = E0
            if "sec" in kw:
                ei = usec(itr, st, (L0, E0))
            a = dict(L=lst(st, [L0]), EI=lst(st, [ei]), R=lst(st, [const(-1)] * 4), eletype=lst(st, [const(kw.get("et", 1))]))
            if "GAv" in kw:
                a["GAv"] = kw["GAv"]
            b = itr.new("beam.Beam", st, **a)
            m = sym("mass") if "mass" not in kw else lst(st, [sym("m0"), sym("m1")])
            itr.analyze_call("modal.solve_modal", [b, m], st=st)
        itr = cx.interp(hooks=section_hooks(), tol0=True)
        eighlog(itr, [])
        rejects(cx, itr, nm, rj, site)


def eighlog(it, calls):
    npm = it.npm

    def eigh(args, kw, st):
        A, B = (npm.to_arr(x, st) for x in (args[0], args[1] if len(args) > 1 else kw.get("b")))
        if not isinstance(A, Arr) or not isinstance(B, Arr):
            raise Unsup("eigenproblem of a non-enumerated pencil")
        if any(k not in ("b",) for k in kw) or len(args) > 2:
            raise Unsup("eigen-solver options")
        m = A.shape[0]
        w = [sym(f"lam{k}") for k in range(m)]
        v = [[sym(f"v{i}_{k}", None) for k in range(m)] for i in range(m)]
        calls.append(([[as_num(A.at(i, j)) for j in range(m)] for i in range(m)], [[as_num(B.at(i, j)) for j in range(m)] for i in range(m)], w, v))
        return Tup([st.new(Arr((m,), w)), st.new(Arr((m, m), [x for r in v for x in r]))])

    npm.n_scipy_linalg_eigh = eigh


def modal_case(cx, name, kinds, nseg, found, scalar, site):
    it = cx.interp()
    calls = []
    eighlog(it, calls)
    st = State()
    N = len(kinds) // 2 - 1
    tag = f"{name}:nseg={nseg}" + (":foundation" if found else "") + (":scalar mass" if scalar else "")
    L, E = [sym(f"L{i}") for i in range(N)], [sym(f"E{i}") for i in range(N)]
    R = [{"f": const(-1), "o": ZERO, "s": sym(f"s{i}")}[k] for i, k in enumerate(kinds)]
    kf = [sym(f"kf{i}") if found and i != 1 else None for i in range(N)]
    kw = dict(kf=lst(st, [NONE if k is None else k for k in kf])) if found else {}
    ba = it.new("analysis.BeamAnalysis", st, lst(st, L), lst(st, E), R=lst(st, R), **kw)
    ms = [sym("mu")] * N if scalar else [sym(f"mu{i}") for i in range(N)]
    nm = 2
    r = it.meth(ba, "modal", st, ms[0] if scalar else lst(st, ms), const(nm), const(nseg))
    if len(calls) != 1:
        cx.und("pencil", tag, f"{len(calls)} eigen-solutions", site)
        return
    A, B, w, v = calls[0]
    nodes = N * nseg + 1
    nd = 2 * nodes
    K, M = [], []
    xs = [ZERO]
    for i in range(N):
        h = L[i] / const(nseg)
        ke = mul(energy(2, h), E[i])
        if kf[i] is not None:
            ke = madd(ke, mul(energy(0, h), kf[i]))
        me = mul(energy(0, h), ms[i])
        for s in range(nseg):
            K.append((2 * (i * nseg + s), ke))
            M.append((2 * (i * nseg + s), me))
            xs.append(xs[-1] + h)
    K, M = assemble(K, nd), assemble(M, nd)
    fixed = set()
    for j in range(N + 1):
        for d in range(2):
            g = 2 * j * nseg + d
            k = kinds[2 * j + d]
            if k == "f":
                fixed.add(g)
            elif k == "s":
                K[g][g] = K[g][g] + R[2 * j + d]
    free = [i for i in range(nd) if i not in fixed]
    if len(A) != len(free):
        cx.bad("pencil", tag, f"{len(A)} freedoms in the eigenproblem, {len(free)} are unsupported", site)
        return
    for a, i in enumerate(free):
        for b, j in enumerate(free):
            cx.eq("pencil", f"{tag}:K[{i},{j}]", A[a][b], K[i][j], site)
            cx.eq("pencil", f"{tag}:M[{i},{j}]", B[a][b], M[i][j], site)
    om, f, T = (vec(it, st, it.getattr(r, a, st)) for a in ("omega", "f", "periods"))
    n = min(nm, len(free))
    sr = cx.loc("modal.ModalResults")
    for lab, g in (("omega", om), ("f", f), ("periods", T)):
        if len(g) != n:
            cx.bad("modes", f"{tag}:{lab}", f"{len(g)} values, {n} modes requested", sr)
            return
    cx.eq("modes", f"{tag}:count", it.getattr(r, "n_modes", st), const(n), sr)
    pi = sym("pi", "+", dim=())
    for k in range(n):
        cx.eq("modes", f"{tag}:omega[{k}]^2", om[k] ** 2, w[k], sr)
        cx.eq("modes", f"{tag}:period[{k}]", T[k] * f[k], ONE, sr)
        cx.eq("modes", f"{tag}:f[{k}]", const(2) * pi * f[k], om[k], sr)
    for k, x in enumerate(vec(it, st, it.getattr(r, "x", st))):
        cx.eq("modes", f"{tag}:x[{k}]", x, xs[k], sr)
    phi = vec(it, st, it.getattr(r, "phi", st))
    if len(phi) != nd * n:
        cx.bad("modes", f"{tag}:phi", f"{len(phi)} entries for {nd} freedoms and {n} modes", sr)
        return
    for i in range(nd):
        for k in range(n):
            cx.eq("modes", f"{tag}:phi[{i},{k}]", phi[i * n + k], v[free.index(i)][k] if i in free else ZERO, sr)
