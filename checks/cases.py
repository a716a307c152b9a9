"""E: load cases, combinations, patterns."""
import itertools
from .envelopes import *  # noqa
from .envelopes import arr, data, result_set, uniq_cases, EFF
from fractions import Fraction
from .elements import want_comps
from sa import mech
from .loads import lst, LMv, ints, rejects, parsed, entries_of, total_fixed, add_calls
from sa import heap

MAGS = {1: (2,), 2: (2,), 3: (2,), 4: (2,), 5: (2, 3)}
NST = 3          # evaluation stations per member in the stand-in results


def row_terms(st, row):
    """load-matrix row -> [(magnitude, signature)]; the signature identifies the
    member, the type and the position of a unit load"""
    c = st.cell(row)
    v = [as_num(x) for x in (c.values() if isinstance(c, Lst) else it_items(row))]
    if not v[0].is_const() or not v[1].is_const():
        raise Unsup("load row")
    sp, t = int(v[0].const()), int(v[1].const())
    mags = MAGS.get(t) or tuple(range(2, len(v)))
    pos = tuple(alg.show(v[i]) for i in range(2, len(v)) if i not in mags)
    return [(v[i], f"{sp}:{t}:{i}:{','.join(pos)}") for i in mags if i < len(v)]


def it_items(v):
    if isinstance(v, Tup):
        return v.items
    raise Unsup(f"load row {v!r}")


def lm_terms(st, LM):
    d = {}
    for r in entries_of(st, LM):
        for m, s in row_terms(st, r):
            d[s] = d.get(s, ZERO) + m
    return d


def effect(terms, att, mem, j, coef=None):
    r = ZERO
    for s, m in terms.items():
        r = r + m * (coef(att, mem, j, s) if coef else sym(f"I{att}{mem}_{j}[{s}]", None))
    return r


def linear_hook(it0, log, coef=None):
    """stand-in for one analysis: at three stations per member every effect is a
    linear functional of the model's loads, with a separate coefficient for each
    unit load, effect and station"""
    def analyze(it, st, full, kw):
        ba = full[0]
        npts = full[1] if len(full) > 1 else kw.get("npts", NONE)
        b = it.getattr(ba, "beam", st)
        terms = lm_terms(st, it.getattr(b, "loads", st))
        Ls = [as_num(x) for x in st_list(it, st, it.getattr(b, "mbr_lengths", st))]
        mem, off = [], ZERO
        for i, L in enumerate(Ls):
            x = [off, off, off + L / const(2), off + L, off + L]
            m = dict(x=x)
            for e in EFF:
                m[e] = [sym(f"closure{e}{i}a", None)] + [effect(terms, e, i, j, coef) for j in range(NST)] + [sym(f"closure{e}{i}b", None)]
            mem.append(m)
            off = off + L
        R = [effect(terms, "Re", 0, j, coef) for j in range(2)]
        res = result_set(it, st, mem, R)
        w = st.w(ba)
        w.attrs["_beam_results"] = res
        log.append((ba, npts, terms))
        return ZERO
    return {"analysis.BeamAnalysis.analyze": analyze}


def st_list(it, st, v):
    c = st.cell(v)
    if isinstance(c, Lst) and c.concrete():
        return c.values()
    if isinstance(c, Arr):
        return c.data
    if isinstance(v, Tup):
        return list(v.items)
    raise Unsup(f"sequence {v!r}")


def template(it, st, n=2, **kw):
    return it.new("analysis.BeamAnalysis", st, lst(st, [sym(f"L{i}") for i in range(n)]), lst(st, [sym(f"E{i}") for i in range(n)]),
                  R=lst(st, [const(-1)] + [const(0)] + [const(-1), ZERO] * n), **kw)


def full_template(it, st):
    """every structural attribute in use"""
    n = 3
    L, E = [sym(f"L{i}") for i in range(n)], [sym(f"E{i}") for i in range(n)]
    return it.new("analysis.BeamAnalysis", st, lst(st, L), lst(st, E), R=lst(st, [const(-1), sym("s1"), const(-1), ZERO, sym("s4"), ZERO, const(-1), const(-1)]),
                  LM=LMv(st, [ints(1, 1) + [sym("q0", None)]]), eletype=lst(st, ints(1, 2, 1)), D=lst(st, [NONE, NONE, sym("t2", None), NONE, NONE, NONE, sym("t6", None), NONE]),
                  GAv=lst(st, [sym("G0"), NONE, NONE]), kf=lst(st, [NONE, NONE, sym("kf2")]))


STRUCT = ("mbr_lengths", "mbr_EIs", "mbr_eletype", "mbr_GAv", "mbr_kf", "restraints", "prescribed_displacements")


def struct(it, st, ba):
    b = it.getattr(ba, "beam", st)
    return {a: it.getattr(b, a, st) for a in STRUCT}


def seq_eq(cx, rule, name, it, st1, v1, st2, v2, site):
    a, b = st_list(it, st1, v1), st_list(it, st2, v2)
    if len(a) != len(b):
        return cx.bad(rule, name, f"{len(a)} entries, {len(b)} expected", site)
    for i, (x, y) in enumerate(zip(a, b)):
        x, y = unwrap(it, st1, x), unwrap(it, st2, y)
        if isinstance(x, K) or isinstance(y, K):
            (cx.ok if x == y else cx.bad)(rule, f"{name}[{i}]", f"{x!r} / {y!r}", site)
        else:
            cx.eq(rule, f"{name}[{i}]", x, y, site)


def unwrap(it, st, v):
    c = st.cell(v)
    if isinstance(c, Arr) and len(c.data) == 1:
        return c.data[0]
    if isinstance(c, Lst) and c.concrete() and len(c.ent) == 1:
        return c.values()[0]
    return v


def strs(v):
    return v.v if isinstance(v, K) else None


# ------------------------------------------------------------------- E01
@prop("E01", floor=100, rule="Every load row put into a load case by any builder is the documented load on the addressed member; stored cases, returned load matrices and the caller's lists share no structure (writing to one does not change another); the model built for a case has every structural attribute of the template and exactly the case's loads, and writing to it leaves the template unchanged; a combination's load matrix has, on every member, the factored sum of its cases' effects, with factors addressed by position, name or index and unnamed cases absent; duplicate or unknown names and wrong factor counts are rejected.")
def e01(cx):
    it = cx.interp(tol0=True)
    L = sym("L")
    # builders, on the case and on the collection
    adders = [(nm, ld, meth, args) for nm, ld, meth, args in add_calls()]
    for nm, ld, meth, args in adders:
        for level in ("case", "collection"):
            def go(nm=nm, ld=ld, meth=meth, args=args, level=level):
                st = State()
                q = sym("q0", None)
                if level == "case":
                    o = it.new("load_cases.LoadCase", st, K("a"), LMv(st, [ints(1, 1) + [q]]))
                    it.meth(o, meth, st, const(2), *args)
                    case = o
                    site = cx.loc(f"load_cases.LoadCase.{meth}")
                else:
                    ba = template(it, st)
                    col = it.new("load_cases.LoadCases", st, ba)
                    it.meth(col, "add", st, K("b"), LMv(st, [ints(1, 1) + [sym("other", None)]]))
                    it.meth(col, "add", st, K("a"), LMv(st, [ints(1, 1) + [q]]))
                    it.meth(col, meth, st, K("a"), const(2), *args)
                    case = it.meth(col, "case", st, K("a"))
                    site = cx.loc(f"load_cases.LoadCases.{meth}")
                loads = parsed(it, st, it.meth(case, "to_LM", st))
                want_comps(cx, "added load", f"{level}.{meth}:{nm}:on2", total_fixed(it, st, loads, 1, ld.L), ld.fixed(), site)
                want_comps(cx, "added load", f"{level}.{meth}:{nm}:on1", total_fixed(it, st, loads, 0, ld.L), mech.Load("u", None, ld.gaps, [(q, ZERO, 0)], "").fixed(), site)
                cx.eq("added load", f"{level}.{meth}:{nm}:count", const(len(loads)), const(2), site)
            cx.guard("added load", f"{level}.{meth}:{nm}", go)

    def curv(level, scalar):
        st = State()
        ks = [sym("k0", None)] + ([] if scalar else [sym("k1", None)])
        v = ks[0] if scalar else lst(st, ks)
        if level == "case":
            case = it.new("load_cases.LoadCase", st, K("a"))
            it.meth(case, "add_ic", st, const(2), v)
        else:
            col = it.new("load_cases.LoadCases", st, template(it, st))
            it.meth(col, "add_ic", st, K("a"), const(2), v)
            case = it.meth(col, "case", st, K("a"))
        r = entries_of(st, it.meth(case, "to_LM", st))
        site = cx.loc("load_cases.LoadCase.add_ic")
        for i, (g, w) in enumerate(zip(st.cell(r[0]).values(), ints(2, 6) + ks)):
            cx.eq("added load", f"{level}.add_ic:{'scalar' if scalar else 'polynomial'}[{i}]", g, w, site)
        cx.eq("added load", f"{level}.add_ic:{'scalar' if scalar else 'polynomial'}:columns", const(len(st.cell(r[0]).values())), const(2 + len(ks)), site)
    for level in ("case", "collection"):
        for s in (True, False):
            cx.guard("added load", f"{level}.add_ic", lambda level=level, s=s: curv(level, s))

    def whole(level):
        st = State()
        ba = template(it, st, 3)
        w = sym("w", None)
        if level == "case":
            case = it.new("load_cases.LoadCase", st, K("a"))
            it.meth(case, "add_all_spans_udl", st, ba, w)
        else:
            col = it.new("load_cases.LoadCases", st, ba)
            it.meth(col, "add_all_spans_udl", st, K("a"), w)
            case = it.meth(col, "case", st, K("a"))
        t = lm_terms(st, it.meth(case, "to_LM", st))
        same_terms(cx, "added load", f"{level}: all spans", t, {f"{i}:1:2:": w for i in (1, 2, 3)}, cx.loc("load_cases.LoadCase.add_all_spans_udl"))
    for level in ("case", "collection"):
        cx.guard("added load", f"{level}: all spans", lambda level=level: whole(level))

    def per_span():
        st = State()
        w = sym("w", None)
        col = it.analyze_call("load_cases.make_span_udl_cases", [template(it, st, 3), w], st=st)[0]
        lms = it.meth(col, "to_LM", st)
        site = cx.loc("load_cases.LoadCases.add_span_udl")
        items = list(st.cell(lms).items.values())
        cx.eq("added load", "one case per span: count", const(len(items)), const(3), site)
        for i, v in enumerate(items):
            same_terms(cx, "added load", f"one case per span: case {i + 1}", lm_terms(st, v), {f"{i + 1}:1:2:": w}, site)
    cx.guard("added load", "one case per span", per_span)

    # isolation
    def scribble(st, LM):
        """write into a load matrix: change a magnitude and append a row"""
        c = st.w(LM)
        for k, (_, row) in enumerate(list(c.ent)):
            r = st.w(row)
            r.ent[2] = (TRUE, sym(f"scribbled{k}", None))
            r.ent.append((TRUE, sym("scribbled1", None)))
        c.ent.append((TRUE, lst(st, ints(1, 1) + [sym("scribbled2", None)])))

    q = sym("q0", None)
    ways = {
        "add": lambda st, col, LM: it.meth(col, "add", st, K("a"), LM),
        "add_case": lambda st, col, LM: it.meth(col, "add_case", st, K("a"), LM),
        "set": lambda st, col, LM: it.meth(col, "set", st, K("a"), LM),
        "set over existing": lambda st, col, LM: (it.meth(col, "add", st, K("a"), LMv(st, [ints(1, 1) + [sym("old", None)]])), it.meth(col, "set", st, K("a"), LM)),
        "set over longer": lambda st, col, LM: (it.meth(col, "add", st, K("a"), LMv(st, [ints(1, 1) + [sym(f"old{k}", None)] for k in range(3)])), it.meth(col, "set", st, K("a"), LM)),
        "set over empty": lambda st, col, LM: (it.meth(col, "add", st, K("a")), it.meth(col, "set", st, K("a"), LM)),
        "set over emptied": lambda st, col, LM: (it.meth(col, "add", st, K("a"), LMv(st, [])), it.meth(col, "set", st, K("a"), LM)),
        "set twice": lambda st, col, LM: (it.meth(col, "set", st, K("a"), LM), it.meth(col, "set", st, K("a"), LM)),
        "set on the second": lambda st, col, LM: (it.meth(col, "add", st, K("0"), LMv(st, [])), it.meth(col, "set", st, K("a"), LM)),
        "append": lambda st, col, LM: it.meth(col, "append", st, it.new("load_cases.LoadCase", st, K("a"), LM)),
        "extend": lambda st, col, LM: it.meth(col, "extend", st, lst(st, [it.new("load_cases.LoadCase", st, K("a"), LM)])),
    }
    for nm, way, nrow in [(nm, way, k) for nm, way in ways.items() for k in (1, 2, 3)]:
        def iso(nm=nm, way=way, nrow=nrow):
            st = State()
            col = it.new("load_cases.LoadCases", st, template(it, st))
            LM = LMv(st, [ints(1, 1) + [q], ints(2, 1) + [sym("q2", None)], ints(1, 2) + [sym("P", None), sym("a")]][:nrow])
            way(st, col, LM)
            want = dict([("1:1:2:", q), ("2:1:2:", sym("q2", None)), ("1:2:2:a", sym("P", None))][:nrow])
            nm = f"{nm} ({nrow} rows)"
            site = cx.loc("load_cases.LoadCases")
            scribble(st, LM)
            case = it.meth(col, "case", st, K("a"))
            same_terms(cx, "isolated", f"{nm}: caller's matrix", lm_terms(st, it.getattr(case, "loads", st)), want, site)
            out = it.meth(case, "to_LM", st)
            scribble(st, out)
            same_terms(cx, "isolated", f"{nm}: case.to_LM()", lm_terms(st, it.getattr(case, "loads", st)), want, site)
            out = st.cell(it.meth(col, "to_LM", st))
            scribble(st, list(out.items.values())[-1])
            same_terms(cx, "isolated", f"{nm}: collection.to_LM()", lm_terms(st, it.getattr(case, "loads", st)), want, site)
            out = it.meth(col, "combined_loads", st, lst(st, [ONE] * len(st_list(it, st, it.getattr(col, "names", st)))))
            scribble(st, out)
            same_terms(cx, "isolated", f"{nm}: combined_loads()", lm_terms(st, it.getattr(case, "loads", st)), want, site)
            m = it.analyze_call("load_cases.build_pycba_model", [it.getattr(col, "beam_model", st), case], st=st)[0]
            it.meth(m, "add_udl", st, const(2), sym("later", None))
            scribble(st, it.getattr(it.getattr(m, "beam", st), "loads", st))
            same_terms(cx, "isolated", f"{nm}: model loads", lm_terms(st, it.getattr(case, "loads", st)), want, site)
        cx.guard("isolated", f"{nm} ({nrow} rows)", iso)

    def iso_row():
        st = State()
        case = it.new("load_cases.LoadCase", st, K("a"))
        row = lst(st, ints(1, 1) + [q])
        it.meth(case, "add_load", st, row)
        st.w(row).ent[2] = (TRUE, sym("scribbled", None))
        same_terms(cx, "isolated", "add_load: caller's row", lm_terms(st, it.getattr(case, "loads", st)), {"1:1:2:": q}, cx.loc("load_cases.LoadCase.add_load"))
        a, b = it.new("load_cases.LoadCase", st, K("a")), it.new("load_cases.LoadCase", st, K("b"))
        it.meth(a, "add_udl", st, ONE, q)
        same_terms(cx, "isolated", "two default cases", lm_terms(st, it.getattr(b, "loads", st)), {}, cx.loc("load_cases.LoadCase"))
        col = it.new("load_cases.LoadCases", st, template(it, st))
        it.meth(col, "add_udl", st, K("a"), ONE, q)
        it.meth(col, "add_udl", st, K("b"), const(2), sym("q1", None))
        it.meth(col, "add_udl", st, K("a"), const(2), sym("q2", None))
        lms = st.cell(it.meth(col, "to_LM", st)).items
        for k, w in (("a", {"1:1:2:": q, "2:1:2:": sym("q2", None)}), ("b", {"2:1:2:": sym("q1", None)})):
            v = [x for y, x in lms.items() if (y.v if isinstance(y, K) else y) == k]
            if len(v) != 1:
                cx.bad("isolated", f"interleaved case {k}", f"{len(v)} cases named {k}", cx.loc("load_cases.LoadCases"))
            else:
                same_terms(cx, "isolated", f"interleaved case {k}", lm_terms(st, v[0]), w, cx.loc("load_cases.LoadCases"))
    cx.guard("isolated", "rows", iso_row)

    # spans and metadata travel with the case, and are its own
    def labels(nm):
        st = State()
        site = cx.loc("load_cases.LoadCases")
        col = it.new("load_cases.LoadCases", st, template(it, st))
        it.meth(col, "add", st, K("b"), LMv(st, [ints(1, 1) + [sym("other", None)]]))
        if nm == "set over existing":
            it.meth(col, "add", st, K("a"), LMv(st, []), loaded_spans=Tup((const(2),)), metadata=st.new(Dct({K("load_position"): const(64)})))
        md = st.new(Dct({K("load_position"): const(16), K("more"): lst(st, [ONE])}))
        kw = dict(loaded_spans=Tup((ZERO, ONE)), metadata=md)
        LM = LMv(st, [ints(1, 1) + [q]])
        if nm == "append":
            it.meth(col, "append", st, it.new("load_cases.LoadCase", st, K("a"), LM, **kw))
        elif nm == "extend":
            it.meth(col, "extend", st, lst(st, [it.new("load_cases.LoadCase", st, K("a"), LM, **kw)]))
        else:
            it.meth(col, nm.split()[0], st, K("a"), LM, **kw)
        st.w(md).items[K("load_position")] = const(128)
        st.w(st.cell(md).items[K("more")]).ent[0] = (TRUE, const(99))
        case = it.meth(col, "case", st, K("a"))
        sp = [as_num(v) for v in st_list(it, st, it.getattr(case, "loaded_spans", st))]
        (cx.ok if sp == [ZERO, ONE] else cx.bad)("case keeps its labels", f"{nm}: loaded spans", repr(sp), site)
        pos = st_list(it, st, it.meth(col, "load_positions", st))
        cx.eq("case keeps its labels", f"{nm}: load position", pos[1], const(16), site)
        own = st.cell(it.getattr(case, "metadata", st)).items
        cx.eq("case keeps its labels", f"{nm}: nested metadata", st_list(it, st, own[K("more")])[0], ONE, site)
        if nm.startswith("set"):
            it.meth(col, "set", st, K("a"), LM)
            cx.eq("case keeps its labels", f"{nm}, set again without: load position", st_list(it, st, it.meth(col, "load_positions", st))[1], const(2), site)
    for nm in ("add", "add_case", "set", "set over existing", "append", "extend"):
        cx.guard("case keeps its labels", nm, lambda nm=nm: labels(nm))

    # model
    def model():
        site = cx.loc("load_cases.build_pycba_model")
        for shape in ("analysis", "beam"):
            st = State()
            ba = full_template(it, st)
            tmpl = ba if shape == "analysis" else it.getattr(ba, "beam", st)
            s0 = heap.snapshot(st, None)
            w0 = struct(it, s0, ba)
            for kind in ("case", "matrix"):
                LM = LMv(st, [ints(2, 1) + [q], ints(3, 2) + [sym("P", None), sym("a")]])
                lc = it.new("load_cases.LoadCase", st, K("a"), LM) if kind == "case" else LM
                m = it.analyze_call("load_cases.build_pycba_model", [tmpl, lc], st=st)[0]
                for a, v in struct(it, st, m).items():
                    seq_eq(cx, "model", f"{shape}/{kind}: {a}", it, st, v, s0, w0[a], site)
                same_terms(cx, "model", f"{shape}/{kind}: loads", lm_terms(st, it.getattr(it.getattr(m, "beam", st), "loads", st)), {"2:1:2:": q, "3:2:2:a": sym("P", None)}, site)
                # writing to the model leaves the template alone
                it.meth(it.getattr(m, "beam", st), "add_span", st, sym("Lnew"), sym("Enew"))
                for a, v in struct(it, st, ba).items():
                    seq_eq(cx, "template unchanged", f"{shape}/{kind}: {a}", it, st, v, s0, w0[a], site)
                same_terms(cx, "template unchanged", f"{shape}/{kind}: loads", lm_terms(st, it.getattr(it.getattr(ba, "beam", st), "loads", st)), {"1:1:2:": sym("q0", None)}, site)
    cx.guard("model", "", model)

    # combination of load matrices
    def combo(nm, mk, want):
        st = State()
        col = it.new("load_cases.LoadCases", st, template(it, st))
        rows = {"A": [ints(1, 1) + [sym("qa", None)], ints(2, 2) + [sym("Pa", None), sym("a")]],
                "B": [ints(1, 1) + [sym("qb", None)], ints(2, 5) + [sym("w", None), sym("w2", None), sym("a"), sym("c")]],
                "C": [ints(2, 3) + [sym("qc", None), sym("a"), sym("c")], ints(1, 4) + [sym("mc", None), sym("a")], ints(1, 6) + [sym("k0", None), sym("k1", None)]]}
        for k, r in rows.items():
            it.meth(col, "add", st, K(k), LMv(st, r))
        f = mk(st)
        wantt = {}
        for k, g in want.items():
            for s, m in lm_terms(st, LMv(st, rows[k])).items():
                wantt[s] = wantt.get(s, ZERO) + g * m
        sc = cx.loc("load_cases.LoadCases.combined_loads")
        same_terms(cx, "combined loads", nm, lm_terms(st, it.meth(col, "combined_loads", st, f)), wantt, sc)
        v = st_list(it, st, it.meth(col, "factors", st, f))
        for k, x, in zip("ABC", v):
            cx.eq("factors", f"{nm}:{k}", x, want.get(k, ZERO), cx.loc("load_cases.LoadCases.factors"))
        lc = it.new("load_cases.LoadCombination", st, K("c"), f)
        same_terms(cx, "combined loads", f"{nm}: combination.to_LM", lm_terms(st, it.meth(lc, "to_LM", st, col)), wantt, sc)
        case = it.meth(lc, "to_load_case", st, col)
        same_terms(cx, "combined loads", f"{nm}: combination.to_load_case", lm_terms(st, it.getattr(case, "loads", st)), wantt, sc)
        v = st_list(it, st, it.meth(lc, "factor_vector", st, col))
        for k, x, in zip("ABC", v):
            cx.eq("factors", f"{nm}:{k}: combination", x, want.get(k, ZERO), cx.loc("load_cases.LoadCases.factors"))
        for k, r in rows.items():
            same_terms(cx, "isolated", f"{nm}: case {k} after combining", lm_terms(st, it.getattr(it.meth(col, "case", st, K(k)), "loads", st)), lm_terms(st, LMv(st, r)), sc)
    f1, f2, f3 = sym("f1"), sym("f2"), sym("f3")
    forms = factor_forms(f1, f2, f3)
    for nm, mk, want in forms:
        cx.guard("combined loads", nm, lambda nm=nm, mk=mk, want=want: combo(nm, mk, want))

    def col3(st):
        col = it.new("load_cases.LoadCases", st, template(it, st))
        for k in "AB":
            it.meth(col, "add", st, K(k), LMv(st, [ints(1, 1) + [q]]))
        return col
    sL = cx.loc("load_cases.LoadCases")
    rejects(cx, it, "duplicate name (add)", lambda st: it.meth(col3(st), "add", st, K("A"), LMv(st, [ints(1, 1) + [q]])), sL)
    rejects(cx, it, "duplicate name (append)", lambda st: it.meth(col3(st), "append", st, it.new("load_cases.LoadCase", st, K("B"))), sL)
    rejects(cx, it, "unknown case", lambda st: it.meth(col3(st), "case", st, K("Z"), create=FALSE), sL)
    rejects(cx, it, "unknown factor name", lambda st: it.meth(col3(st), "factors", st, st.new(Dct({K("Z"): f1}))), sL)
    rejects(cx, it, "too few factors", lambda st: it.meth(col3(st), "factors", st, lst(st, [f1])), sL)
    rejects(cx, it, "too many factors", lambda st: it.meth(col3(st), "factors", st, lst(st, [f1, f2, f3])), sL)
    rejects(cx, it, "unbound combination", lambda st: it.meth(it.new("load_cases.LoadCombination", st, K("c"), lst(st, [f1, f2])), "to_LM", st), sL)
    rejects(cx, it, "not a beam", lambda st: it.analyze_call("load_cases.build_pycba_model", [K("beam"), LMv(st, [])], st=st), sL)
    rejects(cx, it, "trapezoid start without cover", lambda st: it.meth(it.new("load_cases.LoadCase", st, K("a")), "add_trap", st, ONE, f1, f2, sym("a")), sL)


def factor_forms(f1, f2, f3):
    """every accepted way to write three factors: (name, maker, factor of each case)"""
    forms = [("array", lambda st: st.new(Arr((3,), [f1, f2, f3])), dict(A=f1, B=f2, C=f3)), ("tuple", lambda st: Tup((f1, f2, f3)), dict(A=f1, B=f2, C=f3)),
             ("equal factors", lambda st: lst(st, [f1, f1, f1]), dict(A=f1, B=f1, C=f1)), ("unit factors", lambda st: lst(st, [ONE, ONE, ONE]), dict(A=ONE, B=ONE, C=ONE)),
             ("opposite factors", lambda st: lst(st, [f1, -f1, ONE]), dict(A=f1, B=-f1, C=ONE)), ("no case", lambda st: st.new(Dct({})), {})]
    for sg in itertools.product((1, 0, -1), repeat=3):
        v = [const(a) * f for a, f in zip(sg, (f1, f2, f3))]
        forms.append((f"sequence with signs {sg}", lambda st, v=v: lst(st, v), dict(zip("ABC", v))))
    # mappings: every set of cases, each by name or by position, in either order
    for by in itertools.product((None, "name", "position"), repeat=3):
        for rev in (False, True):
            pick = [(k, K("ABC"[k]) if h == "name" else const(k), (f1, f2, f3)[k]) for k, h in enumerate(by) if h]
            if not pick or rev and len(pick) < 2:
                continue
            if rev:
                pick.reverse()
            forms.append((f"mapping {by}{' reversed' if rev else ''}", lambda st, pick=pick: st.new(Dct({k: f for _, k, f in pick})), {"ABC"[k]: f for k, _, f in pick}))
    return forms


def same_terms(cx, rule, name, got, want, site):
    for s in sorted(set(got) | set(want)):
        cx.eq(rule, f"{name}:{s or 'none'}", got.get(s, ZERO), want.get(s, ZERO), site)
    if not got and not want:
        cx.ok(rule, f"{name}: none", "", site)


# ------------------------------------------------------------------- E02
def basis(it, st, n=3, neg=()):
    """a collection of n cases on a two-span template, with one or two loads each"""
    col = it.new("load_cases.LoadCases", st, template(it, st))
    names = "ABCD"[:n]
    allrows = {"A": [ints(1, 1) + [sym("qa")], ints(2, 2) + [sym("Pa"), sym("a")]],
               "B": [ints(2, 1) + [sym("qb")]],
               "C": [ints(2, 3) + [sym("qc"), sym("a"), sym("c")]],
               "D": [ints(1, 2) + [sym("Pd"), sym("a")]]}
    rows = {k: allrows[k] for k in names}
    for k, r in rows.items():
        it.meth(col, "add", st, K(k), LMv(st, r))
    terms = {k: lm_terms(st, LMv(st, r)) for k, r in rows.items()}
    return col, names, terms


def full_line(terms, att, mems=2, coef=None):
    out = []
    for i in range(mems):
        out += [sym(f"closure{att}{i}a", None)] + [effect(terms, att, i, j, coef) for j in range(NST)] + [sym(f"closure{att}{i}b", None)]
    return out


def keys(c):
    return {(k.v if isinstance(k, K) else k if not isinstance(k, Poly) else int(k.const())): v for k, v in c.items.items()}


RESP = (("M", ("M", "m", "moment", "Moment")), ("V", ("V", "shear", "SHEAR")), ("D", ("D", "deflection", "Deflection", "displacement")), ("R", ("R", "rotation", "Rotation")))


@prop("E02", floor=300, rule="With the analysis replaced by a stand-in whose effects are an arbitrary linear functional of the model's loads (separate coefficients per unit load, effect and station), the response matrix holds each case's own line in order, combined responses equal the factored sums and the response of the combined loads, and case, combination, additive, sign-selective and target selections equal their definitions under every enumerated ordering and sign pattern")
def e02(cx):
    log = []
    it = cx.interp(linear_hook(None, log), tol0=True)
    s_rm, s_cb = cx.loc("load_cases.collect_response_matrix"), cx.loc("load_cases.LoadCases.combine")

    def matrix(spell, att):
        st = State()
        col, names, terms = basis(it, st)
        t0 = it.getattr(col, "beam_model", st)
        pre = heap.snapshot(st, None)
        log.clear()
        r = it.meth(col, "response_matrix", st, response=K(spell))
        x, B = r.items
        for k, name in enumerate(names):
            want = full_line(terms[name], att)
            c = st.cell(B)
            for j, w in enumerate(want):
                cx.eq("response matrix", f"{spell}: case {name} station {j}", c.at(k, j), w, s_rm)
        cx.eq("response matrix", f"{spell}: rows", const(st.cell(B).shape[0]), const(len(names)), s_rm)
        Ls = [sym("L0"), sym("L1")]
        xs = [ZERO, ZERO, Ls[0] / const(2), Ls[0], Ls[0], Ls[0], Ls[0], Ls[0] + Ls[1] / const(2), Ls[0] + Ls[1], Ls[0] + Ls[1]]
        for j, (g, w) in enumerate(zip(data(st, x), xs)):
            cx.eq("response matrix", f"{spell}: x[{j}]", g, w, s_rm)
        for i, (ba, npts, t) in enumerate(log):
            want = it.getattr(t0, "npts", st)
            cx.eq("evaluation points", f"{spell}: analysis {i}", npts, want, s_rm)
        heap.unchanged(cx, "template unchanged", f"response_matrix {spell}", pre, t0, st, t0, s_rm)
        heap.unchanged(cx, "template unchanged", f"response_matrix {spell}: cases", pre, col, st, col, s_rm)
    for att, spells in RESP:
        for s in spells:
            cx.guard("response matrix", s, lambda s=s, att=att: matrix(s, att), s_rm)

    f = {k: sym(f"f{k}") for k in "ABCD"}

    def combine(nm, mk, want, att):
        st = State()
        col, names, terms = basis(it, st)
        fv = mk(st)
        wantt = {}
        for k, g in want.items():
            for s, m in terms[k].items():
                wantt[s] = wantt.get(s, ZERO) + g * m
        # closure stations of the cases: the factored sum as well
        line = []
        for j, (rows) in enumerate(zip(*[full_line(terms[k], att) for k in names])):
            line.append(sum((want.get(k, ZERO) * v for k, v in zip(names, rows)), ZERO))
        ev = [j for j in range(len(line)) if j % (NST + 2) not in (0, NST + 1)]
        for how in ("combine", "linear_combination", "combination.response"):
            if how == "combination.response":
                lc = it.new("load_cases.LoadCombination", st, K("c"), fv)
                x, y = it.meth(lc, "response", st, col, response=K(att)).items
            else:
                x, y = it.meth(col, how, st, fv, response=K(att)).items
            for j, w in enumerate(line):
                cx.eq("combined response", f"{how}:{nm}:{att}[{j}]", data(st, y)[j], w, s_cb)
        # the analysis of the combined loads gives the same line
        for how in ("analyze_combination", "analyse_combination", "combination.analyze", "combination.analyse", "combination.envelope"):
            log.clear()
            npts = sym("npts", intlike=True)
            if how.startswith("combination."):
                lc = it.new("load_cases.LoadCombination", st, K("c"), fv)
                out = it.meth(lc, how.split(".")[1], st, col, npts=npts)
            else:
                out = it.meth(col, how, st, fv, npts=npts)
            site = cx.loc("load_cases.LoadCases.analyze_combination")
            if len(log) != 1:
                cx.bad("combined analysis", f"{how}:{nm}", f"{len(log)} analyses", site)
                continue
            same_terms(cx, "combined analysis", f"{how}:{nm}", log[0][2], wantt, site)
            cx.eq("evaluation points", f"{how}:{nm}", log[0][1], npts, site)
            if how == "combination.envelope":
                vr = it.getattr(out, "vResults", st)
                same = [v for v in st_list(it, st, vr)]
                cx.eq("combined analysis", f"{how}:{nm}: result sets", const(len(same)), ONE, site)
                res = same[0]
            else:
                res = it.getattr(out, "beam_results", st)
            y = data(st, it.getattr(it.getattr(res, "results", st), att, st))
            for j in ev:
                cx.eq("combined analysis", f"{how}:{nm}:{att}[{j}]", y[j], line[j], site)
    for nm, mk, want in (
        ("sequence", lambda st: lst(st, [f["A"], f["B"], f["C"]]), dict(f)),
        ("negative sequence", lambda st: lst(st, [-f["A"], f["B"], -f["C"]]), dict(A=-f["A"], B=f["B"], C=-f["C"])),
        ("by name", lambda st: st.new(Dct({K("C"): f["C"], K("A"): f["A"]})), dict(A=f["A"], C=f["C"])),
        ("by index", lambda st: st.new(Dct({const(1): f["B"]})), dict(B=f["B"])),
        *factor_forms(f["A"], f["B"], f["C"]),
    ):
        for att, _ in RESP if nm.split()[0] in ("sequence", "negative", "by") and "signs" not in nm else RESP[:1]:
            cx.guard("combined response", f"{nm}:{att}", lambda nm=nm, mk=mk, want=want, att=att: combine(nm, mk, {k: v for k, v in want.items() if k in "ABC"}, att), s_cb)

    def combine2():
        st = State()
        col, names, terms = basis(it, st)
        F = st.new(Arr((2, 3), [sym(f"f{i}{k}") for i in range(2) for k in names]))
        x, y = it.meth(col, "combine", st, F).items
        rows = [full_line(terms[k], "M") for k in names]
        for i in range(2):
            for j in range(len(rows[0])):
                cx.eq("combined response", f"factor rows: {i},{j}", st.cell(y).at(i, j), sum((sym(f"f{i}{k}") * rows[m][j] for m, k in enumerate(names)), ZERO), s_cb)
    cx.guard("combined response", "factor rows", combine2, s_cb)

    # every case on its own, enveloped
    def env(npts):
        st = State()
        col, names, terms = basis(it, st)
        log.clear()
        ba = it.getattr(col, "beam_model", st)
        e = it.meth(col, "envelope", st, **(dict(npts=npts) if npts is not None else {}))
        site = cx.loc("load_cases.LoadCases.envelope")
        cx.eq("case envelope", "analyses", const(len(log)), const(len(names)), site)
        for k, (b, n, t) in zip(names, log):
            same_terms(cx, "case envelope", f"case {k} analysed alone", t, terms[k], site)
            cx.eq("evaluation points", f"envelope: case {k}", n, npts if npts is not None else it.getattr(ba, "npts", st), site)
        vr = st_list(it, st, it.getattr(e, "vResults", st))
        cx.eq("case envelope", "result sets", const(len(vr)), const(len(names)), site)
        for k, r in zip(names, vr):
            for att, _ in RESP:
                y = data(st, it.getattr(it.getattr(r, "results", st), att, st))
                for j, w in enumerate(full_line(terms[k], att)):
                    cx.eq("case envelope", f"case {k}:{att}[{j}]", y[j], w, site)
    cx.guard("case envelope", "default", lambda: env(None))
    cx.guard("case envelope", "npts", lambda: env(sym("npts", intlike=True)))

    # additive and sign-selective envelopes under every strict ordering of the cases and zero
    def additive(n, m):
        st = State()
        cs = uniq_cases(n)
        B = st.new(Arr((n, len(cs)), [c[0][k] for k in range(n) for c in cs]))
        r = it.analyze_call("load_cases.additive_envelope", [B] + ([const(m)] if m else []), st=st)[0]
        neg, pos, ineg, ipos = r.items
        site = cx.loc("load_cases.additive_envelope")
        mm = m or 2
        for j, (vals, perm, z) in enumerate(cs):
            cx.eq("additive envelope", f"{n} cases, {mm} combined, ordering {j}: negative", data(st, neg)[j], sum((vals[k] for k in perm[:mm]), ZERO), site)
            cx.eq("additive envelope", f"{n} cases, {mm} combined, ordering {j}: positive", data(st, pos)[j], sum((vals[k] for k in perm[n - mm:]), ZERO), site)
            for nm, ix, w in (("negative", ineg, perm[:mm]), ("positive", ipos, perm[n - mm:])):
                c = st.cell(ix)
                got = [as_num(c.at(i, j)) for i in range(c.shape[0])]
                if not all(g.is_const() for g in got):
                    cx.und("additive envelope", f"{n} cases, {mm} combined, ordering {j}: {nm} indices", repr(got), site)
                else:
                    (cx.ok if sorted(int(g.const()) for g in got) == sorted(w) else cx.bad)("additive envelope", f"{n} cases, {mm} combined, ordering {j}: {nm} indices", f"{got} / {w}", site)
    for n, m in ((1, 1), (2, 1), (2, None), (3, 1), (3, 2), (3, 3), (4, 2)):
        cx.guard("additive envelope", f"{n},{m}", lambda n=n, m=m: additive(n, m))

    def signsel(n, pos_given, part):
        st = State()
        cs = uniq_cases(n)
        cs = cs[part::3] if len(cs) > 24 else cs
        zero = [(tuple(ZERO if k == i else v for k, v in enumerate(c[0])), c[1], c[2]) for i in range(n) for c in cs[:2]]
        cs = cs + zero
        B = st.new(Arr((n, len(cs)), [c[0][k] for k in range(n) for c in cs]))
        ids = [2, 9, 4][:n] if pos_given else [1 << k for k in range(n)]
        r = it.analyze_call("load_cases.sign_selective_envelope", [B] + ([lst(st, ints(*ids))] if pos_given else []), st=st)[0]
        site = cx.loc("load_cases.sign_selective_envelope")
        for nm, v, mk, sg in (("negative", r.items[0], r.items[2], -1), ("positive", r.items[1], r.items[3], 1)):
            for j, (vals, perm, z) in enumerate(cs):
                mem = [k for k in range(n) if alg.sign(vals[k]) == sg and not alg.is_zero(vals[k])]
                tag = f"{n} cases{' with positions' if pos_given else ''}, pattern {part}.{j}: {nm}"
                cx.eq("sign-selective envelope", tag, data(st, v)[j], sum((vals[k] for k in mem), ZERO), site)
                want = 0
                for k in mem:
                    want |= ids[k]
                cx.eq("sign-selective envelope", tag + " contributors", data(st, mk)[j], const(want), site)
    for n in (1, 2, 3):
        for p in (False, True):
            for part in range(3 if n > 2 else 1):
                cx.guard("sign-selective envelope", f"{n},{p},{part}", lambda n=n, p=p, part=part: signsel(n, p, part))

    # target combinations
    TAB = {("A", 0): (5, -3, 2, -4, 6, -1), ("B", 0): (-2, 4, 3, 0, -5, 7), ("C", 0): (0, 0, -9, 8, 1, -6)}

    def coef(att, mem, j, s):
        if att == "Re":
            return ONE
        k = {"1:1:2:": "A", "2:2:2:a": "A", "2:1:2:": "B", "2:3:2:a,c": "C"}[s]
        i = mem * NST + j
        sh = EFF.index(att)
        v = TAB[(k, 0)][(i + sh) % 6] * (-1 if sh % 2 else 1)
        return const(v)
    it2 = cx.interp(linear_hook(None, log, coef), tol0=True)
    half = const(Fraction(1, 2))
    L0, L1 = sym("L0"), sym("L1")
    # coordinate -> list of admissible (member, weights on stations)
    pts = (("left end", ZERO, (0, {0: 1})), ("quarter of span 1", L0 * half * half, (0, {0: .5, 1: .5})), ("middle of span 1", L0 * half, (0, {1: 1})),
           ("in span 1", L0 * half + L0 * half * half, (0, {1: .5, 2: .5})), ("quarter of span 2", L0 + L1 * half * half, (1, {0: .5, 1: .5})),
           ("middle of span 2", L0 + L1 * half, (1, {1: 1})), ("right end", L0 + L1, (1, {2: 1})))
    senses = {"min": ("min", "minimum", "neg", "negative", "hogging", "MIN", "Negative"), "max": ("max", "maximum", "pos", "positive", "sagging", "Max")}

    def target(att, spell, pn, x, where, sense, sspell, fac):
        st = State()
        col, names, terms = basis(it2, st)
        kw = {} if fac is None else dict(selected_factor=fac[0], unselected_factor=fac[1])
        if spell is not None:
            kw["response"] = K(spell)
        if sspell is not None:
            kw["sense"] = K(sspell)
        lc = it2.meth(col, "target_combination", st, K("t"), x, **kw)
        site = cx.loc("load_cases._make_target_combination")
        tag = f"{att}({spell}) {sspell} at {pn}" + (" with factors" if fac else "")
        f1, f0 = fac or (ONE, ZERO)
        m, wts = where
        sel = []
        for k in names:
            v = sum((effect(terms[k], att, m, j, coef) * const(Fraction(w)) for j, w in wts.items()), ZERO)
            s = 0 if alg.is_zero(v) else alg.sign(v)
            if s is None:
                cx.und("target", tag, "sign of the target value", site)
                return
            sel.append(s == (-1 if sense == "min" else 1))
        for k, g, w in zip(names, st_list(it2, st, it2.getattr(lc, "factors", st)), sel):
            cx.eq("target", f"{tag}: case {k}", g, f1 if w else f0, site)
        wantt = {}
        for k, w in zip(names, sel):
            for s, v in terms[k].items():
                wantt[s] = wantt.get(s, ZERO) + v * (f1 if w else f0)
        same_terms(cx, "target", f"{tag}: bound loads", lm_terms(st, it2.meth(lc, "to_LM", st)), {k: v for k, v in wantt.items() if not alg.is_zero(v)}, site)
    # A's two loads always act together with one sign because their coefficients agree
    for att, spells in RESP:
        for pn, x, where in pts:
            for sense in ("min", "max"):
                cx.guard("target", f"{att} {sense} {pn}", lambda att=att, pn=pn, x=x, where=where, sense=sense: target(att, att, pn, x, where, sense, sense, None))
        for sp in spells:
            pn, x, where = pts[2]
            cx.guard("target", f"{sp}", lambda att=att, sp=sp: target(att, sp, *pts[2], "max", "max", None))
    for sense, sps in senses.items():
        for sp in sps:
            cx.guard("target", f"sense {sp}", lambda sense=sense, sp=sp: target("M", None, *pts[2], sense, sp, None))
    for sense in senses:
        cx.guard("target", f"factors {sense}", lambda sense=sense: target("M", "M", *pts[3], sense, sense, (sym("fs"), sym("fu"))))
    cx.guard("target", "defaults", lambda: target("M", None, *pts[2], "min", None, None))

    st_ = cx.loc("load_cases.LoadCases.target_combination")
    sC = cx.loc("load_cases.LoadCases")
    rejects(cx, it2, "target left of the beam", lambda st: it2.meth(basis(it2, st)[0], "target_combination", st, K("t"), -sym("d")), st_)
    rejects(cx, it2, "target right of the beam", lambda st: it2.meth(basis(it2, st)[0], "target_combination", st, K("t"), L0 + L1 + sym("d")), st_)
    rejects(cx, it2, "unknown sense", lambda st: it2.meth(basis(it2, st)[0], "target_combination", st, K("t"), L0, sense=K("sideways")), st_)
    rejects(cx, it2, "unknown response", lambda st: it2.meth(basis(it2, st)[0], "target_combination", st, K("t"), L0, response=K("torsion")), st_)
    rejects(cx, it2, "response matrix: unknown response", lambda st: it2.meth(basis(it2, st)[0], "response_matrix", st, response=K("torsion")), sC)
    rejects(cx, it2, "response matrix: no cases", lambda st: it2.meth(it2.new("load_cases.LoadCases", st, template(it2, st)), "response_matrix", st), sC)
    rejects(cx, it2, "combine: wrong count", lambda st: it2.meth(basis(it2, st)[0], "combine", st, lst(st, [f["A"], f["B"]])), sC)
    rejects(cx, it2, "combine: wrong row length", lambda st: it2.meth(basis(it2, st)[0], "combine", st, st.new(Arr((2, 2), [f["A"]] * 4))), sC)
    rejects(cx, it2, "combine: unknown name", lambda st: it2.meth(basis(it2, st)[0], "combine", st, st.new(Dct({K("Z"): f["A"]}))), sC)
    M1 = lambda st, r, k: st.new(Arr((r, k), [sym(f"b{i}") for i in range(r * k)]))
    rejects(cx, it2, "additive: too few cases", lambda st: it2.analyze_call("load_cases.additive_envelope", [M1(st, 1, 2)], st=st), sC)
    rejects(cx, it2, "additive: none combined", lambda st: it2.analyze_call("load_cases.additive_envelope", [M1(st, 2, 2), ZERO], st=st), sC)
    rejects(cx, it2, "sign-selective: wrong positions", lambda st: it2.analyze_call("load_cases.sign_selective_envelope", [M1(st, 2, 2), lst(st, ints(1))], st=st), sC)
    rejects(cx, it2, "unbound combination response", lambda st: it2.meth(it2.new("load_cases.LoadCombination", st, K("c"), lst(st, [ONE])), "response", st), sC)


# ------------------------------------------------------------------- E03
def udl_load(w, lo, hi, L):
    terms = []
    if hi is not None:
        terms = [(w, lo, 0)] + ([] if alg.equal(hi, L) else [(-w, hi, 0)])
    return mech.Load("expected", None, [L], terms, "")


@prop("E03", floor=250, rule="The rows generated for a beam segment, a segmented span and a load pattern produce, member by member, exactly the end actions of the part of the load they stand for, for every placement of the segment relative to the span boundaries, every enumerated span and segment count and symbolic factors")
def e03(cx):
    it = cx.interp(tol0=True)
    w = sym("w", None)
    n = 3
    parts = [[sym(f"p{i}"), sym(f"q{i}"), sym(f"r{i}")] for i in range(n)]
    Ls = [sum(p, ZERO) for p in parts]

    def tmpl(st, Ls=Ls):
        m = len(Ls)
        return it.new("analysis.BeamAnalysis", st, lst(st, Ls), lst(st, [sym(f"E{i}") for i in range(m)]), R=lst(st, ints(-1, 0) + ints(-1, 0) * m))

    def conv(st, rows, i, L):
        """fixed-end actions on span i (0-based) of load rows"""
        return total_fixed(it, st, parsed(it, st, rows), i, L)

    pts = []
    off = ZERO
    for i, p in enumerate(parts):
        pts += [(f"boundary {i}", off, i, ZERO), (f"inside span {i + 1}", off + p[0], i, p[0]), (f"further inside span {i + 1}", off + p[0] + p[1], i, p[0] + p[1])]
        off = off + Ls[i]
    pts.append((f"right end", off, n, ZERO))

    def segment(a, b, level):
        st = State()
        ba = tmpl(st)
        (na, xa, ia, la), (nb, xb, ib, lb) = pts[a], pts[b]
        if level == "case":
            case = it.new("load_cases.LoadCase", st, K("a"))
            it.meth(case, "add_segment_udl", st, ba, xa, xb, w)
        elif level == "beam":
            case = it.new("load_cases.LoadCase", st, K("a"))
            it.meth(case, "add_segment_udl", st, it.getattr(ba, "beam", st), xa, xb, w)
        else:
            col = it.new("load_cases.LoadCases", st, ba)
            it.meth(col, "add_segment_udl", st, K("a"), xa, xb, w)
            case = it.meth(col, "case", st, K("a"))
        rows = it.meth(case, "to_LM", st)
        site = cx.loc("load_cases._make_segment_udl")
        for i in range(n):
            lo = la if i == ia else ZERO
            hi = Ls[i] if i < ib else lb if i == ib and not alg.is_zero(lb) else None
            if i < ia:
                hi = None
            want_comps(cx, "segment", f"{level}: {na} to {nb}: span {i + 1}", conv(st, rows, i, Ls[i]), udl_load(w, lo, hi, Ls[i]).fixed(), site)
        ent = entries_of(st, rows)
        spans = [as_num(st.cell(r).values()[0]) for r in ent]
        bad = [alg.show(s) for s in spans if not s.is_const() or not 1 <= s.const() <= n]
        (cx.bad if bad else cx.ok)("segment", f"{level}: {na} to {nb}: rows address spans of the beam", repr(bad), site)
    for a in range(len(pts)):
        for b in range(a + 1, len(pts)):
            for level in ("case",) if (a + b) % 4 else ("case", "beam", "collection"):
                cx.guard("segment", f"{level}: {pts[a][0]} to {pts[b][0]}", lambda a=a, b=b, level=level: segment(a, b, level))
    sS = cx.loc("load_cases._make_segment_udl")
    g = sym("g")
    total = sum(Ls, ZERO)
    for nm, x0, x1 in (("empty segment", parts[0][0], parts[0][0]), ("reversed segment", parts[0][0] + g, parts[0][0]), ("segment starting before the beam", -g, parts[0][0]),
                       ("segment ending beyond the beam", parts[0][0], total + g)):
        rejects(cx, it, nm, lambda st, x0=x0, x1=x1: it.meth(it.new("load_cases.LoadCase", st, K("a")), "add_segment_udl", st, tmpl(st), x0, x1, w), sS)

    # segmented spans
    def segmented(ns, k):
        st = State()
        Lk = [sym(f"L{i}") for i in range(ns)]
        ba = tmpl(st, Lk)
        args = [ba, w] + ([const(k)] if k else [])
        col = it.analyze_call("load_cases.make_patterned_udl", args, st=st)[0]
        k = k or 20
        site = cx.loc("load_cases.make_patterned_udl")
        cases = it.getattr(col, "cases", st)
        cs = st_list(it, st, cases)
        cx.eq("segmented", f"{ns} spans, {k} segments: cases", const(len(cs)), const(ns * k), site)
        names = [strs(it.getattr(c, "name", st)) for c in cs]
        (cx.ok if len(set(names)) == len(cs) and None not in names else cx.und if None in names else cx.bad)("segmented", f"{ns} spans, {k} segments: distinct names", repr(names[:4]), site)
        pos = st_list(it, st, it.meth(col, "load_positions", st))
        off = ZERO
        for i in range(ns):
            for j in range(k):
                idx = i * k + j
                if idx >= len(cs):
                    continue
                L = Lk[i]
                lo, hi = L * const(Fraction(j, k)), L * const(Fraction(j + 1, k))
                tag = f"{ns} spans, {k} segments: span {i + 1} segment {j + 1}"
                rows = it.meth(cs[idx], "to_LM", st)
                if k <= 4 or j in (0, 1, 9, k - 2, k - 1):
                    for m in range(ns):
                        want_comps(cx, "segmented", f"{tag}: on span {m + 1}", conv(st, rows, m, Lk[m]), udl_load(w, lo, hi if m == i else None, Lk[m]).fixed(), site)
                cx.eq("segmented", f"{tag}: identifier", pos[idx], const(1 << idx), site)
            off = off + Lk[i]
    for ns in (1, 2, 3):
        for k in (1, 2, 3):
            cx.guard("segmented", f"{ns},{k}", lambda ns=ns, k=k: segmented(ns, k))
    cx.guard("segmented", "default", lambda: segmented(2, None))
    for nm, v in (("no segments", ZERO), ("negative segments", const(-2)), ("fractional segments", const(Fraction(5, 2))), ("boolean segments", TRUE)):
        rejects(cx, it, nm, lambda st, v=v: it.analyze_call("load_cases.make_patterned_udl", [tmpl(st), w, v], st=st), cx.loc("load_cases._validate_n_segments"))

    # load patterns
    log = []
    ith = cx.interp(linear_hook(None, log), tol0=True)
    G, g_, Q, q_ = (sym(x, None) for x in ("Gmax", "Gmin", "Qmax", "Qmin"))

    def dead(N):
        r = []
        for i in range(1, N + 1):
            r.append(ints(i, 1) + [sym(f"dw{i}", None)])
            if i % 2:
                r.append(ints(i, 2) + [sym(f"dP{i}", None), sym("a")])
        return r

    def live(N):
        r = []
        for i in range(N, 0, -1):
            r.append(ints(i, 3) + [sym(f"lw{i}", None), sym("a"), sym("c")])
            if i % 2 == 0:
                r.append(ints(i, 5) + [sym(f"lt{i}", None), sym(f"lu{i}", None)])
        return r

    def arrangement(st, N, spans):
        t = {}
        for rows, fmax, fmin in ((dead(N), G, g_), (live(N), Q, q_)):
            for r in rows:
                f = fmax if int(r[0].const()) in spans else fmin
                for m, s in row_terms(st, lst(st, r)):
                    t[s] = t.get(s, ZERO) + m * f
        return t

    def same(a, b):
        return all(alg.equal(a.get(k, ZERO), b.get(k, ZERO)) for k in set(a) | set(b))

    def pattern(N, as_case):
        st = State()
        Lk = [sym(f"L{i}") for i in range(N)]
        ba = tmpl(st, Lk)
        lp = ith.new("pattern.LoadPattern", st, ba)
        D, V = LMv(st, dead(N)), LMv(st, live(N))
        if as_case:
            D, V = ith.new("load_cases.LoadCase", st, K("dead"), D), ith.new("load_cases.LoadCase", st, K("live"), V)
        ith.meth(lp, "set_dead_loads", st, D, G, g_)
        ith.meth(lp, "set_live_loads", st, V, Q, q_)
        site = cx.loc("pattern.LoadPattern.to_load_cases")
        tag0 = f"{N} spans{' (load cases)' if as_case else ''}"
        if not as_case:       # later edits of the caller's matrices do not reach the patterns
            for M in (D, V):
                r = st.w(st.w(M).ent[0][1])
                r.ent[2] = (TRUE, sym("scribbled", None))
        want = [("adjacent spans %d-%d" % (i, i + 1), (i, i + 1)) for i in range(1, N)]
        want += [("odd spans", tuple(range(1, N + 1, 2))), ("even spans", tuple(range(2, N + 1, 2))), ("all spans", tuple(range(1, N + 1)))]
        s0 = heap.snapshot(st, None)
        got = []
        for v in st.cell(ith.meth(lp, "to_LM", st)).items.values():
            got.append(lm_terms(st, v))
        for nm, sp in want:
            t = arrangement(st, N, sp)
            hit = [x for x in got if same(x, t)]
            if hit:
                cx.ok("pattern", f"{tag0}: {nm} at maximum, others at minimum", "", site)
                continue
            # closest arrangement, for the report
            best = min(got, key=lambda x: sum(not alg.equal(x.get(k, ZERO), t.get(k, ZERO)) for k in set(x) | set(t))) if got else {}
            same_terms(cx, "pattern", f"{tag0}: {nm} at maximum, others at minimum", best, t, site)
        known = [arrangement(st, N, sp) for _, sp in want]
        for i, x in enumerate(got):
            # a further arrangement is harmless only if it factors every load by its maximum or minimum
            if any(same(x, t) for t in known):
                cx.ok("pattern", f"{tag0}: generated arrangement {i + 1}", "", site)
                continue
            full, none_ = arrangement(st, N, range(1, N + 1)), arrangement(st, N, ())
            for k in sorted(set(x) | set(full)):
                if not (alg.equal(x.get(k, ZERO), full.get(k, ZERO)) or alg.equal(x.get(k, ZERO), none_.get(k, ZERO))):
                    cx.eq("pattern", f"{tag0}: generated arrangement {i + 1}:{k}", x.get(k, ZERO), full.get(k, ZERO), site)
        cx.eq("pattern", f"{tag0}: arrangements", const(len(got)), const(len(want)), site)
        # each generated load case names the spans it loads to the maximum
        for c in st_list(ith, st, ith.getattr(ith.meth(lp, "to_load_cases", st), "cases", st)):
            t = lm_terms(st, ith.meth(c, "to_LM", st))
            mine = [sp for _, sp in want if same(t, arrangement(st, N, sp))]
            try:
                got_sp = tuple(int(as_num(v).const()) for v in st_list(ith, st, ith.getattr(c, "loaded_spans", st)))
            except (Unsup, AttributeError, TypeError, ValueError) as e:
                cx.und("pattern", f"{tag0}: loaded spans named", f"{e}", site)
                continue
            if mine:
                (cx.ok if any(got_sp == tuple(i - 1 for i in sp) for sp in mine) else cx.bad)("pattern", f"{tag0}: loaded spans named for spans {mine[0]}", f"names {got_sp} (0-based)", site)
        # analysis: one result set per arrangement, all enveloped
        w0 = struct(ith, s0, ba)
        log.clear()
        npts = sym("npts", intlike=True)
        env = ith.meth(lp, "analyze", st, npts)
        sA = cx.loc("pattern.LoadPattern.analyze")
        ran = [t for _, _, t in log]
        for nm, sp in want:
            t = arrangement(st, N, sp)
            (cx.ok if any(same(x, t) for x in ran) else cx.bad)("pattern analysed", f"{tag0}: {nm}", "no analysis carries this arrangement", sA)
        vr = st_list(ith, st, ith.getattr(env, "vResults", st))
        cx.eq("pattern analysed", f"{tag0}: result sets", const(len(vr)), const(len(want)), sA)
        for i, (r, t) in enumerate(zip(vr, ran)):
            for att in ("M", "V"):
                y = data(st, ith.getattr(ith.getattr(r, "results", st), att, st))
                for j, wv in enumerate(full_line(t, att, N)):
                    cx.eq("pattern analysed", f"{tag0}: result set {i + 1}:{att}[{j}]", y[j], wv, sA)
        for _, p, _ in log:
            cx.eq("pattern analysed", f"{tag0}: evaluation points", p, npts, sA)
        for a, v in struct(ith, st, ba).items():
            seq_eq(cx, "pattern keeps the structure", f"{tag0}: {a}", ith, st, v, s0, w0[a], sA)
        # the analysis holds results of the loads it holds
        br = ith.getattr(ba, "beam_results", st)
        held = lm_terms(st, ith.getattr(ith.getattr(ba, "beam", st), "loads", st))
        for i, (r, t) in enumerate(zip(vr, ran)):
            if r == br:
                same_terms(cx, "pattern leaves loads and results of one arrangement", tag0, held, t, sA)
    for N in (1, 2, 3, 4, 5, 6) + ((7, 8) if cx.tier == "thorough" else ()):
        for as_case in (False, True):
            cx.guard("pattern", f"{N},{as_case}", lambda N=N, as_case=as_case: pattern(N, as_case))
    sP = cx.loc("pattern.LoadPattern.to_load_cases")

    def half(which):
        def f(st):
            lp = ith.new("pattern.LoadPattern", st, tmpl(st))
            ith.meth(lp, which, st, LMv(st, dead(3)), G, g_)
            ith.meth(lp, "analyze", st)
        return f
    rejects(cx, ith, "pattern without live loads", half("set_dead_loads"), sP)
    rejects(cx, ith, "pattern without dead loads", half("set_live_loads"), sP)
