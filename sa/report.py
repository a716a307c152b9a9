"""Obligation bookkeeping, verdicts and evidence for one property check."""
from __future__ import annotations
import json
import os
import signal
import sys
import time
import traceback

from . import alg
from .alg import Poly, Cond, sym, const, ZERO, ONE
from .vals import *  # noqa
from .prog import Program, AnchorMissing, REPO
from .interp import make, Unsup, Raised

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known_findings.txt")

REG = {}


class TimeUp(BaseException):
    """the time one obligation group (or the whole check) may take is used up"""


GUARD_S, TOTAL_S = 120.0, 720.0


class Clock:
    end = None
    depth = 0

    @classmethod
    def start(cls):
        def up(*_):
            raise TimeUp()
        signal.signal(signal.SIGALRM, up)
        cls.end = time.time() + TOTAL_S
        cls.arm(TOTAL_S)

    @classmethod
    def left(cls):
        return 1e9 if cls.end is None else cls.end - time.time()

    @classmethod
    def arm(cls, s):
        if cls.end is not None:
            signal.setitimer(signal.ITIMER_REAL, max(0.05, min(s, cls.left())))

    @classmethod
    def stop(cls):
        if cls.end is not None:
            signal.setitimer(signal.ITIMER_REAL, 0)


class Prop:
    def __init__(self, pid, fn, floor, title, rule):
        self.pid, self.fn, self.floor, self.title, self.rule = pid, fn, floor, title, rule


def prop(pid, floor=1, title="", rule=""):
    def deco(fn):
        REG[pid] = Prop(pid, fn, floor, title, rule)
        return fn

    return deco


def plain(x):
    """every atom is a genuine symbol or an interpreted, injective-enough
    operation on symbols: a non-zero normal form then means a real difference."""
    for a in x.atoms():
        if a.opaque:
            return False
        if a.kind in ("sym",):
            continue
        if a.kind == "inv":
            if all(plain(y) for y in a.args if isinstance(y, (Poly,))):
                continue
        if a.kind == "fn" and a.name in PLAINFN:
            if all(plain(y) for y in a.args if isinstance(y, Poly)):
                continue
        return False
    return True


PLAINFN = {"sqrt"}


class Ctx:
    def __init__(self, pid, prog, tier="quick"):
        self.pid, self.prog, self.tier = pid, prog, tier
        self.obs = []
        self.interps = []
        self.visited = set()
        self.extra = {}
        self.scope = ""

    # -- interpreters
    def interp(self, hooks=None, **kw):
        it = make(self.prog, hooks, **kw)
        self.interps.append(it)
        return it

    # -- obligations
    def add(self, status, rule, construct, detail="", site=""):
        self.obs.append(dict(status=status, rule=rule, construct=construct, detail=str(detail)[:900], site=site))
        return status == "ok"

    def ok(self, rule, construct, detail="", site=""):
        return self.add("ok", rule, construct, detail, site)

    def bad(self, rule, construct, detail="", site=""):
        return self.add("bad", rule, construct, detail, site)

    def und(self, rule, construct, detail="", site=""):
        return self.add("und", rule, construct, detail, site)

    def loc(self, dotted):
        try:
            f = self.prog.func(dotted)
            return f"{f.module.relpath}:{f.node.lineno}"
        except AnchorMissing:
            try:
                c = self.prog.cls(dotted)
                return f"{c.module.relpath}:{c.node.lineno}"
            except AnchorMissing:
                return dotted

    def eq(self, rule, construct, got, want, site="", it=None, st=None):
        """obligation got == want as value-graph normal forms"""
        try:
            g = as_num(got, it, st)
        except Unsup as e:
            return self.und(rule, construct, f"not numeric: {e} ({got!r})", site)
        w = alg.topoly(want)
        st_, msg = compare(g, w)
        if st_ == "ok":
            return self.ok(rule, construct, f"== {alg.show(w, 200)}", site)
        if st_ == "bad":
            return self.bad(rule, construct, msg, site)
        return self.und(rule, construct, msg, site)

    def guard(self, rule, construct, fn, site=""):
        """run fn; an analysis gap makes the obligation undecided, never silent."""
        if Clock.depth:
            return self.guard1(rule, construct, fn, site)
        if Clock.left() < 1:
            return self.und(rule, construct, "no time left", site)
        Clock.depth += 1
        for i in self.interps:
            i.steps = 0          # the step budget is per obligation
        Clock.arm(GUARD_S)
        try:
            return self.guard1(rule, construct, fn, site)
        except TimeUp:
            self.und(rule, construct, f"not decided in {GUARD_S:.0f} s", site)
        finally:
            Clock.depth -= 1
            Clock.arm(1e9)

    def guard1(self, rule, construct, fn, site=""):
        try:
            return fn()
        except AnchorMissing:
            raise
        except Raised as e:
            ev = []
            for x in self.interps:
                ev += [v for v in x.events if v[0] == "raise" and v[2].k == "T"]
            if e.exc == "always raises" and ev:
                self.bad(rule, construct, f"always raises {ev[-1][1]} at {ev[-1][3]}", site)
            else:
                self.und(rule, construct, f"abstractly always raises {e.exc}", site)
        except (Unsup, OverflowError, RecursionError, alg.DivZero) as e:
            self.und(rule, construct, f"unsupported: {type(e).__name__} {e}", site)
        except (KeyError, AttributeError, TypeError, IndexError, ValueError) as e:
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            self.und(rule, construct, f"analysis gap: {type(e).__name__} {e} @{os.path.basename(tb.filename)}:{tb.lineno}", site)
        return None


def as_num(v, it=None, st=None):
    if isinstance(v, Poly):
        return v
    if isinstance(v, (int, float)):
        return alg.topoly(v)
    if v is None:
        raise Unsup("missing value")
    if isinstance(v, Cond):
        return alg.boolnum(v)
    if isinstance(v, Opq):
        return v.as_num()
    if isinstance(v, GV):
        return alg.gamma(v.c, as_num(v.a, it, st), as_num(v.b, it, st))
    if st is not None and isinstance(v, Ref):
        c = st.cell(v)
        if isinstance(c, Arr) and len(c.data) == 1:
            return as_num(c.data[0], it, st)
        if isinstance(c, Fld):
            return as_num(c.elem, it, st)
    raise Unsup(f"not a number: {v!r}")


def _apply_eqs(d, facts):
    for c, v in facts:
        if v and c.k == "eq":
            p = c.a[0]
            for a in sorted(p.atoms(), key=lambda a: -a.id):
                if a.kind != "sym":
                    continue
                lin = [(m, k) for m, k in p.t.items() if any(b is a for b, _ in m)]
                if len(lin) == 1 and lin[0][0] == ((a, 1),):
                    ap = alg.atom_poly(a)
                    rest = p - ap * const(lin[0][1])
                    d = alg.subst(d, {a: -rest / const(lin[0][1])})
                    break
    return d


def _open_choices(a):
    """max/min/abs of plain values as merges of their alternatives"""
    if isinstance(a, alg.Atom) and a.kind == "fn" and a.name in ("max", "min", "abs"):
        if a.name == "abs":
            p = alg.topoly(a.args[0])
            return alg.gamma(alg.cgt(p), p, alg.neg(p))
        if not 2 <= len(a.args) <= 4:
            return None
        r = alg.topoly(a.args[0])
        for q in a.args[1:]:
            q = alg.topoly(q)
            r = alg.gamma(alg.cgt(q - r if a.name == "max" else r - q), q, r)
        return r
    return None


def infeasible(facts):
    """the linear part of the facts is contradictory (Fourier-Motzkin on sign facts);
    monomials of known sign are taken as independent non-negative quantities"""
    rows = []       # (dict monomial -> coefficient, constant, strict): sum > 0 (or >= 0)
    for c, v in facts:
        if c.k == "gt":
            p = c.a[0]
            rows.append(({m: (k if v else -k) for m, k in p.t.items()}, v))
        elif c.k == "eq" and v:
            p = c.a[0]
            rows.append((dict(p.t), False))
            rows.append(({m: -k for m, k in p.t.items()}, False))
    ms = {m for r, _ in rows for m in r if m != ()}
    for m in ms:
        s = alg.sign(Poly({m: 1}))
        if s == 1:
            rows.append(({m: 1}, True))
        elif s == -1:
            rows.append(({m: -1}, True))
        else:
            if all(e % 2 == 0 for _, e in m):
                rows.append(({m: 1}, False))
    for m in ms:
        pos = [r for r in rows if r[0].get(m, 0) > 0]
        neg = [r for r in rows if r[0].get(m, 0) < 0]
        rest = [r for r in rows if r[0].get(m, 0) == 0]
        if len(pos) * len(neg) > 400:
            return False
        for a, sa in pos:
            for b, sb in neg:
                ka, kb = a[m], -b[m]
                d = {}
                for k in set(a) | set(b):
                    x = a.get(k, 0) * kb + b.get(k, 0) * ka
                    if x and k != m:
                        d[k] = x
                rest.append((d, sa or sb))
        rows = rest
        if len(rows) > 600:
            return False
    for r, strict in rows:
        k = r.get((), 0)
        if k < 0 or (k == 0 and strict):
            return True
    return False


def compare(g, w):
    """-> (status, message)."""
    try:
        if alg.equal(g, w):
            return "ok", ""
    except (OverflowError, alg.DivZero) as e:
        return "und", f"{type(e).__name__}"
    d = g - w
    if any(a.kind in ("fn", "gam", "inv") for a in d.atoms()):
        try:
            d = alg.rewrite(d, _open_choices)
            if alg.is_zero(d):
                return "ok", ""
        except (OverflowError, alg.DivZero):
            d = g - w
    try:
        cs = alg.cases(d, limit=64)
    except OverflowError:
        return "und", f"too many gates in {alg.show(g, 200)}"
    worst = "ok"
    msg = ""
    for facts, r in cs:
        try:
            if alg.is_zero(r):
                continue
            r2 = _apply_eqs(r, facts)
            if alg.is_zero(r2):
                continue
        except alg.DivZero:
            # on the equality set the graph itself divides by zero: not this branch's value
            worst = worst if worst == "bad" else "und"
            continue
        okc = all(not c.has_opaque() and c.k in ("gt", "eq") and plain(c.a[0]) for c, v in facts)
        m = f"got {alg.show(g if not facts else g, 300)} ; want {alg.show(w, 300)} ; difference {alg.show(r2, 300)}"
        if facts:
            m += " when " + " and ".join(("" if v else "not ") + repr(c) for c, v in facts)[:300]
        if plain(r2) and (okc or not facts):
            if len(facts) > 1 and infeasible(facts):
                continue
            return "bad", m
        worst, msg = "und", m
    return worst, msg


# ------------------------------------------------------------------- known

def load_known():
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.rstrip("\n")
            if line.startswith("KNOWN property="):
                rest = line[len("KNOWN property="):]
                pid, rest = rest.split(" ", 1)
                key, _, text = rest.partition(" :: ")
                out.append((pid, key[len("key="):].strip(), text.strip()))
    return out


def run(pid, tier="quick"):
    p = REG[pid]
    t0 = time.time()
    try:
        prog = Program()
        cx = Ctx(pid, prog, tier)
        Clock.start()
        p.fn(cx)
        Clock.stop()
    except AnchorMissing as e:
        print(f"ANALYSIS-BROKEN property={pid} anchor missing: {e}")
        return 2
    except SyntaxError as e:
        print(f"ANALYSIS-BROKEN property={pid} cannot parse: {e}")
        return 2
    except TimeUp:
        cx.und("analysis", "whole check", f"not finished in {TOTAL_S:.0f} s")
        print(f"note: {pid} not finished in {TOTAL_S:.0f} s")
    except Exception as e:  # a gap of the analyser: what was decided so far still counts
        tb = traceback.extract_tb(sys.exc_info()[2])[-1]
        cx.und("analysis", "whole check", f"stopped early: {type(e).__name__} {e} @{os.path.basename(tb.filename)}:{tb.lineno}")
        print(f"note: {pid} stopped early: {type(e).__name__} {e} @{os.path.basename(tb.filename)}:{tb.lineno}")
    Clock.stop()
    dt = time.time() - t0
    ok = [o for o in cx.obs if o["status"] == "ok"]
    und = [o for o in cx.obs if o["status"] == "und"]
    bad = [o for o in cx.obs if o["status"] == "bad"]
    known = {(a, b): t for a, b, t in load_known()}
    viol, kf = [], []
    seen = set()
    for o in bad:
        key = f"{o['rule']}|{o['construct']}"
        if (pid, key) in known:
            kf.append((key, known[(pid, key)]))
            continue
        if key in seen:
            continue
        seen.add(key)
        viol.append((key, o))
    for it in cx.interps:
        cx.visited |= it.visited
    notes = []
    for it in cx.interps:
        for s, w in it.reasons:
            if (s, w) not in notes:
                notes.append((s, w))
    ev = dict(
        property=pid,
        tier="thorough" if tier == "thorough" else "quick",
        seed=int(os.environ.get("VERIF_SEED", "1") or 1),
        level="other",
        technique="static analysis",
        result="violation" if viol else "held",
        rule=p.rule or (p.fn.__doc__ or "").strip(),
        wall_s=round(dt, 2),
        coverage=dict(
            explanation=(p.rule or (p.fn.__doc__ or "")).strip(),
            modules_parsed=len(prog.modules),
            functions_in_program=sum(1 for _ in prog.all_funcs()),
            functions_analysed=sorted(cx.visited),
            obligations=len(cx.obs),
            discharged=len(ok),
            undecided=len(und),
            violated=len(bad),
            by_rule=_by_rule(cx.obs),
            undecided_list=[f"{o['rule']}|{o['construct']}: {o['detail'][:200]}" for o in und][:60],
            unmodelled=[f"{s}: {w}" for s, w in notes][:40],
            **cx.extra,
        ),
        obligations=[f"{o['status']} {o['rule']}|{o['construct']} {o['site']}" for o in cx.obs][:400],
        known_findings=[k for k, _ in kf],
        violations=[dict(key=k, site=o["site"], detail=o["detail"]) for k, o in viol],
    )
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    evp = os.path.join(ROOT, "evidence", f"{pid}.json")
    with open(evp, "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid}: {len(cx.visited)} functions analysed, {len(cx.obs)} obligations: {len(ok)} hold, {len(und)} undecided, {len(bad)} violated ({dt:.1f}s)")
    for key, text in kf:
        print(f"KNOWN-FINDING: property={pid} {text} [{key}]")
    if viol:
        rp = os.path.join(ROOT, "evidence", f"{pid}.violation.txt")
        with open(rp, "w") as f:
            for k, o in viol:
                f.write(f"{o['site']}: [{k}] {o['detail']}\n")
        for k, o in viol[:12]:
            print(f"  {o['site']}: [{k}] {o['detail'][:500]}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    if len(ok) + len(kf) < p.floor:
        print(f"ANALYSIS-BROKEN property={pid} only {len(ok)} obligations decided (floor {p.floor})")
        for o in und[:10]:
            print("   undecided", o["rule"], o["construct"], o["detail"][:200])
        return 2
    return 0


def _by_rule(obs):
    d = {}
    for o in obs:
        r = d.setdefault(o["rule"], [0, 0, 0])
        r[("ok", "und", "bad").index(o["status"])] += 1
    return {k: dict(hold=v[0], undecided=v[1], violated=v[2]) for k, v in d.items()}
