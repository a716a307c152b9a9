"""Reference mechanics, written from the documented sign conventions and load
definitions only (never from the package's formulas): singularity-function
loads on a simply-supported / fixed-fixed member."""
from __future__ import annotations
from math import factorial

from . import alg
from .alg import sym, const, ZERO, ONE, mkfn, subst
from .vals import *  # noqa


def brk(x, a, n):
    """<x-a>^n, n>=1 ; n==0 -> Heaviside (open at 0)"""
    if n == 0:
        return mkfn("heav", x - a, ZERO)
    return mkfn("pos", x - a) ** n


class Load:
    """q(x) = sum c <x-a>^n downward;  n=-1 point load c, n=-2 ccw couple c
    (a couple -c <x-a>^{-2} in downward-load convention)."""

    def __init__(self, name, entry, gaps, terms, doc, kappa=None, cls=None):
        self.name, self.entry, self.gaps, self.terms, self.doc, self.kappa, self.cls = name, entry, gaps, terms, doc, kappa, cls
        self.L = ZERO
        for g in gaps:
            self.L = self.L + g

    # internal loading integrals  (EI = 1)
    def nth(self, x, k):
        """k-fold integral of q from the left, at x."""
        r = ZERO
        for c, a, n in self.terms:
            m = n + k
            if m < 0:
                continue
            # integral of <>^n: n=-2,-1 raise without factor
            f = const(1)
            j = n
            while j < m:
                j += 1
                if j > 0:
                    f = f / const(j)
            r = r + c * f * brk(x, a, m)
        return r

    def field(self, x):
        """simply supported V,M,R,D at x (EI=1, sagging positive, D up)."""
        L = self.L
        # V = Va - int q ; M = Va x - int int q ; M(L)=0
        Va = self.nth(L, 2) / L
        V = Va - self.nth(x, 1)
        M = Va * x - self.nth(x, 2)
        R = Va * x ** 2 / const(2) - self.nth(x, 3)
        D = Va * x ** 3 / const(6) - self.nth(x, 4)
        Ra = -(Va * L ** 3 / const(6) - self.nth(L, 4)) / L
        return dict(V=V, M=M, R=R + Ra, D=D + Ra * x), Va, Ra

    def ss(self):
        L = self.L
        Va = self.nth(L, 2) / L
        Vb = self.nth(L, 1) - Va
        return Va, Vb

    def theta0(self):
        """simply-supported end rotations [at i, at j] for EI=1 (ccw positive)."""
        f, Va, Ra = self.field(self.L)
        return Ra, f["R"]

    def fixed(self):
        """fixed-fixed end actions on the member (Va up, Ma ccw, Vb up, Mb ccw),
        in the package's convention Va = wL/2, Ma = wL^2/12, Mb = -wL^2/12."""
        L = self.L
        ti, tj = self.theta0()
        # end moments (ccw) that restore zero rotation: [[4,2],[2,4]]/L * theta = M
        Ma = -(const(4) * ti + const(2) * tj) / L
        Mb = -(const(2) * ti + const(4) * tj) / L
        Va, Vb = self.ss()
        return dict(Va=Va + (Ma + Mb) / L, Ma=Ma, Vb=Vb - (Ma + Mb) / L, Mb=Mb)


def families(names=None, deep=False):
    """Every load type of the load-matrix documentation x position region; deep:
    additionally every relative order of the position, the cover and the rest."""
    w, w2, P, m = sym("w", None), sym("w2", None), sym("P", None), sym("m", None)
    a, b, c, d, e, f = (sym(n) for n in ("a", "b", "c", "d", "e", "f"))
    one = const(1)
    F = []

    def add(*args, **kw):
        F.append(Load(*args, **kw))

    L = sym("L")
    add("udl", [one, const(1), w], [L], [(w, ZERO, 0)], "UDL w over the whole member")
    add("point/interior", [one, const(2), P, a], [a, b], [(P, a, -1)], "point load P at a, 0<a<L")
    add("pudl/interior", [one, const(3), w, a, c], [a, c, d], [(w, a, 0), (-w, a + c, 0)], "w from a to a+c, 0<a, a+c<L")
    add("pudl/from-start", [one, const(3), w, ZERO, c], [c, d], [(w, ZERO, 0), (-w, c, 0)], "w from 0 to c<L")
    add("pudl/to-end", [one, const(3), w, a, c], [a, c], [(w, a, 0)], "w from a to exactly L")
    add("pudl/overhang", [one, const(3), w, a, c + f], [a, c], [(w, a, 0)], "w from a, cover running f past the end: the part beyond is ignored")
    add("moment/interior", [one, const(4), m, a], [a, b], [(m, a, -2)], "ccw couple m at a, 0<a<L")
    add("trap/full", [one, const(5), w, w2], [L], [(w, ZERO, 0), ((w2 - w) / L, ZERO, 1)], "w..w2 over the whole member")
    s = (w2 - w) / c
    add("trap/interior", [one, const(5), w, w2, a, c], [a, c, d],
        [(w, a, 0), (s, a, 1), (-w2, a + c, 0), (-s, a + c, 1)], "w..w2 from a to a+c<L")
    sc = (w2 - w) / (c + f)
    add("trap/overhang", [one, const(5), w, w2, a, c + f], [a, c], [(w, a, 0), (sc, a, 1)], "w..w2 from a, cover running f past the end: part beyond ignored")
    if deep:
        g = sym("g")
        trap = lambda a, c, cover: [(w, a, 0), ((w2 - w) / cover, a, 1)]
        for tag, p, q in (("left-half", a, a + g), ("right-half", b + g, b), ("midspan", a, a)):
            add("point/" + tag, [one, const(2), P, p], [p, q], [(P, p, -1)], "point load in that half")
            add("moment/" + tag, [one, const(4), m, p], [p, q], [(m, p, -2)], "couple in that half")
        for tag, p, cv, rest in (
            ("short,left", a, c, c + a + g), ("wide", a, a + d + g, d), ("short,right", d + c + g, c, d),
            ("near-start", a, a + g, a + g + d), ("near-end", d + g, g, d),
        ):
            add("pudl/interior:" + tag, [one, const(3), w, p, cv], [p, cv, rest], [(w, p, 0), (-w, p + cv, 0)], "partial load")
        for tag, p, cv, over in (
            ("cover<member", f + g, c, f), ("cover>member", a, c, a + g), ("cover=member", f, c, f),
            ("start right of middle", c + g, c, f), ("start left of middle", a, a + g, f),
        ):
            add("pudl/overhang:" + tag, [one, const(3), w, p, cv + over], [p, cv], [(w, p, 0)], "the part beyond is ignored")
            add("trap/overhang:" + tag, [one, const(5), w, w2, p, cv + over], [p, cv], trap(p, cv, cv + over), "the part beyond is ignored")
        add("pudl/whole", [one, const(3), w, ZERO, L], [L], [(w, ZERO, 0)], "cover equal to the member length")
        add("pudl/from-start,overhang", [one, const(3), w, ZERO, L + f], [L], [(w, ZERO, 0)], "from the start, running past the end")
        add("trap/from-start,overhang", [one, const(5), w, w2, ZERO, L + f], [L], trap(ZERO, L, L + f), "from the start, running past the end")
        add("trap/from-start", [one, const(5), w, w2, ZERO, c], [c, d], trap(ZERO, c, c) + [(-w2, c, 0), (-s, c, 1)], "from the start")
        add("trap/to-end", [one, const(5), w, w2, a, c], [a, c], trap(a, c, c), "to exactly the end")
        add("trap/start-only", [one, const(5), w, w2, a], [a, c], trap(a, c, c), "no cover: from the start to the end of the member")
        add("trap/whole", [one, const(5), w, w2, ZERO, L], [L], trap(ZERO, L, L), "cover equal to the member length")
    if names:
        F = [x for x in F if x.name in names or x.name.split("/")[0] in names]
    return F


def offspan():
    """loads lying wholly beyond the member: documented to be ignored."""
    w, w2 = sym("w", None), sym("w2", None)
    L, g, c = sym("L"), sym("g"), sym("c")
    return [
        Load("pudl/off-span", [const(1), const(3), w, L + g, c], [L], [], "wholly beyond the member"),
        Load("trap/off-span", [const(1), const(5), w, w2, L + g, c], [L], [], "wholly beyond the member"),
    ]
