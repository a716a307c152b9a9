"""Algebraic abstract domain: rational functions over interned atoms.

Values of the numeric domain are Laurent polynomials with rational
coefficients over *atoms*.  An atom is a formal parameter, an opaque unknown,
the reciprocal of a polynomial, an uninterpreted function application
(Macaulay bracket, Heaviside, abs, ...) or a gated-SSA merge node
``gamma(cond, a, b)``.  Two program expressions that get the same normal form
are equal for every input (Herbrand + polynomial-equality domain); no values are
ever sampled.

Conditions are signs of polynomials; they fold only when the sign is settled by
positivity of the atoms' coefficients.
"""
from __future__ import annotations
from fractions import Fraction
from itertools import count

_atoms = {}
_ids = count()


class Atom:
    __slots__ = ("kind", "name", "args", "pos", "id", "dim", "depth", "opaque", "intlike", "syms")

    def __repr__(self):
        return show_atom(self)

    def __lt__(self, o):
        return self.id < o.id


def _mk(kind, name, args=(), pos=None, dim=None, intlike=False):
    key = (kind, name, args)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.kind, a.name, a.args, a.pos, a.dim, a.intlike = kind, name, args, pos, dim, intlike
        a.id = next(_ids)
        depth, opq, syms = 0, kind == "opq", set()
        for x in args:
            d, o, s = _meta(x)
            depth = max(depth, d + 1)
            opq = opq or o
            syms |= s
        if kind in ("sym", "opq"):
            syms.add(a)
        a.depth, a.opaque, a.syms = depth, opq, frozenset(syms)
        _atoms[key] = a
    return a


def _meta(x):
    if isinstance(x, (Poly, Cond)):
        d, o, s = 0, False, set()
        for a in x.atoms():
            d = max(d, a.depth)
            o = o or a.opaque
            s |= a.syms
        if isinstance(x, Cond):
            o = o or x.has_opaque()
        return d, o, s
    return 0, False, set()


class Poly:
    __slots__ = ("t", "_h", "_atoms")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._atoms = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def atoms(self):
        if self._atoms is None:
            s = set()
            for m in self.t:
                for a, _ in m:
                    s.add(a)
            self._atoms = s
        return self._atoms

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), Fraction(0)) if self.is_const() else None

    def opaque(self):
        return any(a.opaque for a in self.atoms())

    def syms(self):
        s = set()
        for a in self.atoms():
            s |= a.syms
        return s

    def __repr__(self):
        return show(self)

    def __add__(self, o):
        return add(self, topoly(o))

    __radd__ = __add__

    def __sub__(self, o):
        return add(self, neg(topoly(o)))

    def __rsub__(self, o):
        return add(topoly(o), neg(self))

    def __neg__(self):
        return neg(self)

    def __mul__(self, o):
        return mul(self, topoly(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return mul(self, inv(topoly(o)))

    def __rtruediv__(self, o):
        return mul(topoly(o), inv(self))

    def __pow__(self, n):
        return ipow(self, n)


ZERO = Poly({})


def const(c):
    c = Fraction(c)
    return Poly({(): c}) if c else ZERO


ONE = const(1)


def topoly(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return const(int(x))
    if isinstance(x, (int, Fraction)):
        return const(x)
    if isinstance(x, float):
        return const(float_frac(x))
    raise TypeError(x)


def float_frac(x):
    return Fraction(repr(x))


def atom_poly(a):
    return Poly({((a, 1),): Fraction(1)})


def sym(name, pos="+", dim=None, intlike=False):
    """pos: '+' strictly positive, '0+' nonnegative, None unknown sign."""
    return atom_poly(_mk("sym", name, (), pos, dim, intlike))


_opq = count()


def opaque(tag="?", dim=None, pos=None):
    return atom_poly(_mk("opq", f"{tag}#{next(_opq)}", (), pos, dim))


def fn(name, *args, pos=None, dim=None):
    return atom_poly(_mk("fn", name, tuple(args), pos, dim))


def add(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    t = dict(a.t)
    for m, c in b.t.items():
        v = t.get(m)
        if v is None:
            t[m] = c
        else:
            v = v + c
            if v:
                t[m] = v
            else:
                del t[m]
    return Poly(t)


def neg(a):
    return Poly({m: -c for m, c in a.t.items()})


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if n:
            d[a] = n
        else:
            d.pop(a, None)
    return tuple(sorted(d.items(), key=lambda p: p[0].id))


def mul(a, b):
    t = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = mono_mul(m1, m2)
            v = t.get(m, 0) + c1 * c2
            if v:
                t[m] = v
            else:
                t.pop(m, None)
    r = Poly(t)
    # sqrt(p)**2 -> p ; Inv(p)**-k -> p**k
    for at in list(r.atoms()):
        if at.kind == "fn" and at.name == "sqrt":
            r = _reduce_sqrt(r, at)
        elif at.kind == "inv":
            if any(e < 0 for m in r.t for x, e in m if x is at):
                r = _expand_neg_inv(r, at)
        elif at.kind == "bool":
            if any(e > 1 for m in r.t for x, e in m if x is at):
                r = _idem(r, at)
    return r


def _idem(p, at):
    out = ZERO
    for m, c in p.t.items():
        m2 = tuple((x, (1 if x is at and e > 1 else e)) for x, e in m)
        out = add(out, Poly({m2: c}))
    return out


def _reduce_sqrt(p, at):
    out = ZERO
    for m, c in p.t.items():
        d = dict(m)
        e = d.get(at, 0)
        if e >= 2 or e <= -1:
            q, r = divmod(e, 2)
            d.pop(at)
            if r:
                d[at] = r
            base = Poly({tuple(sorted(d.items(), key=lambda x: x[0].id)): c})
            out = add(out, mul(base, ipow(at.args[0], q)))
        else:
            out = add(out, Poly({m: c}))
    return out


def _expand_neg_inv(p, at):
    out = ZERO
    for m, c in p.t.items():
        d = dict(m)
        e = d.get(at, 0)
        if e < 0:
            d.pop(at)
            base = Poly({tuple(sorted(d.items(), key=lambda x: x[0].id)): c})
            out = add(out, mul(base, ipow(at.args[0], -e)))
        else:
            out = add(out, Poly({m: c}))
    return out


def ipow(a, n):
    if n < 0:
        return ipow(inv(a), -n)
    r = ONE
    for _ in range(n):
        r = mul(r, a)
    return r


class DivZero(Exception):
    pass


_BASES = {}   # small denominators already met: later denominators are divided by them


def exact_div(p, b):
    """p / b when b divides p exactly, else None (lexicographic division)."""
    order = sorted({a for x in (p, b) for m in x.t for a, _ in m}, key=lambda a: a.id)
    idx = {a: i for i, a in enumerate(order)}
    n = len(order)

    def vec(m):
        v = [0] * n
        for a, e in m:
            if e < 0:
                return None
            v[idx[a]] = e
        return tuple(v)
    P, B = {}, {}
    for src, dst in ((p, P), (b, B)):
        for m, c in src.t.items():
            v = vec(m)
            if v is None:
                return None
            dst[v] = c
    lb = max(B)
    cb = B[lb]
    Q = {}
    for _ in range(400):
        if not P:
            return Poly({tuple((order[i], e) for i, e in enumerate(v) if e): c for v, c in Q.items()})
        lp = max(P)
        d = tuple(x - y for x, y in zip(lp, lb))
        if min(d, default=0) < 0:
            return None
        c = P[lp] / cb
        Q[d] = Q.get(d, 0) + c
        for v, k in B.items():
            w = tuple(x + y for x, y in zip(v, d))
            r = P.get(w, 0) - c * k
            if r:
                P[w] = r
            else:
                P.pop(w, None)
    return None


def _clear_inv_of(p, at):
    """p * B**k with every inv atom at = 1/B removed; -> (poly, k)"""
    k = max((e for m in p.t for a, e in m if a is at), default=0)
    B = at.args[0]
    r = ZERO
    byk = {}
    for m, c in p.t.items():
        e = 0
        rest = []
        for a, x in m:
            if a is at:
                e = x
            else:
                rest.append((a, x))
        byk.setdefault(e, {})[tuple(rest)] = c
    for e, t in byk.items():
        r = add(r, mul(Poly(t), ipow(B, k - e)))
    return r, k


def inv(p):
    if not p.t:
        raise DivZero()
    if 1 < len(p.t) <= 60:
        ats = sorted({a for m in p.t for a, e in m if a.kind == "inv" and e > 0}, key=lambda a: -a.id)
        if ats:
            q, k = _clear_inv_of(p, ats[0])
            if len(q.t) <= 120:
                return mul(inv(q), ipow(ats[0].args[0], k))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = Poly({tuple((a, -e) for a, e in m): 1 / c})
        return mul(r, ONE)
    # content
    mn = None
    for m in p.t:
        d = dict(m)
        if mn is None:
            mn = d
        else:
            mn = {a: min(e, d.get(a, 0)) for a, e in mn.items() if d.get(a, 0) or e < 0}
            for a, e in d.items():
                if e < 0 and a not in mn:
                    mn[a] = e
    # also any negative exps not shared
    full = {}
    for m in p.t:
        for a, e in m:
            if e < 0:
                full[a] = min(full.get(a, 0), e)
    for a, e in mn.items():
        if e > 0:
            full.setdefault(a, e)
    content = tuple(sorted(((a, e) for a, e in full.items() if e), key=lambda x: x[0].id))
    icont = tuple((a, -e) for a, e in content)
    q = mul(p, Poly({icont: Fraction(1)}))
    lead = q.t[max(q.t, key=lambda m: tuple((a.id, e) for a, e in m))]
    q = mul(q, const(1 / lead))
    if len(q.t) == 1 or q.is_const():
        return mul(mul(inv(q), Poly({icont: Fraction(1)})), const(1 / lead))
    if len(q.t) <= 120:
        qa = {a for m in q.t for a, _ in m}
        for k, (b, ba) in tuple(_BASES.items()):
            if k != q and ba <= qa and len(b.t) <= len(q.t):
                d = exact_div(q, b)
                if d is not None:
                    return mul(mul(inv(d), inv(b)), mul(Poly({icont: Fraction(1)}), const(1 / lead)))
        if len(q.t) <= 4 and len(_BASES) < 40 and all(sum(e for _, e in m) == 1 and all(a.kind == "sym" for a, _ in m) for m in q.t):
            _BASES[q] = (q, qa)
    a = _mk("inv", "inv", (q,), pos=("+" if sign(q) == 1 else None))
    return mul(mul(atom_poly(a), Poly({icont: Fraction(1)})), const(1 / lead))


def sign_atom(a):
    if a.pos == "+":
        return 1
    if a.pos == "0+":
        return 0.5
    if a.kind == "fn" and a.name == "sqrt" and a.args and isinstance(a.args[0], Poly) and sign_cleared(a.args[0]) == 1:
        return 1
    if a.kind == "fn" and a.name in ("abs", "pos", "sqrt"):
        return 0.5
    if a.kind == "fn" and a.name in ("max", "min") and a.args and all(isinstance(q, Poly) for q in a.args):
        ss = [sign(q) for q in a.args]
        pos = [0 if q is None or q < 0.5 else q for q in ss]
        r = max(pos) if a.name == "max" else min(pos)
        return r if r >= 0.5 else None
    if a.kind == "bool":
        return 0.5
    return None


def sign(p):
    """1: >0, 0.5: >=0, 0: ==0, -0.5: <=0, -1: <0, None unknown."""
    if not p.t:
        return 0
    res = None
    for m, c in p.t.items():
        s = 1
        for a, e in m:
            if e % 2 == 0:
                sa = 1 if sign_atom(a) in (1, -1) else 0.5
            else:
                sa = sign_atom(a)
            if sa is None:
                s = None
                break
            s = min(s, sa)
        if s is None:
            return None
        s = s if c > 0 else -s
        if res is None:
            res = s
        elif (res > 0) != (s > 0):
            return None
        else:
            res = max(res, s) if s > 0 else min(res, s)
    return res


# ---------------------------------------------------------------- conditions


class Cond:
    """kind: 'T','F','gt'(p>0),'ge'(p>=0),'eq'(p==0),'not','and','or','opq','atom'"""

    __slots__ = ("k", "a", "_h")

    def __init__(self, k, a=()):
        self.k, self.a = k, a
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.k, self.a))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Cond) and self.k == o.k and self.a == o.a

    def atoms(self):
        s = set()
        for x in self.a:
            if isinstance(x, (Poly, Cond)):
                s |= x.atoms()
        return s

    def has_opaque(self):
        if self.k == "opq":
            return True
        for x in self.a:
            if isinstance(x, Cond) and x.has_opaque():
                return True
            if isinstance(x, Poly) and x.opaque():
                return True
        return False

    def __repr__(self):
        k, a = self.k, self.a
        if k in ("T", "F"):
            return {"T": "True", "F": "False"}[k]
        if k in ("gt", "ge", "eq"):
            return f"({a[0]} {dict(gt='>', ge='>=', eq='==')[k]} 0)"
        if k == "not":
            return f"not {a[0]}"
        if k in ("and", "or"):
            return "(" + f" {k} ".join(map(repr, a)) + ")"
        return f"{k}:{a}"


TRUE, FALSE = Cond("T"), Cond("F")


def cbool(b):
    return TRUE if b else FALSE


_copq = count()


def copaque(tag="?"):
    return Cond("opq", (f"{tag}#{next(_copq)}",))


def ckey(*key):
    """A named (uninterpreted) boolean condition."""
    return Cond("atom", key)


def cgt(p):
    s = sign(p)
    if s is None:
        s = sign(_clear_all(p)) if any(a.kind == "inv" for a in p.atoms()) and _posdens(p) else None
    if s == 1:
        return TRUE
    if s is not None and s <= 0:
        return FALSE
    p = _cnorm(p)
    return Cond("gt", (p,))


def cge(p):
    return cnot(cgt(neg(p)))


def _cnorm(p):
    # scale so that comparisons are canonical up to positive factor
    if not p.t:
        return p
    lead = abs(p.t[max(p.t, key=lambda m: tuple((a.id, e) for a, e in m))])
    return mul(p, const(1 / lead))


def _posdens(p):
    return all(sign(a.args[0]) in (1,) for a in p.atoms() if a.kind == "inv")


def ceq(p):
    s = sign_cleared(p)
    if s == 0:
        return TRUE
    if s in (1, -1):
        return FALSE
    if is_zero(p):
        return TRUE
    p = _cnorm(p)
    lead = p.t[max(p.t, key=lambda m: tuple((a.id, e) for a, e in m))]
    if lead < 0:
        p = neg(p)
    return Cond("eq", (p,))


def cnot(c):
    if c.k == "T":
        return FALSE
    if c.k == "F":
        return TRUE
    if c.k == "not":
        return c.a[0]
    return Cond("not", (c,))


def cand(*cs):
    out = []
    for c in cs:
        if c.k == "F":
            return FALSE
        if c.k == "T":
            continue
        if c.k == "and":
            out.extend(c.a)
        else:
            out.append(c)
    out2 = []
    for c in out:
        if c not in out2:
            out2.append(c)
        if cnot(c) in out2:
            return FALSE
    if not out2:
        return TRUE
    if len(out2) == 1:
        return out2[0]
    return Cond("and", tuple(out2))


def cor(*cs):
    return cnot(cand(*[cnot(c) for c in cs]))


def gates(x, acc=None):
    """Base (non-composite) conditions appearing in gamma nodes of x."""
    if acc is None:
        acc = []
    if isinstance(x, Poly):
        for a in sorted(x.atoms(), key=lambda a: a.id):
            for y in a.args:
                gates(y, acc)
    elif isinstance(x, Cond):
        if x.k in ("not", "and", "or"):
            for y in x.a:
                gates(y, acc)
        elif x.k not in ("T", "F"):
            if x not in acc:
                acc.append(x)
            for y in x.a:
                if isinstance(y, Poly):
                    gates(y, acc)
    return acc


def gamma(c, a, b):
    if c.k == "T":
        return a
    if c.k == "F":
        return b
    if a == b:
        return a
    if c.k == "not":
        return gamma(c.a[0], b, a)
    a, b = assume(a, c, True), assume(b, c, False)
    if a == b:
        return a
    s = sign(a), sign(b)
    pos = "+" if s == (1, 1) else ("0+" if None not in s and min(s) >= 0 else None)
    return atom_poly(_mk("gam", "gamma", (c, a, b), pos))


def boolnum(c):
    """0/1 valued number of a condition."""
    return gamma(c, ONE, ZERO)


# -------------------------------------------------------------- rewriting


def rewrite(x, f, memo=None):
    """Rebuild x bottom-up; f(atom) may return a replacement Poly or None;
    f(cond) for base conditions likewise."""
    if memo is None:
        memo = {}
    key = x
    if key in memo:
        return memo[key]
    if isinstance(x, Poly):
        r = ZERO
        cache = {}
        for m, c in x.t.items():
            term = const(c)
            for a, e in m:
                v = cache.get(a)
                if v is None:
                    v = cache[a] = _rw_atom(a, f, memo)
                term = mul(term, ipow(v, e))
            r = add(r, term)
    elif isinstance(x, Cond):
        r = f(x) if x.k not in ("and", "or", "not", "T", "F") else None
        if r is None:
            if x.k == "not":
                r = cnot(rewrite(x.a[0], f, memo))
            elif x.k == "and":
                r = cand(*[rewrite(y, f, memo) for y in x.a])
            elif x.k == "or":
                r = cor(*[rewrite(y, f, memo) for y in x.a])
            elif x.k == "gt":
                r = cgt(rewrite(x.a[0], f, memo))
            elif x.k == "ge":
                r = cge(rewrite(x.a[0], f, memo))
            elif x.k == "eq":
                r = ceq(rewrite(x.a[0], f, memo))
            else:
                r = x
    else:
        r = x
    memo[key] = r
    return r


def _rw_atom(a, f, memo):
    v = f(a)
    if v is not None:
        return v
    if a.kind in ("sym", "opq"):
        return atom_poly(a)
    args = tuple(rewrite(y, f, memo) if isinstance(y, (Poly, Cond)) else y for y in a.args)
    if args == a.args:
        return atom_poly(a)
    if a.kind == "inv":
        return inv(args[0])
    if a.kind == "gam":
        return gamma(*args)
    if a.kind == "fn":
        return mkfn(a.name, *args)
    return atom_poly(_mk(a.kind, a.name, args, a.pos, a.dim))


def assume(x, c, val):
    """Simplify x under condition c == val (syntactic)."""
    if not isinstance(x, (Poly, Cond)):
        return x
    g = gates(x)
    if not g:
        return x
    facts = {}

    def learn(c, v):
        if c.k == "not":
            learn(c.a[0], not v)
        elif c.k == "and" and v:
            for y in c.a:
                learn(y, True)
        elif c.k == "or" and not v:
            for y in c.a:
                learn(y, False)
        else:
            facts[c] = v

    learn(c, val)
    comp = {c: v for c, v in facts.items() if c.k in ("and", "or")}

    def f(y):
        if isinstance(y, Cond) and y in facts:
            return cbool(facts[y])
        if isinstance(y, Cond):
            # p>0 true implies -p>0 false
            if y.k == "gt":
                n = Cond("gt", (_cnorm(neg(y.a[0])),))
                if facts.get(n):
                    return FALSE
        return None

    r = rewrite(x, f)
    if comp:
        def f2(y):
            return None
        r = _rw_comp(r, comp)
    return r


def _rw_comp(x, comp, memo=None):
    if isinstance(x, Cond) and x in comp:
        return cbool(comp[x])
    if isinstance(x, Poly):
        def f(a):
            if isinstance(a, Atom) and a.kind == "gam":
                c = a.args[0]
                if c in comp:
                    return _rw_comp(a.args[1] if comp[c] else a.args[2], comp)
            return None
        return rewrite(x, f)
    return x


def subst(x, mp):
    """mp: {Poly-of-single-atom or Atom: Poly}"""
    m2 = {}
    for k, v in mp.items():
        if isinstance(k, Poly):
            (mm, c), = k.t.items()
            (a, e), = mm
            k = a
        m2[k] = topoly(v)

    def f(y):
        if isinstance(y, Atom):
            return m2.get(y)
        return None

    return rewrite(x, f)


def mkfn(name, *args):
    p = args[0] if args and isinstance(args[0], Poly) else None
    if name == "pos":  # Macaulay bracket <p>
        s = sign(p)
        if s is None and p.atoms():
            s = sign_cleared(p)
        if s is not None and s >= 0:
            return p
        if s is not None and s <= 0:
            return ZERO
        return fn("pos", p)
    if name == "heav":
        s = sign_cleared(p)
        if s == 1:
            return ONE
        if s == -1:
            return ZERO
        if s == 0:
            return args[1]
        return fn("heav", *args)
    if name == "abs":
        s = sign_cleared(p)
        if s is not None and s >= 0:
            return p
        if s is not None and s <= 0:
            return neg(p)
        q = _cnorm(p)
        if q.t and q.t[max(q.t, key=lambda m: tuple((a.id, e) for a, e in m))] < 0:
            p = neg(p)
        return fn("abs", p)
    if name in ("max", "min"):
        return mkminmax(name, args)
    if name == "sqrt":
        if p.is_const() and p.const() >= 0:
            c = p.const()
            import math

            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return const(Fraction(n, d))
        return fn("sqrt", p)
    if name == "sgn":
        s = sign_cleared(p)
        if s in (1, -1, 0):
            return const(int(s))
        return fn("sgn", p)
    if name in ("floor", "ceil", "round", "trunc") and len(args) == 1 and intpoly(p):
        return p
    if name == "floor" or name == "ceil":
        if p.is_const():
            import math

            return const(getattr(math, name)(p.const()))
        k = int_bracket(p)
        if k is not None:
            lo, exact = k
            return const(lo if exact or name == "floor" else lo + 1)
        return fn(name, p)
    return fn(name, *args)


def intpoly(p):
    return all(c.denominator == 1 for c in p.t.values()) and all(a.intlike and e > 0 for m in p.t for a, e in m)


def int_bracket(p, kmax=8):
    """(k, exact) with k <= p < k+1 when the signs decide it for some 0 <= k <= kmax"""
    if any(a.opaque for a in p.atoms()):
        return None
    s = sign_cleared(p)
    if s is None or s < 0:
        return None
    if s == 0:
        return 0, True
    for k in range(kmax + 1):
        hi = sign_cleared(p - const(k + 1))
        if hi is None:
            return None
        if hi < 0:
            return (k, False) if hi == -1 else None
        if hi == 0:
            return k + 1, True
        if hi != 1:
            return None
    return None


def mkminmax(name, args):
    out = []
    for p in args:
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if len(m) == 1 and m[0][1] == 1 and c == 1 and m[0][0].kind == "fn" and m[0][0].name == name:
                for q in m[0][0].args:
                    if q not in out:
                        out.append(q)
                continue
        if p not in out:
            out.append(p)
    keep = []
    for i, p in enumerate(out):
        dominated = False
        for j, q in enumerate(out):
            if i == j:
                continue
            s = sign_cleared(add(q, neg(p)))
            if s is None:
                continue
            if name == "min":
                s = -s
            if s > 0 or (s == 0 and j < i):
                dominated = True
                break
        if not dominated:
            keep.append(p)
    if len(keep) == 1:
        return keep[0]
    keep = sorted(keep, key=_pkey)
    return fn(name, *keep)


def _pkey(p):
    return sorted((tuple((a.id, e) for a, e in m), str(c)) for m, c in p.t.items())


def sign_cleared(p):
    s = sign(p)
    if s is not None:
        return s
    if any(a.kind == "inv" for a in p.atoms()) and _posdens(p):
        return sign(_clear_all(p))
    # try clearing negative exponents of positive syms (no effect on sign test)
    return None


def _clear_one(p, at):
    """multiply p by at.args[0]**k to remove inv atom `at`."""
    q = at.args[0]
    k = max((e for m in p.t for a, e in m if a is at), default=0)
    out = ZERO
    pows = [ONE]
    for _ in range(k):
        pows.append(mul(pows[-1], q))
    buckets = {}
    for m, c in p.t.items():
        d = dict(m)
        e = d.pop(at, 0)
        mm = tuple(sorted(d.items(), key=lambda x: x[0].id))
        b = buckets.setdefault(k - e, {})
        b[mm] = b.get(mm, 0) + c
    for e, b in buckets.items():
        out = add(out, mul(Poly({m: c for m, c in b.items() if c}), pows[e]))
    return out


def _clear_all(p):
    for _ in range(200):
        invs = [a for a in p.atoms() if a.kind == "inv"]
        if not invs:
            return p
        at = max(invs, key=lambda a: (a.depth, a.id))
        p = _clear_one(p, at)
        if not p.t:
            return p
    return p


def feasible(facts):
    """Cheap contradiction test between sign facts (p>0 / not p>0)."""
    for c, v in facts:
        for d, w in facts:
            if c is d:
                continue
            if c.k == "gt" and d.k == "gt":
                # c: p>0 is v ; d: q>0 is w ; contradiction when p>0 and q<=0 but q-p>=0 etc.
                p, q = c.a[0], d.a[0]
                if v and not w:
                    s = sign_cleared(add(q, neg(p)))
                    if s is not None and s >= 0:
                        return False
                if v and w:
                    s = sign_cleared(neg(add(p, q)))
                    if s is not None and s >= 0:
                        return False
            if c.k == "eq" and d.k == "gt" and v and w:
                if is_zero(add(c.a[0], neg(d.a[0]))) or is_zero(add(c.a[0], d.a[0])):
                    return False
    return True


def cases(x, limit=256, facts=(), fold=None):
    """Split x on its gates -> list of (facts, gamma-free x)."""
    out = []

    def rec(x, facts):
        if len(out) > limit:
            raise OverflowError("too many cases")
        g = gates(x)
        if not g:
            out.append((facts, x))
            return
        c = g[0]
        # prefer gates without nested gammas
        for y in g:
            if not any(isinstance(z, Poly) and any(a.kind == "gam" for a in z.atoms()) for z in y.a):
                c = y
                break
        for v in (True, False):
            f2 = facts + ((c, v),)
            if not feasible(f2):
                continue
            try:
                y = assume(x, c, v)
            except DivZero:
                # the graph itself divides by zero under these facts
                out.append((f2, opaque("division by zero")))
                continue
            rec(y, f2)

    rec(x, tuple(facts))
    return out


def is_zero(p):
    """True iff p is identically zero (as formal expression in its atoms)."""
    if not p.t:
        return True
    p = _clear_all(p)
    if not p.t:
        return True
    return False


def equal(a, b):
    return is_zero(add(a, neg(b)))


def diff(p, s):
    """partial derivative wrt sym atom (Poly of one atom) through inv/pos."""
    (mm, c), = s.t.items()
    (x, e), = mm
    return _diff(p, x)


def _diff(p, x):
    out = ZERO
    for m, c in p.t.items():
        for i, (a, e) in enumerate(m):
            if x is not a and x not in a.syms:
                continue
            if a is x:
                da = ONE
            elif a.kind == "inv":
                da = mul(neg(ipow(atom_poly(a), 2)), _diff(a.args[0], x))
            elif a.kind == "fn" and a.name == "pos":
                da = mul(fn("heav", a.args[0], const(Fraction(1, 2))), _diff(a.args[0], x))
            elif a.kind == "fn" and a.name == "heav":
                da = ZERO  # away from the step
            else:
                raise ValueError(f"diff through {a}")
            rest = tuple((b, f) for j, (b, f) in enumerate(m) if j != i)
            base = mul(Poly({rest: c}), mul(const(e), ipow(atom_poly(a), e - 1)))
            out = add(out, mul(base, da))
    return out


# ------------------------------------------------------------------ display


def show_atom(a):
    if a.kind in ("sym",):
        return a.name
    if a.kind == "opq":
        return f"<{a.name}>"
    if a.kind == "inv":
        return f"1/({show(a.args[0])})"
    if a.kind == "gam":
        return f"[{a.args[0]} ? {show(a.args[1])} : {show(a.args[2])}]"
    return f"{a.name}({', '.join(map(str, a.args))})"


def show(p, maxlen=600):
    if not p.t:
        return "0"
    parts = []
    for m, c in sorted(p.t.items(), key=lambda kv: tuple((a.id, e) for a, e in kv[0])):
        s = "*".join(show_atom(a) + (f"^{e}" if e != 1 else "") for a, e in m)
        if not s:
            s = str(c)
        elif c == 1:
            pass
        elif c == -1:
            s = "-" + s
        else:
            s = f"{c}*{s}"
        parts.append(s)
    r = " + ".join(parts).replace("+ -", "- ")
    return r if len(r) <= maxlen else r[:maxlen] + "..."


# --------------------------------------------------------------- dimensions


class DimError(Exception):
    def __init__(self, a, b, msg=""):
        self.a, self.b, self.msg = a, b, msg
        super().__init__(f"{a} vs {b} {msg}")


class DimUnknown(Exception):
    pass


def dmul(a, b, k=1):
    d = dict(a)
    for n, e in b:
        d[n] = d.get(n, 0) + e * k
    return tuple(sorted((n, e) for n, e in d.items() if e))


def dim_of(p):
    """Dimension (tuple of (base, exp)) of a polynomial; None for zero
    (polymorphic).  Raises DimError on an inhomogeneous sum."""
    res = None
    wit = None
    for m, c in p.t.items():
        d = ()
        for a, e in m:
            d = dmul(d, dim_atom(a), e)
        if res is None:
            res, wit = d, m
        elif res != d:
            raise DimError(res, d, f"terms {show(Poly({wit: p.t[wit]}))}  and  {show(Poly({m: c}))}")
    return res


def dim_atom(a):
    if a.dim is not None:
        return a.dim
    if a.kind == "sym" or a.kind == "opq":
        raise DimUnknown(a.name)
    if a.kind == "inv":
        d = dim_of(a.args[0])
        return dmul((), d, -1)
    if a.kind == "gam":
        x, y = dim_of(a.args[1]), dim_of(a.args[2])
        if x is None:
            return y if y is not None else ()
        if y is None:
            return x
        if x != y:
            raise DimError(x, y, f"merge {a}")
        return x
    if a.kind == "fn":
        if a.name in ("pos", "abs"):
            return dim_of(a.args[0])
        if a.name in ("heav", "sgn"):
            dim_of(a.args[0])
            return ()
        if a.name in ("max", "min"):
            ds = [d for d in (dim_of(x) for x in a.args) if d is not None]
            if any(d != ds[0] for d in ds):
                raise DimError(ds[0], ds[1], str(a))
            return ds[0] if ds else ()
        if a.name == "sqrt":
            d = dim_of(a.args[0])
            return tuple((n, Fraction(e) / 2) for n, e in d)
        if a.name == "sum":
            return dim_of(a.args[1])
    raise DimUnknown(str(a))


# ------------------------------------------------------------- integration
class Unintegrable(Exception):
    pass


def antideriv(p, x):
    """An antiderivative of p with respect to the symbol x (Poly of one atom),
    within the algebra of polynomials and Macaulay brackets of x."""
    (mm, c0), = x.t.items()
    (xa, _), = mm
    out = ZERO
    for m, k in p.t.items():
        e = 0
        brs = {}  # bracket argument -> power
        cm = []
        for a, n in m:
            if a is xa:
                e += n
            elif xa not in a.syms:
                cm.append((a, n))
            elif a.kind == "fn" and a.name in ("pos", "heav"):
                q = a.args[0]
                brs.setdefault(q, 0)
                if a.name == "pos":
                    brs[q] += n
                elif n < 1:
                    raise Unintegrable(a)
            else:
                raise Unintegrable(show_atom(a))
        coef = Poly({tuple(cm): k})
        if not brs:
            if e == -1:
                raise Unintegrable("log")
            out = out + coef * ipow(x, e + 1) / const(e + 1)
            continue
        if e < 0:
            raise Unintegrable("bracket product")
        while len(brs) > 1:
            # <x-a>^m <x-b>^n with a known order: the later bracket is the switch
            (q1, n1), (q2, n2) = list(brs.items())[:2]
            s1, s2 = diff(q1, x), diff(q2, x)
            if sign(s1) != 1 or sign(s2) != 1 or xa in s1.syms() or xa in s2.syms():
                raise Unintegrable("bracket product")
            o = sign((s1 * x - q1) / s1 - (s2 * x - q2) / s2)   # start of 1 minus start of 2
            if o is None:
                raise Unintegrable("bracket product")
            keep, kn, drop, dn = (q1, n1, q2, n2) if o >= 0 else (q2, n2, q1, n1)
            rest = ipow(drop, dn) if dn else ONE
            new = ZERO
            others = ONE
            for q, n in list(brs.items())[2:]:
                others = others * (ipow(mkfn("pos", q), n) if n else mkfn("heav", q, ZERO))
            kb = ipow(mkfn("pos", keep), kn) if kn else mkfn("heav", keep, ZERO)
            new = antideriv(coef * ipow(x, e) * rest * kb * others, x)
            break
        if len(brs) > 1:
            out = out + new
            continue
        (q, n), = brs.items()
        s = diff(q, x)
        if xa in s.syms() or not s.t:
            raise Unintegrable("nonlinear bracket")
        if sign(s) == 1:
            y0 = (q - s * x)  # q = s x + y0 ; x = (q - y0)/s
            for j in range(e + 1):
                from math import comb

                cj = const(comb(e, j)) * ipow(-y0, e - j) / ipow(s, e)
                out = out + coef * cj * ipow(mkfn("pos", q), n + j + 1) / (const(n + j + 1) * s)
        elif n == 0 and False:
            pass
        else:
            # <q>^n = q^n - (-1)^n <-q>^n  for decreasing q  (n>=1); H(q)=1-H(-q)
            if n == 0:
                r = ONE - mkfn("heav", -q, ZERO)
            else:
                r = ipow(q, n) - (ipow(mkfn("pos", -q), n) if n % 2 == 0 else -ipow(mkfn("pos", -q), n))
            out = out + coef * antideriv(r * ipow(x, e), x)
    return out


def integral(p, x, lo, hi):
    F = antideriv(p, x)
    return subst(F, {x: hi}) - subst(F, {x: lo})
