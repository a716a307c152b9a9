"""Array operations over explicit arrays of known shape: rearrangements, reductions,
selections and small linear algebra, element by element."""
from __future__ import annotations
import ast
from fractions import Fraction

from .vals import *  # noqa
from .vals import _vid
from . import alg
from .pylib import _HS, _raise, _unsup, NOVAL


def _prod(xs):
    r = 1
    for x in xs:
        r *= x
    return r


def _strides(shape):
    out, s = [], 1
    for n in reversed(shape):
        out.append(s)
        s *= n
    return out[::-1]


def _indices(shape):
    out = [()]
    for n in shape:
        out = [t + (i,) for t in out for i in range(n)]
    return out


class NpLib:
    # ------------------------------------------------------------- indexing
    def index_map(self, shape, ix, st):
        """NumPy indexing of an array of known shape: (result dims, flat offsets) or None"""
        items = list(ix.items) if isinstance(ix, Tup) else [ix]
        specs = []

        def mask_of(x):
            c = st.cell(x)
            if isinstance(c, Arr) and c.shape and c.data and all(isinstance(q, Cond) for q in c.data):
                return c
            if isinstance(c, Lst) and c.concrete() and c.ent and all(isinstance(q, Cond) for q in c.values()):
                return Arr((len(c.ent),), c.values())
            return None

        def consumed(x):
            if x is NONE or x == NONE or isinstance(x, K) and x.v is Ellipsis:
                return 0
            m = mask_of(x)
            return len(m.shape) if m is not None else 1
        used = sum(consumed(x) for x in items)
        if used > len(shape):
            _raise("IndexError")
        ax = 0
        dots = any(isinstance(x, K) and x.v is Ellipsis for x in items)
        if not dots:
            items = items + [K(Ellipsis)]
        for x in items:
            if isinstance(x, K) and x.v is Ellipsis:
                for _ in range(len(shape) - used):
                    specs.append(("sl", ax, list(range(shape[ax]))))
                    ax += 1
                continue
            if x == NONE:
                specs.append(("new", None, None))
                continue
            n = shape[ax]
            if isinstance(x, SliceV):
                specs.append(("sl", ax, list(self.slice_range(x, n))))
                ax += 1
                continue
            if isinstance(x, Poly):
                i = self.cidx(x)
                if i is None:
                    return None
                if not -n <= i < n:
                    _raise("IndexError")
                specs.append(("adv", ax, Arr((), [i % n])))
                ax += 1
                continue
            m = mask_of(x)
            if m is not None:
                if any(q.k not in ("T", "F") for q in m.data) or m.shape != tuple(shape[ax:ax + len(m.shape)]):
                    return None
                hits = [t for t, q in zip(_indices(m.shape), m.data) if q.k == "T"]
                for d in range(len(m.shape)):
                    specs.append(("adv", ax + d, Arr((len(hits),), [t[d] for t in hits])))
                ax += len(m.shape)
                continue
            c = st.cell(x)
            if isinstance(x, (Tup, Rng)) or isinstance(c, (Lst, Arr)):
                a = self.to_arr(x, st)
                if not isinstance(a, Arr):
                    return None
                ks = [self.cidx(self.P(d)) if isinstance(d, Poly) else None for d in a.data]
                if any(k is None for k in ks):
                    return None
                if any(not -n <= k < n for k in ks):
                    _raise("IndexError")
                specs.append(("adv", ax, Arr(a.shape, [k % n for k in ks])))
                ax += 1
                continue
            return None
        advs = [s for s in specs if s[0] == "adv"]
        st_ = _strides(shape)
        vec = [s for s in advs if s[2].shape != ()]
        if not vec:
            # integers only: plain basic indexing
            base = sum(st_[s[1]] * s[2].data[0] for s in advs)
            dims, offs = [], [base]
            for kind, a, r in specs:
                if kind == "sl":
                    dims.append(len(r))
                    offs = [o + st_[a] * i for o in offs for i in r]
                elif kind == "new":
                    dims.append(1)
            return dims, offs
        # broadcast the advanced indices together
        nd = max(len(s[2].shape) for s in advs)
        bshape = [1] * nd
        for s in advs:
            sh = (1,) * (nd - len(s[2].shape)) + s[2].shape
            for k in range(nd):
                if sh[k] != 1:
                    if bshape[k] not in (1, sh[k]):
                        _raise("IndexError")
                    bshape[k] = sh[k]

        def at(a, t):
            sh = (1,) * (nd - len(a.shape)) + a.shape
            o = 0
            for k in range(nd):
                o = o * sh[k] + (t[k] if sh[k] != 1 else 0)
            return a.data[o]
        advoff = [sum(st_[s[1]] * at(s[2], t) for s in advs) for t in _indices(bshape)]
        pos = [i for i, s in enumerate(specs) if s[0] == "adv"]
        first = pos[0] if pos == list(range(pos[0], pos[-1] + 1)) else 0
        dims, offs, put = [], [0], False
        for i, (kind, a, r) in enumerate(specs):
            if i == first or (first == 0 and not put):
                dims += bshape
                offs = [o + d for o in offs for d in advoff]
                put = True
            if kind == "sl":
                dims.append(len(r))
                offs = [o + st_[a] * j for o in offs for j in r]
            elif kind == "new":
                dims.append(1)
        return dims, offs

    # ------------------------------------------------------------- helpers
    def _arr(self, v, st):
        a = self.to_arr(v, st) if not isinstance(v, GV) else None
        return a if isinstance(a, Arr) else None

    def _int(self, v):
        return self.cidx(v) if isinstance(v, Poly) else None

    def _ax(self, args, kw, pos=1):
        """axis argument: None, an int, or NOVAL when not known"""
        a = kw.get("axis", args[pos] if len(args) > pos else NONE)
        if a == NONE:
            return None
        i = self._int(a)
        return NOVAL if i is None else i

    def _lanes(self, a, ax):
        """1-d lanes of a along ax with the shape of the remaining axes"""
        nd = len(a.shape)
        if nd == 0:
            return [list(a.data)], ()
        ax %= nd
        rest = a.shape[:ax] + a.shape[ax + 1:]
        s = _strides(a.shape)
        out = []
        for t in _indices(rest):
            tt = t[:ax] + (0,) + t[ax:]
            o = sum(x * y for x, y in zip(tt, s))
            out.append([a.data[o + k * s[ax]] for k in range(a.shape[ax])])
        return out, rest

    def _reduce(self, args, kw, st, f, name):
        """f(list of elements) along an axis, or over everything"""
        v = args[0]
        if isinstance(v, GV):
            return self.it.lift(v, st, lambda x, s: self._reduce([x] + list(args[1:]), kw, s, f, name))
        a = self._arr(v, st)
        ax = self._ax(args, kw)
        if a is None or ax is NOVAL or set(kw) - {"axis", "keepdims", "dtype"}:
            return self.opq(name)
        if ax is None:
            return f([self.P(x) for x in a.data])
        lanes, rest = self._lanes(a, ax)
        out = [f([self.P(x) for x in l]) for l in lanes]
        if self.it.truth(kw.get("keepdims", FALSE), st).k == "T":
            ax %= len(a.shape)
            rest = a.shape[:ax] + (1,) + a.shape[ax + 1:]
        return self.mk(Arr(rest, out), st)

    def _gather(self, v, st, f, name):
        """rearrangement: f(shape) -> (dims, flat offsets)"""
        if isinstance(v, GV):
            return self.it.lift(v, st, lambda x, s: self._gather(x, s, f, name))
        a = self._arr(v, st)
        if a is None:
            return self.opq(name)
        r = f(a.shape)
        if r is None:
            return self.opq(name)
        dims, offs = r
        if name in ("flip", "squeeze", "expand_dims", "swapaxes", "moveaxis", "rot90") and isinstance(v, Ref):
            return self.whole_view(v, Arr(dims, [a.data[o] for o in offs]), st, list(offs))
        return st.new(Arr(dims, [a.data[o] for o in offs]))

    def _perm(self, shape, perm):
        s = _strides(shape)
        dims = [shape[p] for p in perm]
        return dims, [sum(i * s[p] for i, p in zip(t, perm)) for t in _indices(dims)]

    # --------------------------------------------------------- rearrangements
    def n_trim_zeros(self, args, kw, st):
        """leading and trailing zeros dropped, when each end is decided"""
        a = self.to_arr(args[0], st)
        trim = args[1] if len(args) > 1 else kw.get("trim", K("fb"))
        if not (isinstance(a, Arr) and len(a.shape) == 1 and isinstance(trim, K) and isinstance(trim.v, str)):
            return self.opq("trim_zeros")
        d = list(a.data)

        def end(i):
            while d:
                c = ceq(self.P(d[i]))
                if c.k == "F":
                    return True
                if c.k != "T":
                    return False
                d.pop(i)
            return True
        if ("f" in trim.v.lower() and not end(0)) or ("b" in trim.v.lower() and not end(-1)):
            return self.opq("trim_zeros")
        return st.new(Arr((len(d),), d))

    def n_repeat(self, args, kw, st):
        a = self._arr(args[0], st)
        ax = self._ax(args, kw, 2)
        r = self._arr(args[1], st)
        if a is None or r is None or ax is NOVAL:
            return self.opq("repeat")
        ks = [self._int(x) for x in r.data]
        if any(k is None for k in ks):
            return self.opq("repeat")
        if ax is None:
            a = Arr((len(a.data),), a.data)
            ax = 0
        ax %= len(a.shape)
        n = a.shape[ax]
        if len(ks) == 1:
            ks = ks * n
        idx = [i for i in range(n) for _ in range(ks[i])]
        return st.new(self._take(a, idx, ax))

    def _take(self, a, idx, ax):
        s = _strides(a.shape)
        dims = a.shape[:ax] + (len(idx),) + a.shape[ax + 1:]
        out = []
        for t in _indices(dims):
            o = sum((idx[i] if k == ax else i) * s[k] for k, i in enumerate(t))
            out.append(a.data[o])
        return Arr(dims, out)

    def n_take(self, args, kw, st):
        a = self._arr(args[0], st)
        ax = self._ax(args, kw, 2)
        idx = self._arr(args[1], st)
        if a is None or idx is None or ax is NOVAL:
            return self.opq("take")
        if ax is None:
            a = Arr((len(a.data),), a.data)
            ax = 0
        return self.getitem(st.new(a), Tup([SliceV(None, None, None)] * (ax % len(a.shape)) + [args[1]]), st)

    def n_tile(self, args, kw, st):
        reps = self.pyval(args[1], st)
        a = self._arr(args[0], st)
        if a is None or reps is NOVAL:
            return self.opq("tile")
        reps = list(reps) if isinstance(reps, (tuple, list)) else [reps]
        nd = max(len(a.shape), len(reps))
        sh = (1,) * (nd - len(a.shape)) + a.shape
        reps = [1] * (nd - len(reps)) + reps
        s = _strides(sh)
        dims = [n * r for n, r in zip(sh, reps)]
        return st.new(Arr(dims, [a.data[sum((i % n) * k for i, n, k in zip(t, sh, s))] for t in _indices(dims)]))

    def n_tri(self, args, kw, st):
        n = self._int(args[0])
        m = self._int(args[1]) if len(args) > 1 else n
        k = self._int(args[2]) if len(args) > 2 else self._int(kw.get("k", ZERO))
        if n is None or m is None or k is None:
            return self.opq("tri")
        return st.new(Arr((n, m), [ONE if j <= i + k else ZERO for i in range(n) for j in range(m)]))

    def _tri(self, args, kw, st, keep, name):
        a = self._arr(args[0], st)
        k = self._int(args[1]) if len(args) > 1 else self._int(kw.get("k", ZERO))
        if a is None or len(a.shape) != 2 or k is None:
            return self.opq(name)
        return st.new(Arr(a.shape, [x if keep(i, j, k) else ZERO for (i, j), x in zip(_indices(a.shape), a.data)]))

    def n_triu(self, args, kw, st):
        return self._tri(args, kw, st, lambda i, j, k: j >= i + k, "triu")

    def n_tril(self, args, kw, st):
        return self._tri(args, kw, st, lambda i, j, k: j <= i + k, "tril")

    def n_identity(self, args, kw, st):
        return self.n_eye(args[:1], {}, st)

    def n_fromiter(self, args, kw, st):
        xs = self.seglist(args[0], st)
        return self.opq("fromiter") if xs is None else self.n_array([self.mklist(xs, st)], {}, st)

    def n_fromfunction(self, args, kw, st):
        shape = self.pyval(args[1], st)
        if shape is NOVAL:
            return self.opq("fromfunction")
        ix = _indices(tuple(shape))
        return self.it.call(args[0], [st.new(Arr(tuple(shape), [const(t[k]) for t in ix])) for k in range(len(shape))], {}, st)

    def n_meshgrid(self, args, kw, st):
        xs = [self._arr(a, st) for a in args]
        ind = kw.get("indexing", K("xy"))
        if len(xs) != 2 or any(x is None or len(x.shape) != 1 for x in xs) or set(kw) - {"indexing"}:
            return Tup([self.opq("meshgrid") for _ in args])
        a, b = xs
        if ind == K("ij"):
            return Tup([st.new(Arr((len(a.data), len(b.data)), [p for p in a.data for _ in b.data])),
                        st.new(Arr((len(a.data), len(b.data)), [q for _ in a.data for q in b.data]))])
        return Tup([st.new(Arr((len(b.data), len(a.data)), [p for _ in b.data for p in a.data])),
                    st.new(Arr((len(b.data), len(a.data)), [q for q in b.data for _ in a.data]))])

    def n_atleast_2d(self, args, kw, st):
        a = self._arr(args[0], st)
        if a is None:
            return self.opq("atleast_2d")
        if len(a.shape) >= 2:
            return args[0] if isinstance(st.cell(args[0]), Arr) else st.new(a)
        return st.new(Arr((1, len(a.data)), a.data))

    def n_delete(self, args, kw, st):
        a = self._arr(args[0], st)
        ax = self._ax(args, kw, 2)
        if a is None or ax is NOVAL:
            return self.opq("delete")
        if ax is None:
            a, ax = Arr((len(a.data),), a.data), 0
        ax %= len(a.shape)
        n = a.shape[ax]
        x = args[1]
        if isinstance(x, SliceV):
            drop = set(self.slice_range(x, n))
        else:
            r = self.index_map((n,), x, st)
            if r is None:
                return self.opq("delete")
            drop = set(r[1])
        return st.new(self._take(a, [i for i in range(n) if i not in drop], ax))

    def n_hstack(self, args, kw, st):
        ps = self.seglist(args[0], st)
        if ps is None:
            return self.opq("hstack")
        arrs = [self._arr(p, st) for p in ps]
        if any(a is None for a in arrs):
            return self.n_concatenate([args[0]], {}, st)
        arrs = [Arr((1,), a.data) if a.shape == () else a for a in arrs]
        return self._cat(arrs, 0 if len(arrs[0].shape) == 1 else 1, st)

    def _cat(self, arrs, ax, st):
        nd = len(arrs[0].shape)
        ax %= nd
        if any(len(a.shape) != nd or a.shape[:ax] != arrs[0].shape[:ax] or a.shape[ax + 1:] != arrs[0].shape[ax + 1:] for a in arrs):
            _raise("ValueError")
        dims = arrs[0].shape[:ax] + (sum(a.shape[ax] for a in arrs),) + arrs[0].shape[ax + 1:]
        where = [(a, i) for a in arrs for i in range(a.shape[ax])]
        out = []
        for t in _indices(dims):
            a, i = where[t[ax]]
            s = _strides(a.shape)
            out.append(a.data[sum((i if k == ax else x) * s[k] for k, x in enumerate(t))])
        return st.new(Arr(dims, out))

    def n_dstack(self, args, kw, st):
        ps = self.seglist(args[0], st)
        arrs = [self._arr(p, st) for p in ps] if ps is not None else [None]
        if any(a is None for a in arrs):
            return self.opq("dstack")
        arrs = [Arr((1, len(a.data), 1), a.data) if len(a.shape) < 2 else Arr(a.shape + (1,), a.data) if len(a.shape) == 2 else a for a in arrs]
        return self._cat(arrs, 2, st)

    def n_array_split(self, args, kw, st, exact=False):
        a = self._arr(args[0], st)
        ax = self._ax(args, kw, 2)
        if a is None or ax is NOVAL or not a.shape:
            return self.opq("split")
        ax = (ax or 0) % len(a.shape)
        n = a.shape[ax]
        k = self._int(args[1])
        if k is not None:
            if exact and n % k:
                _raise("ValueError")
            q, r = divmod(n, k)
            cuts = [0]
            for i in range(k):
                cuts.append(cuts[-1] + q + (1 if i < r else 0))
        else:
            xs = self.pyval(args[1], st) if not isinstance(st.cell(args[1]), Arr) else [self._int(x) for x in st.cell(args[1]).data]
            if xs is NOVAL or any(x is None for x in xs):
                return self.opq("split")
            cuts = [0] + [min(max(x if x >= 0 else x + n, 0), n) for x in xs] + [n]
        return self.mklist([st.new(self._take(a, list(range(p, max(p, q))), ax)) for p, q in zip(cuts, cuts[1:])], st)

    def n_split(self, args, kw, st):
        return self.n_array_split(args, kw, st, True)

    def n_roll(self, args, kw, st):
        a = self._arr(args[0], st)
        k = self._int(args[1])
        ax = self._ax(args, kw, 2)
        if a is None or k is None or ax is NOVAL:
            return self.opq("roll")
        if ax is None:
            n = len(a.data)
            return st.new(Arr(a.shape, [a.data[(i - k) % n] for i in range(n)]))
        ax %= len(a.shape)
        n = a.shape[ax]
        return st.new(self._take(a, [(i - k) % n for i in range(n)], ax))

    def n_pad(self, args, kw, st):
        a = self._arr(args[0], st)
        w = self.pyval(args[1], st)
        mode = args[2] if len(args) > 2 else kw.get("mode", K("constant"))
        if a is None or len(a.shape) != 1 or w is NOVAL:
            return self.opq("pad")
        if isinstance(w, (tuple, list)):
            w = w[0] if len(w) == 1 else w
            if isinstance(w, (tuple, list)) and w and isinstance(w[0], (tuple, list)):
                w = w[0]
        l, r = (w, w) if not isinstance(w, (tuple, list)) else (w[0], w[1])
        if mode == K("edge"):
            return st.new(Arr((len(a.data) + l + r,), [a.data[0]] * l + a.data + [a.data[-1]] * r))
        if mode == K("constant"):
            cv = kw.get("constant_values", ZERO)
            lo, hi = (cv.items[0], cv.items[1]) if isinstance(cv, Tup) and len(cv.items) == 2 else (cv, cv)
            return st.new(Arr((len(a.data) + l + r,), [lo] * l + a.data + [hi] * r))
        return self.opq("pad")

    def n_flip(self, args, kw, st):
        ax = self._ax(args, kw)
        if ax is NOVAL:
            return self.opq("flip")

        def f(shape):
            s = _strides(shape)
            axes = range(len(shape)) if ax is None else [ax % len(shape)]
            return shape, [sum(((shape[k] - 1 - i) if k in axes else i) * s[k] for k, i in enumerate(t)) for t in _indices(shape)]
        return self._gather(args[0], st, f, "flip")

    def n_flipud(self, args, kw, st):
        return self.n_flip([args[0], ZERO], {}, st)

    def n_fliplr(self, args, kw, st):
        return self.n_flip([args[0], ONE], {}, st)

    def n_squeeze(self, args, kw, st):
        if isinstance(args[0], (Poly, Cond)):
            return args[0]
        a = self._arr(args[0], st)
        if a is None:
            return self.opq("squeeze")
        return self.mk(Arr(tuple(n for n in a.shape if n != 1), a.data), st)

    def n_expand_dims(self, args, kw, st):
        ax = self._ax(args, kw)
        if ax in (None, NOVAL):
            return self.opq("expand_dims")

        def f(shape):
            k = ax if ax >= 0 else len(shape) + 1 + ax
            return shape[:k] + (1,) + shape[k:], list(range(_prod(shape)))
        return self._gather(args[0], st, f, "expand_dims")

    def n_swapaxes(self, args, kw, st):
        i, j = self._int(args[1]), self._int(args[2])

        def f(shape):
            if i is None or j is None:
                return None
            p = list(range(len(shape)))
            p[i], p[j] = p[j], p[i]
            return self._perm(shape, p)
        return self._gather(args[0], st, f, "swapaxes")

    def n_moveaxis(self, args, kw, st):
        i, j = self._int(args[1]), self._int(args[2])

        def f(shape):
            if i is None or j is None:
                return None
            p = list(range(len(shape)))
            x = p.pop(i)
            p.insert(j if j >= 0 else len(shape) + j, x)
            return self._perm(shape, p)
        return self._gather(args[0], st, f, "moveaxis")

    def n_rot90(self, args, kw, st):
        return self.opq("rot90")

    def n_reshape(self, args, kw, st):
        return self.it.call(NM(args[0], "reshape"), list(args[1:]), {}, st) if isinstance(st.cell(args[0]), (Arr, Fld, Sym)) \
            else self.m_reshape(self.n_array([args[0]], {}, st), list(args[1:]), {}, st)

    def n_ravel(self, args, kw, st):
        return self.m_ravel(self.n_asarray([args[0]], {}, st), [], {}, st)

    def n_trim_zeros(self, args, kw, st):
        vals = self.seglist(args[0], st)
        mode = args[1] if len(args) > 1 else kw.get("trim", K("fb"))
        if vals is None or not isinstance(mode, K):
            return self.opq("trim_zeros")
        nz = []
        for v in vals:
            z = self.eq(v, ZERO, st)
            z = alg.assume(z, st.pc, True) if isinstance(z, Cond) and z.k not in "TF" and st.pc.k != "T" else z
            nz.append(None if not isinstance(z, Cond) or z.k not in "TF" else z.k == "F")
        lo, hi = 0, len(vals)
        m = mode.v.lower()
        if "f" in m:
            while lo < hi and nz[lo] is False:
                lo += 1
            if lo < hi and nz[lo] is None:
                return self.opq("trim_zeros")
        if "b" in m:
            while hi > lo and nz[hi - 1] is False:
                hi -= 1
            if hi > lo and nz[hi - 1] is None:
                return self.opq("trim_zeros")
        if isinstance(st.cell(args[0]), Arr):
            return st.new(Arr((hi - lo,), vals[lo:hi]))
        return Tup(vals[lo:hi]) if isinstance(args[0], Tup) else self.mklist(vals[lo:hi], st)

    def n_r_(self, ix, st):
        parts = list(ix.items) if isinstance(ix, Tup) else [ix]
        out = []
        for p in parts:
            if isinstance(p, SliceV):
                lo, hi, stp = p.lo or ZERO, p.hi, p.st or ONE
                if not all(isinstance(q, Poly) for q in (lo, hi, stp)):
                    return self.opq("r_")
                a = st.cell(self.n_arange([lo, hi, stp], {}, st))
            else:
                a = self._arr(p, st)
            if not isinstance(a, Arr) or len(a.shape) > 1:
                return self.opq("r_")
            out += a.data
        return st.new(Arr((len(out),), out))

    def n_c_(self, ix, st):
        parts = list(ix.items) if isinstance(ix, Tup) else [ix]
        return self.n_column_stack([Tup(parts)], {}, st)

    # ------------------------------------------------------------ reductions
    def n_mean(self, args, kw, st):
        return self._reduce(args, kw, st, lambda xs: sum(xs, ZERO) / const(len(xs)) if xs else opaque("nan"), "mean")

    def n_average(self, args, kw, st):
        w = kw.get("weights", args[2] if len(args) > 2 else NONE)
        if w == NONE:
            return self.n_mean(args[:2], {k: v for k, v in kw.items() if k != "weights"}, st)
        a, b = self._arr(args[0], st), self._arr(w, st)
        if a is None or b is None or a.shape != b.shape or self._ax(args, kw) is not None:
            return self.opq("average")
        s = sum((self.P(x) for x in b.data), ZERO)
        return sum((self.P(x) * self.P(y) for x, y in zip(a.data, b.data)), ZERO) / s

    def n_ptp(self, args, kw, st):
        return self._reduce(args, kw, st, lambda xs: alg.mkfn("max", *xs) - alg.mkfn("min", *xs), "ptp")

    def n_nanmax(self, args, kw, st):
        return self.n_max(args, kw, st)

    def n_nanmin(self, args, kw, st):
        return self.n_min(args, kw, st)

    def n_nansum(self, args, kw, st):
        return self.n_sum(args, kw, st)

    def n_count_nonzero(self, args, kw, st):
        a = self._arr(args[0], st)
        if a is None or kw or len(args) > 1:
            return self.opq("count_nonzero")
        return sum((alg.boolnum(x if isinstance(x, Cond) else cnot(ceq(self.P(x)))) for x in a.data), ZERO)

    def n_cumsum(self, args, kw, st):
        return self._scan(args, kw, st, lambda p, q: p + q, "cumsum")

    def n_cumprod(self, args, kw, st):
        return self._scan(args, kw, st, lambda p, q: p * q, "cumprod")

    def _scan(self, args, kw, st, f, name):
        a = self._arr(args[0], st)
        ax = self._ax(args, kw)
        if a is None or ax is NOVAL:
            return self.opq(name)
        if ax is None:
            a, ax = Arr((len(a.data),), a.data), 0
        ax %= len(a.shape)
        out = [self.P(x) for x in a.data]
        s = _strides(a.shape)
        for t in _indices(a.shape):
            if t[ax] > 0:
                o = sum(i * k for i, k in zip(t, s))
                out[o] = f(out[o - s[ax]], out[o])
        return st.new(Arr(a.shape, out))

    def n_diff(self, args, kw, st):
        a = self._arr(args[0], st)
        n = self._int(args[1]) if len(args) > 1 else self._int(kw.get("n", ONE))
        ax = self._ax(args, kw, 2)
        if a is None or n is None or ax is NOVAL or not a.shape or set(kw) - {"n", "axis", "prepend", "append"}:
            return self.opq("diff")
        ax = (-1 if ax is None else ax) % len(a.shape)
        if "prepend" in kw or "append" in kw:
            if len(a.shape) != 1:
                return self.opq("diff")
            pre = self._arr(kw["prepend"], st).data if "prepend" in kw else []
            post = self._arr(kw["append"], st).data if "append" in kw else []
            d = list(pre) + a.data + list(post)
            a = Arr((len(d),), d)
        for _ in range(n):
            hi = self._take(a, list(range(1, a.shape[ax])), ax)
            lo = self._take(a, list(range(0, a.shape[ax] - 1)), ax)
            a = Arr(hi.shape, [self.P(p) - self.P(q) for p, q in zip(hi.data, lo.data)])
        return st.new(a)

    def n_ediff1d(self, args, kw, st):
        return self.n_diff(args[:1], {}, st)

    def n_gradient(self, args, kw, st):
        a = self._arr(args[0], st)
        if a is None or len(a.shape) != 1 or len(args) > 2 or kw:
            return self.opq("gradient")
        h = ONE
        if len(args) == 2:
            if not isinstance(args[1], Poly):
                return self.opq("gradient")
            h = args[1]
        d = [self.P(x) for x in a.data]
        n = len(d)
        out = [(d[1] - d[0]) / h] + [(d[i + 1] - d[i - 1]) / (h * const(2)) for i in range(1, n - 1)] + [(d[-1] - d[-2]) / h]
        return st.new(Arr((n,), out))

    def n_trapezoid(self, args, kw, st):
        y = self._arr(args[0], st)
        x = self._arr(args[1], st) if len(args) > 1 else self._arr(kw["x"], st) if "x" in kw else None
        dx = kw.get("dx", ONE)
        if y is None or len(y.shape) != 1 or (("x" in kw or len(args) > 1) and x is None) or not isinstance(dx, Poly):
            return self.opq("trapezoid")
        r = ZERO
        for i in range(len(y.data) - 1):
            h = self.P(x.data[i + 1]) - self.P(x.data[i]) if x is not None else dx
            r = r + h * (self.P(y.data[i]) + self.P(y.data[i + 1])) / const(2)
        return r

    n_trapz = n_trapezoid

    def n_median(self, args, kw, st):
        r = self.b_sorted([args[0]], {}, st)
        c = st.cell(r)
        if not c.concrete() or not c.ent or kw or len(args) > 1:
            return self.opq("median")
        v = c.values()
        n = len(v)
        return v[n // 2] if n % 2 else (self.P(v[n // 2 - 1]) + self.P(v[n // 2])) / const(2)

    # ------------------------------------------------------------ selections
    def n_isin(self, args, kw, st):
        a, b = self._arr(args[0], st), self.seglist(args[1], st)
        if a is None or b is None:
            return self.opq("isin")
        inv = self.it.truth(kw.get("invert", FALSE), st)
        out = []
        for x in a.data:
            e = cor(*[self.eq(x, y, st) for y in b]) if b else FALSE
            out.append(e if inv.k == "F" else cnot(e))
        return self.mk(Arr(a.shape, out), st)

    n_in1d = n_isin

    def n_union1d(self, args, kw, st):
        a, b = self._arr(args[0], st), self._arr(args[1], st)
        if a is None or b is None:
            return self.opq("union1d")
        return self.n_unique([st.new(Arr((len(a.data) + len(b.data),), a.data + b.data))], {}, st)

    def n_setdiff1d(self, args, kw, st):
        return self._setop(args, st, False)

    def n_intersect1d(self, args, kw, st):
        return self._setop(args, st, True)

    def _setop(self, args, st, keep):
        u = st.cell(self.n_unique([args[0]], {}, st))
        b = self._arr(args[1], st)
        if not isinstance(u, Arr) or b is None:
            return self.opq("setop")
        out = []
        for x in u.data:
            e = cor(*[self.eq(x, y, st) for y in b.data]) if b.data else FALSE
            if e.k not in "TF":
                return self.opq("setop")
            if (e.k == "T") == keep:
                out.append(x)
        return st.new(Arr((len(out),), out))

    def n_argwhere(self, args, kw, st):
        r = self.n_nonzero(args, kw, st)
        cs = [st.cell(x) for x in r.items]
        if not all(isinstance(c, Arr) for c in cs):
            return self.opq("argwhere")
        n = len(cs[0].data)
        return st.new(Arr((n, len(cs)), [c.data[i] for i in range(n) for c in cs]))

    def n_bincount(self, args, kw, st):
        a = self._arr(args[0], st)
        w = self._arr(kw["weights"], st) if "weights" in kw else self._arr(args[1], st) if len(args) > 1 else None
        ks = [self._int(x) for x in a.data] if a is not None else [None]
        if any(k is None or k < 0 for k in ks) or (w is None and ("weights" in kw or len(args) > 1)):
            return self.opq("bincount")
        n = max(ks, default=-1) + 1
        ml = self._int(kw["minlength"]) if "minlength" in kw else 0
        if ml is None:
            return self.opq("bincount")
        out = [ZERO] * max(n, ml)
        for i, k in enumerate(ks):
            out[k] = out[k] + (self.P(w.data[i]) if w is not None else ONE)
        return st.new(Arr((len(out),), out))

    def n_digitize(self, args, kw, st):
        b = self._arr(args[1], st)
        right = self.it.truth(kw.get("right", args[2] if len(args) > 2 else FALSE), st)
        if b is None or right.k not in "TF":
            return self.opq("digitize")

        def f(x):
            r = ZERO
            for q in b.data:
                d = self.P(x) - self.P(q)
                r = r + alg.boolnum(cgt(d) if right.k == "T" else cge(d))
            return r
        if isinstance(args[0], Poly):
            return f(args[0])
        a = self._arr(args[0], st)
        if a is None:
            return self.opq("digitize")
        return st.new(Arr(a.shape, [f(x) for x in a.data]))

    def n_lexsort(self, args, kw, st):
        keys = self.seglist(args[0], st)
        arrs = [self._arr(k, st) for k in keys] if keys is not None else [None]
        if any(a is None for a in arrs):
            return self.opq("lexsort")
        n = len(arrs[0].data)
        o = self.sort_vals(list(range(n)), [Tup([a.data[i] for a in reversed(arrs)]) for i in range(n)], st)
        return self.opq("lexsort") if o is None else st.new(Arr((n,), [const(i) for i in o]))

    def n_select(self, args, kw, st):
        conds, vals = self.seglist(args[0], st), self.seglist(args[1], st)
        d = args[2] if len(args) > 2 else kw.get("default", ZERO)
        if conds is None or vals is None:
            return self.opq("select")
        r = d
        for c, v in reversed(list(zip(conds, vals))):
            r = self.n_where([c, v, r], {}, st)
        return r

    def n_extract(self, args, kw, st):
        return self.getitem(self.n_asarray([args[1]], {}, st), self.n_asarray([args[0]], {}, st), st)

    def n_compress(self, args, kw, st):
        return self.n_extract(args, kw, st)

    def n_partition(self, args, kw, st):
        return self.opq("partition")

    def n_logical_and(self, args, kw, st):
        return self.bin2(args[0], args[1], lambda p, q: cand(self.T(p), self.T(q)), st)

    def n_logical_or(self, args, kw, st):
        return self.bin2(args[0], args[1], lambda p, q: cor(self.T(p), self.T(q)), st)

    def n_logical_not(self, args, kw, st):
        v = args[0]
        if isinstance(v, (Poly, Cond)):
            return cnot(self.T(v))
        a = self._arr(v, st)
        if a is not None:
            return st.new(Arr(a.shape, [cnot(self.T(x)) for x in a.data]))
        return self.map1c(v, cnot, st)

    def n_logical_xor(self, args, kw, st):
        def f(p, q):
            p, q = self.T(p), self.T(q)
            return cor(cand(p, cnot(q)), cand(cnot(p), q))
        return self.bin2(args[0], args[1], f, st)

    n_bitwise_and, n_bitwise_or, n_invert = n_logical_and, n_logical_or, n_logical_not

    def T(self, x):
        return x if isinstance(x, Cond) else cnot(ceq(self.P(x)))

    def n_logical_and_reduce(self, args, kw, st):
        return self.quant(args[0], st, False)

    def n_logical_or_reduce(self, args, kw, st):
        return self.quant(args[0], st, True)

    def n_array_equal(self, args, kw, st):
        a, b = self._arr(args[0], st), self._arr(args[1], st)
        if a is None or b is None:
            return copaque("array_equal")
        if a.shape != b.shape:
            return FALSE
        return cand(*[self.eq(x, y, st) for x, y in zip(a.data, b.data)]) if a.data else TRUE

    # ----------------------------------------------------------- elementwise
    def _cmp(op):
        return lambda self, args, kw, st: self.compare(op(), args[0], args[1], st)

    n_greater, n_less, n_greater_equal, n_less_equal = _cmp(ast.Gt), _cmp(ast.Lt), _cmp(ast.GtE), _cmp(ast.LtE)
    n_equal, n_not_equal = _cmp(ast.Eq), _cmp(ast.NotEq)

    def n_square(self, args, kw, st):
        return self.binop(ast.Mult(), args[0], args[0], st)

    def n_reciprocal(self, args, kw, st):
        return self.binop(ast.Div(), ONE, args[0], st)

    def n_floor_divide(self, args, kw, st):
        return self.binop(ast.FloorDiv(), args[0], args[1], st)

    def n_mod(self, args, kw, st):
        return self.binop(ast.Mod(), args[0], args[1], st)

    n_remainder = n_mod

    def n_positive(self, args, kw, st):
        return args[0]

    def n_hypot(self, args, kw, st):
        return self.bin2(args[0], args[1], lambda p, q: alg.mkfn("sqrt", self.P(p) * self.P(p) + self.P(q) * self.P(q)), st)

    def n_cbrt(self, args, kw, st):
        return self.map1(args[0], lambda p: fn("cbrt", p), st)

    def _elem(name):
        def f(self, args, kw, st):
            def g(p):
                if p.is_const() and p.const() == 0 and name in ("sin", "tan", "sinh", "tanh", "arctan", "log1p", "expm1"):
                    return ZERO
                if p.is_const() and p.const() == 0 and name in ("cos", "exp", "cosh"):
                    return ONE
                return fn(name, p, pos="+" if name in ("exp", "cosh") else None)
            if len(args) == 1 and not kw:
                return self.map1(args[0], g, st)
            return self.opq(name)
        return f

    n_sin, n_cos, n_tan, n_exp, n_log, n_log10 = map(_elem, ("sin", "cos", "tan", "exp", "log", "log10"))
    n_sinh, n_cosh, n_tanh, n_arctan, n_arcsin, n_arccos = map(_elem, ("sinh", "cosh", "tanh", "arctan", "arcsin", "arccos"))
    n_radians = n_deg2rad = lambda self, args, kw, st: self.map1(args[0], lambda p: p * sym("pi", "+", dim=()) / const(180), st)
    n_degrees = n_rad2deg = lambda self, args, kw, st: self.map1(args[0], lambda p: p * const(180) / sym("pi", "+", dim=()), st)

    def n_float64(self, args, kw, st):
        v = args[0] if args else ZERO
        if st.cell(v) is not None:
            return self.n_asarray([v], {}, st)
        return self.b_float([v], {}, st)

    n_float32 = n_double = n_float_ = n_float64

    def n_int64(self, args, kw, st):
        return self.b_int(args, kw, st)

    n_int32 = n_intp = n_int_ = n_int64

    def n_bool_(self, args, kw, st):
        return self.it.truth(args[0], st)

    def n_shape(self, args, kw, st):
        a = self._arr(args[0], st)
        if a is None:
            c = self.cell_of(args[0], st)
            return self.it.getattr(args[0], "shape", st) if isinstance(c, (Fld, Sym)) else self.opq("shape")
        return Tup([const(n) for n in a.shape])

    def n_iterable(self, args, kw, st):
        c = st.cell(args[0])
        if isinstance(args[0], (Poly, Cond)) or args[0] == NONE:
            return FALSE
        if isinstance(c, (Lst, Dct, Arr, Fld, Sym)) or isinstance(args[0], (Tup, IterV, Rng)):
            return TRUE
        return copaque("iterable")

    def n_isnan(self, args, kw, st):
        def f(p):
            p = self.P(p)
            if p.is_const() or all(a.kind == "sym" for a in p.atoms()):
                return FALSE
            return copaque("isnan")
        if isinstance(args[0], (Poly, Cond)):
            return f(args[0])
        a = self._arr(args[0], st)
        return copaque("isnan") if a is None else st.new(Arr(a.shape, [f(x) for x in a.data]))

    def n_ndindex(self, args, kw, st):
        sh = [self._int(a) for a in (args[0].items if len(args) == 1 and isinstance(args[0], Tup) else args)]
        if any(n is None for n in sh):
            return self.opq("ndindex")
        return self.iterv([Tup([const(i) for i in t]) for t in _indices(sh)])

    def n_ndenumerate(self, args, kw, st):
        a = self._arr(args[0], st)
        if a is None:
            return self.opq("ndenumerate")
        return self.iterv([Tup([Tup([const(i) for i in t]), x]) for t, x in zip(_indices(a.shape), a.data)])

    def n_vectorize(self, args, kw, st):
        f = args[0]

        def g(a, k, s):
            arrs = [self._arr(x, s) for x in a]
            if any(x is None for x in arrs) or k:
                return self.opq("vectorize")
            sh = next((x.shape for x in arrs if x.shape != ()), ())
            n = _prod(sh)
            if any(x.shape not in ((), sh) for x in arrs):
                return self.opq("vectorize")
            out = [self.it.call(f, [x.data[i if x.shape else 0] for x in arrs], {}, s) for i in range(n)]
            try:
                out = [self.it.num(x, s) if not isinstance(x, Cond) else x for x in out]
            except Exception:
                return self.opq("vectorize")
            return self.mk(Arr(sh, out), s)
        return PrimV("vectorize", g)

    n_frompyfunc = n_vectorize

    def n_apply_along_axis(self, args, kw, st):
        a = self._arr(args[2], st)
        ax = self._int(args[1])
        if a is None or ax is None or not a.shape:
            return self.opq("apply_along_axis")
        lanes, rest = self._lanes(a, ax)
        out = [self.it.call(args[0], [st.new(Arr((len(l),), l))] + list(args[3:]), kw, st) for l in lanes]
        if not all(isinstance(x, (Poly, Cond)) for x in out):
            return self.opq("apply_along_axis")
        return self.mk(Arr(rest, out), st)

    # ------------------------------------------------------- in-place updates
    def _at(self, op):
        def f(args, kw, st):
            c = st.cell(args[0])
            b = self._arr(args[2], st) if len(args) > 2 else None
            r = self.index_map(c.shape, args[1], st) if isinstance(c, Arr) else None
            if r is None or b is None:
                self.it.havoc_value(args[0], st)
                return NONE
            dims, offs = r
            vals = self.bcast(Arr(dims, [ZERO] * len(offs)), b, lambda p, q: q).data
            w = st.w(args[0])
            for o, v in zip(offs, vals):
                w.data[o] = self.P(self.binop(op(), self.P(w.data[o]), self.P(v), st))
            self.touched(args[0], st)
            return NONE
        return f

    def n_numpy_add_at(self, args, kw, st):
        return self._at(ast.Add)(args, kw, st)

    def n_numpy_subtract_at(self, args, kw, st):
        return self._at(ast.Sub)(args, kw, st)

    def n_numpy_multiply_at(self, args, kw, st):
        return self._at(ast.Mult)(args, kw, st)

    def n_numpy_maximum_reduce(self, args, kw, st):
        return self._reduce([args[0], args[1] if len(args) > 1 else ZERO], kw, st, lambda xs: alg.mkfn("max", *xs), "max")

    def n_numpy_minimum_reduce(self, args, kw, st):
        return self._reduce([args[0], args[1] if len(args) > 1 else ZERO], kw, st, lambda xs: alg.mkfn("min", *xs), "min")

    def n_numpy_add_reduce(self, args, kw, st):
        return self._reduce([args[0], args[1] if len(args) > 1 else ZERO], kw, st, lambda xs: sum(xs, ZERO), "sum")

    def n_numpy_add_outer(self, args, kw, st):
        return self._outer(args, st, lambda p, q: p + q)

    def n_numpy_subtract_outer(self, args, kw, st):
        return self._outer(args, st, lambda p, q: p - q)

    def n_numpy_multiply_outer(self, args, kw, st):
        return self._outer(args, st, lambda p, q: p * q)

    def _outer(self, args, st, f):
        a, b = self._arr(args[0], st), self._arr(args[1], st)
        if a is None or b is None:
            return self.opq("outer")
        return self.mk(Arr(a.shape + b.shape, [f(self.P(p), self.P(q)) for p in a.data for q in b.data]), st)

    def n_fill_diagonal(self, args, kw, st):
        c = st.cell(args[0])
        v = self._arr(args[1], st)
        if isinstance(c, Arr) and len(c.shape) == 2 and v is not None:
            w = st.w(args[0])
            for i in range(min(c.shape)):
                w.data[i * c.shape[1] + i] = v.data[i % len(v.data)]
            self.touched(args[0], st)
        else:
            self.it.havoc_value(args[0], st)
        return NONE

    def n_put(self, args, kw, st):
        c = st.cell(args[0])
        ks, v = self._arr(args[1], st), self._arr(args[2], st)
        ks = [self._int(x) for x in ks.data] if ks is not None else [None]
        if isinstance(c, Arr) and v is not None and not any(k is None for k in ks):
            w = st.w(args[0])
            for i, k in enumerate(ks):
                w.data[k] = v.data[i % len(v.data)]
            self.touched(args[0], st)
        else:
            self.it.havoc_value(args[0], st)
        return NONE

    def n_copyto(self, args, kw, st):
        if kw:
            self.it.havoc_value(args[0], st)
        else:
            self.setitem(args[0], SliceV(None, None, None), args[1], st)
        return NONE

    # ---------------------------------------------------------- linear algebra
    def n_trace(self, args, kw, st):
        a = self._arr(args[0], st)
        if a is None or len(a.shape) != 2:
            return self.opq("trace")
        return sum((self.P(a.at(i, i)) for i in range(min(a.shape))), ZERO)

    def n_diagonal(self, args, kw, st):
        a = self._arr(args[0], st)
        k = self._int(args[1]) if len(args) > 1 else self._int(kw.get("offset", ZERO))
        if a is None or len(a.shape) != 2 or k is None:
            return self.opq("diagonal")
        out = [a.at(i, i + k) for i in range(a.shape[0]) if 0 <= i + k < a.shape[1]]
        return st.new(Arr((len(out),), out))

    def n_det(self, args, kw, st):
        a = self._arr(args[0], st)
        if a is None or len(a.shape) != 2 or a.shape[0] != a.shape[1] or a.shape[0] > 4:
            return self.opq("det")

        def det(m):
            if not m:
                return ONE
            r = ZERO
            for j in range(len(m)):
                if m[0][j].t:
                    t = m[0][j] * det([row[:j] + row[j + 1:] for row in m[1:]])
                    r = r + t if j % 2 == 0 else r - t
            return r
        n = a.shape[0]
        return det([[self.P(a.at(i, j)) for j in range(n)] for i in range(n)])

    def n_matrix_power(self, args, kw, st):
        k = self._int(args[1])
        if k is None or not 1 <= k <= 8:
            return self.opq("matrix_power")
        r = args[0]
        for _ in range(k - 1):
            r = self.matmul(r, args[0], st)
        return r

    def n_multi_dot(self, args, kw, st):
        xs = self.seglist(args[0], st)
        if not xs:
            return self.opq("multi_dot")
        r = xs[0]
        for x in xs[1:]:
            r = self.matmul(r, x, st)
        return r

    def n_matmul(self, args, kw, st):
        return self.matmul(args[0], args[1], st)

    def n_inner(self, args, kw, st):
        a, b = self._arr(args[0], st), self._arr(args[1], st)
        if a is None or b is None or len(a.shape) != 1 or len(b.shape) != 1:
            return self.opq("inner")
        return self.matmul(args[0] if isinstance(args[0], Ref) else st.new(a), args[1] if isinstance(args[1], Ref) else st.new(b), st)

    n_vdot = n_inner

    def n_kron(self, args, kw, st):
        a, b = self._arr(args[0], st), self._arr(args[1], st)
        if a is None or b is None or len(a.shape) != 2 or len(b.shape) != 2:
            return self.opq("kron")
        (r, c), (p, q) = a.shape, b.shape
        return st.new(Arr((r * p, c * q), [self.P(a.at(i // p, j // q)) * self.P(b.at(i % p, j % q)) for i in range(r * p) for j in range(c * q)]))

    def n_cross(self, args, kw, st):
        a, b = self._arr(args[0], st), self._arr(args[1], st)
        if a is None or b is None or a.shape != (3,) or b.shape != (3,):
            return self.opq("cross")
        x, y = [self.P(v) for v in a.data], [self.P(v) for v in b.data]
        return st.new(Arr((3,), [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]]))

    def n_norm(self, args, kw, st):
        a = self._arr(args[0], st)
        if a is None or len(args) > 1 or kw:
            return self.opq("norm")
        return alg.mkfn("sqrt", sum((self.P(x) * self.P(x) for x in a.data), ZERO))

    def n_tensordot(self, args, kw, st):
        ax = args[2] if len(args) > 2 else kw.get("axes", const(2))
        if self._int(ax) == 1:
            a, b = self._arr(args[0], st), self._arr(args[1], st)
            if a is not None and b is not None and len(a.shape) <= 2 and len(b.shape) <= 2:
                return self.matmul(st.new(a), st.new(b), st)
        return self.opq("tensordot")

    def n_einsum(self, args, kw, st):
        s = args[0]
        arrs = [self._arr(a, st) for a in args[1:]]
        if not (isinstance(s, K) and isinstance(s.v, str)) or any(a is None for a in arrs) or "." in s.v:
            return self.opq("einsum")
        t = s.v.replace(" ", "")
        ins, _, out = t.partition("->")
        ins = ins.split(",")
        if "->" not in t:
            out = "".join(sorted(c for c in set("".join(ins)) if "".join(ins).count(c) == 1))
        dim = {}
        for lab, a in zip(ins, arrs):
            if len(lab) != len(a.shape):
                _raise("ValueError")
            for c, n in zip(lab, a.shape):
                if dim.setdefault(c, n) != n:
                    _raise("ValueError")
        summed = [c for c in dim if c not in out]
        if _prod(dim.values()) > 4096:
            return self.opq("einsum")
        res = []
        for o in _indices([dim[c] for c in out]):
            e = dict(zip(out, o))
            tot = ZERO
            for u in _indices([dim[c] for c in summed]):
                e.update(zip(summed, u))
                p = ONE
                for lab, a in zip(ins, arrs):
                    p = p * self.P(a.at(*[e[c] for c in lab]) if lab else a.data[0])
                    if not p.t:
                        break
                tot = tot + p
            res.append(tot)
        return self.mk(Arr([dim[c] for c in out], res), st)

    def n_convolve(self, args, kw, st):
        a, b = self._arr(args[0], st), self._arr(args[1], st)
        if a is None or b is None or len(args) > 2 or kw:
            return self.opq("convolve")
        out = [ZERO] * (len(a.data) + len(b.data) - 1)
        for i, x in enumerate(a.data):
            for j, y in enumerate(b.data):
                out[i + j] = out[i + j] + self.P(x) * self.P(y)
        return st.new(Arr((len(out),), out))

    def n_polymul(self, args, kw, st):
        return self.n_convolve(args, kw, st)

    def n_polyder(self, args, kw, st):
        a = self._arr(args[0], st)
        if a is None or len(args) > 1 or kw:
            return self.opq("polyder")
        n = len(a.data) - 1
        return st.new(Arr((n,), [self.P(c) * const(n - i) for i, c in enumerate(a.data[:-1])]))

    def n_poly1d(self, args, kw, st):
        a = self.n_array([args[0]], {}, st)
        return PrimV("poly1d", lambda x, k, s: self.n_polyval([a, x[0]], {}, s))

    def n_vander(self, args, kw, st):
        a = self._arr(args[0], st)
        n = self._int(args[1]) if len(args) > 1 else self._int(kw.get("N", const(len(a.data)) if a else ZERO))
        inc = self.it.truth(kw.get("increasing", FALSE), st).k == "T"
        if a is None or n is None:
            return self.opq("vander")
        ex = range(n) if inc else range(n - 1, -1, -1)
        return st.new(Arr((len(a.data), n), [alg.ipow(self.P(x), e) for x in a.data for e in ex]))

    def n_numpy_polynomial_polynomial_polyval(self, args, kw, st):
        a = self._arr(args[1], st)
        if a is None:
            return self.opq("polyval")
        return self.n_polyval([st.new(Arr(a.shape, a.data[::-1])), args[0]], {}, st)

    # -------------------------------------------------------------- methods
    def m_round(self, obj, args, kw, st):
        return self.n_round([obj] + list(args), kw, st)

    def m_diagonal(self, obj, args, kw, st):
        return self.n_diagonal([obj] + list(args), kw, st)

    def m_nonzero(self, obj, args, kw, st):
        return self.n_nonzero([obj], kw, st)

    def m_swapaxes(self, obj, args, kw, st):
        return self.n_swapaxes([obj] + list(args), kw, st)

    def m_squeeze(self, obj, args, kw, st):
        return self.n_squeeze([obj] + list(args), kw, st)
