"""Structural comparison of abstract heap values between two states."""
from __future__ import annotations

from . import alg
from .alg import Poly, Cond
from .vals import *  # noqa


def snapshot(st, roots):
    """a state whose heap cells are copies: later writes do not affect it"""
    return State(dict(st.env), {k: c.copy() for k, c in st.heap.items()}, st.pc)


def diff(s1, v1, s2, v2, skip=(), path="", memo=None, out=None, limit=6):
    """paths at which v1 (in s1) and v2 (in s2) differ: list of (path, kind, a, b);
    kind 'bad' when definitely different, 'und' when not decidable."""
    if out is None:
        out = []
    if memo is None:
        memo = set()
    if len(out) >= limit:
        return out
    if isinstance(v1, (int, float)) and not isinstance(v1, bool):
        v1 = alg.topoly(v1)
    if isinstance(v2, (int, float)) and not isinstance(v2, bool):
        v2 = alg.topoly(v2)
    if isinstance(v1, Ref) and isinstance(v2, Ref):
        key = (v1.id, v2.id)
        if key in memo:
            return out
        memo.add(key)
        c1, c2 = s1.cell(v1), s2.cell(v2)
        if type(c1) is not type(c2):
            if isinstance(c1, (Lst, Arr)) and isinstance(c2, (Lst, Arr)):
                out.append((path, "bad", c1, c2))
            else:
                out.append((path, "bad", c1, c2))
            return out
        if isinstance(c1, Obj):
            if c1.tag and c2.tag and c1.tag[0] == c2.tag[0] and c1.tag[0] in ("axes", "figure", "plotly", "trace", "patch"):
                return out        # handles of the drawing library: what is drawn is compared mark by mark
            for k in sorted(set(c1.attrs) | set(c2.attrs), key=str):
                if k in skip or "cache" in str(k):
                    continue
                if k not in c1.attrs or k not in c2.attrs:
                    if k not in c1.attrs and str(k).startswith("_"):
                        continue      # a private attribute that did not exist before holds no earlier state
                    out.append((f"{path}.{k}", "bad", c1.attrs.get(k, "absent"), c2.attrs.get(k, "absent")))
                    continue
                if str(k).startswith("_") and (c1.attrs[k] is NONE or c1.attrs[k] == NONE):
                    continue      # nor does one that held nothing (a value filled in on first use)
                diff(s1, c1.attrs[k], s2, c2.attrs[k], skip, f"{path}.{k}", memo, out, limit)
        elif isinstance(c1, Lst):
            if len(c1.ent) != len(c2.ent):
                out.append((path, "bad" if c1.concrete() and c2.concrete() else "und", f"{len(c1.ent)} entries", f"{len(c2.ent)} entries"))
                return out
            for i, (a, b) in enumerate(zip(c1.ent, c2.ent)):
                if len(a) != len(b) or a[:-1] != b[:-1]:
                    if a[:-1] != b[:-1]:
                        out.append((f"{path}[{i}]", "und", a, b))
                        continue
                diff(s1, a[-1], s2, b[-1], skip, f"{path}[{i}]", memo, out, limit)
        elif isinstance(c1, Dct):
            if set(c1.items) != set(c2.items) or c1.open != c2.open:
                out.append((path, "und" if c1.open or c2.open else "bad", list(c1.items), list(c2.items)))
                return out
            for k in c1.items:
                diff(s1, c1.items[k], s2, c2.items[k], skip, f"{path}[{k}]", memo, out, limit)
        elif isinstance(c1, Arr):
            if c1.shape != c2.shape:
                out.append((path, "bad", c1.shape, c2.shape))
                return out
            for i, (a, b) in enumerate(zip(c1.data, c2.data)):
                _leaf(a, b, f"{path}[{i}]", out)
        elif isinstance(c1, Fld):
            if c1.st is not c2.st or set(c1.patch) != set(c2.patch):
                out.append((path, "und", c1, c2))
                return out
            _leaf(c1.elem, c2.elem, path + "[*]", out)
            for k in c1.patch:
                _leaf(c1.patch[k], c2.patch[k], f"{path}[{k}]", out)
        elif isinstance(c1, Cat):
            if len(c1.parts) != len(c2.parts):
                out.append((path, "und", c1, c2))
                return out
            for i, (p, q) in enumerate(zip(c1.parts, c2.parts)):
                _leaf(p.elem, q.elem, f"{path}[part {i}]", out)
        elif isinstance(c1, Sym):
            if c1.name != c2.name or len(c1.log) != len(c2.log):
                out.append((path, "und", c1, c2))
        elif c1 is None:
            pass
        return out
    if isinstance(v1, Tup) and isinstance(v2, Tup):
        if len(v1.items) != len(v2.items):
            out.append((path, "bad", len(v1.items), len(v2.items)))
            return out
        for i, (a, b) in enumerate(zip(v1.items, v2.items)):
            diff(s1, a, s2, b, skip, f"{path}({i})", memo, out, limit)
        return out
    _leaf(v1, v2, path, out)
    return out


def _leaf(a, b, path, out):
    if isinstance(a, Poly) and isinstance(b, Poly):
        from .report import compare
        s, m = compare(a, b)
        if s != "ok":
            out.append((path, s, alg.show(a, 120), alg.show(b, 120)))
        return
    if isinstance(a, Cond) and isinstance(b, Cond):
        if a != b:
            out.append((path, "bad" if a.k in "TF" and b.k in "TF" else "und", a, b))
        return
    if isinstance(a, GV) and isinstance(b, GV):
        if a != b:
            out.append((path, "und", a, b))
        return
    if isinstance(a, GV) or isinstance(b, GV):
        out.append((path, "und", a, b))
        return
    if isinstance(a, Opq) or isinstance(b, Opq):
        if a is not b:
            out.append((path, "und", a, b))
        return
    if isinstance(a, (FnV, BM, NM, ModV, PrimV)) and type(a) is type(b):
        return
    if type(a) is not type(b) or a != b:
        out.append((path, "bad", a, b))


def unchanged(cx, rule, construct, s1, v1, s2, v2, site, skip=()):
    d = diff(s1, v1, s2, v2, skip)
    bad = [x for x in d if x[1] == "bad"]
    if bad:
        return cx.bad(rule, construct, "; ".join(f"{p or 'value'}: {a} -> {b}" for p, _, a, b in bad)[:700], site)
    if d:
        return cx.und(rule, construct, "; ".join(f"{p or 'value'}: {a} -> {b}" for p, _, a, b in d)[:400], site)
    return cx.ok(rule, construct, "structurally equal before and after", site)
