"""Binning, quantiles and summaries place every value by the edges and ranks of the valid cells."""
import warnings
from fractions import Fraction as Fr
import numpy as np
from sx.registry import scenario
from props.common import *

BOUNDS = "columns of 1-5 cells with symbolic values incl. invalids, stepped views, filters; 1-4 bins or quantiles, edges from a symbolic choice of whole and fractional ascending edges; infinite values are outside the encoding"


def sample(S, name, n, dt, step, lo=0, hi=4):
    if step == -1:
        v = col(S, name, n, dt, inv=True, lo=lo, hi=hi)[::-1]
    elif step == 1:
        v = col(S, name, n, dt, inv=True, lo=lo, hi=hi)
    else:
        v = col(S, name, 2 * n - 1, dt, inv=True, lo=lo, hi=hi)[::step] if n else col(S, name, 0, dt)
    return v, S.L(v)


def num(S, x, dt):
    """a valid cell as an exact number"""
    return x if np.dtype(dt).kind == "f" else asint(S, x)


def bin_of(S, x, edges):
    """index (1..) of the right-closed bin of x, the first bin closed on both sides; 0 outside."""
    k = len(edges) - 1
    if bool(S.Or(x < edges[0], x > edges[-1])):
        return 0
    for i in range(1, k + 1):
        if bool(x <= edges[i]):
            return i
    return k


EDGES = [[0, 2, 4], [1, 3], [0.5, 1.5, 3.5], [-1, 0.25, 2], [1, 2, 3, 4], [-3.5, 2, 300], [2, 2.5, 1000.5]]


@scenario(quick=[dict(dt=d, n=n, step=s, filt=f) for d, n, s, f in (("f8", 2, 1, False), ("i4", 2, 1, False), ("i4", 2, 1, True), ("u1", 2, 1, False), ("i1", 2, 2, False), ("f4", 2, -1, False), ("f8", 2, 1, True), ("i8", 1, 1, False), ("u4", 2, 1, True))],
          thorough=[dict(dt=d, n=3, step=s, filt=True) for d in ("f8", "i4", "u2", "i1") for s in (1, 2)], budget=60)
def cut_edges(S, dt, n, step, filt):
    """cut by given edges."""
    rt = S.rt
    v, X = sample(S, "v", n, dt, step)
    m = S.bools("m", n) if filt else None
    M = [bool(b) for b in S.L(m)] if filt else [True] * n
    edges = S.pick("edges", EDGES)
    k = len(edges) - 1
    names = [f"b{i}" for i in range(k)]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        code, back = rt.cut(v, edges, labels=False, filter=m, retbins=True)
        c = rt.cut(v, edges, labels=names, filter=m)
        auto = rt.cut(v, edges, filter=m)
    S.check([float(b) for b in back] == [float(e) for e in edges], "edges returned")
    S.check([x.decode() if isinstance(x, bytes) else str(x) for x in auto.category_array] == [f"{float(a)}->{float(b)}" for a, b in zip(edges, edges[1:])], "automatic labels name the edges")
    E = S.L(c.expand_array)
    for i in range(n):
        w = 0 if not M[i] or bool(is_inv(S, X[i], dt)) else bin_of(S, num(S, X[i], dt), edges)
        S.check(S.eq(asint(S, S.L(code)[i]), w), "bin number")
        S.check(S.eq(asint(S, S.L(auto._fa)[i]), w), "category code")
        if w:
            S.check(S.eq(E[i], names[w - 1].encode()), "label")
    S.check([bool(b) for b in S.L(c.isfiltered())] == [bool(x == 0) for x in S.L(code)], "values outside are filtered")
    S.eq_list(S.L(v), X, "source unchanged")
    try:
        rt.cut(v, [2, 1, 3])
        S.check(False, "descending edges are rejected")
    except ValueError:
        pass
    try:
        rt.cut(v, edges, labels=names + ["z"])
        S.check(False, "wrong number of labels is rejected")
    except ValueError:
        pass


@scenario(quick=[dict(dt=d, n=n, k=k) for d, n, k in (("f8", 3, 2), ("i4", 3, 2), ("u1", 2, 4), ("i8", 3, 1), ("f4", 2, 4), ("i1", 2, 2))], thorough=[dict(dt=d, n=3, k=k) for d in ("f8", "i4", "i2") for k in (1, 2, 4, 8)], budget=60)
def cut_width(S, dt, n, k):
    """cut into equally wide bins between the smallest and largest valid value."""
    rt = S.rt
    v, X = sample(S, "v", n, dt, 1, *((-30, 30) if dt == "i1" else (0, 12)))
    xs = ranks(S, X, dt, range(n))
    if not xs:
        return
    if bool(S.eq(xs[0], xs[-1])):  # the edges around a single value are rounded: decide it value by value
        v = S.fa([S.concrete(x) for x in X], v.dtype)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        code, edges = rt.cut(v, k, labels=False, retbins=True)
    lo, hi = xs[0], xs[-1]
    code, edges = S.L(code), S.L(edges)
    S.check(len(edges) == k + 1, "number of edges")
    if bool(S.eq(lo, hi)):
        ok = [i for i in range(n) if not bool(is_inv(S, X[i], dt))]
        S.check(S.And(*[S.And(code[i] == code[ok[0]], code[i] >= 1, code[i] <= k) for i in ok]), "equal values share a bin")
    else:
        S.check(S.And(S.eq(edges[0], lo), S.eq(edges[-1], hi)), "outer edges")
    ex = [lo + (hi - lo) * i / k for i in range(k)] + [hi]
    for i in range(n):
        if bool(is_inv(S, X[i], dt)):
            S.check(code[i] == 0, "invalid values in no bin")
        elif not bool(S.eq(lo, hi)):
            S.check(code[i] == bin_of(S, S.float_of(X[i]), ex), "equal-width bin")


def ranks(S, X, dt, rows):
    """valid cells in ascending order as floats"""
    out = []
    for i in rows:
        if not bool(is_inv(S, X[i], dt)):
            x = S.float_of(X[i])
            p = len(out)
            while p > 0 and bool(x < out[p - 1]):
                p -= 1
            out.insert(p, x)
    return out


def quant(xs, q):
    if not xs:
        return NAN
    p = Fr(q) * (len(xs) - 1)
    i = p.numerator // p.denominator
    return xs[i] if p == i else xs[i] + (xs[i + 1] - xs[i]) * float(p - i)


QS = [2, 4, 1, [0.0, 0.5, 1.0], [0.25, 0.75], [0.0, 0.5], [0.5, 1.0]]


@scenario(quick=[dict(dt=d, n=n, step=s, filt=f, q=q) for d, n, s, f in (("f8", 3, 1, False), ("i4", 3, 1, False), ("i4", 2, 1, True), ("u1", 3, 1, False), ("f8", 2, 2, True), ("i1", 3, -1, False), ("i2", 2, 1, False)) for q in ((0, 1, 2, 4) if n == 3 else range(len(QS)))],
          thorough=[dict(dt=d, n=3, step=s, filt=f, q=q) for d in ("f8", "i4", "u2") for s, f in ((1, True), (2, False)) for q in range(len(QS))], budget=60)
def qcut(S, dt, n, step, filt, q):
    """qcut: bins between the quantiles of the valid, unfiltered values."""
    rt = S.rt
    v, X = sample(S, "v", n, dt, step, *((-100, 120) if dt == "i1" else (0, 12)))
    m = S.bools("m", n) if filt else None
    M = [bool(b) for b in S.L(m)] if filt else [True] * n
    q = QS[q]
    xs = ranks(S, X, dt, [i for i in range(n) if M[i]])
    qs = [Fr(i, q) for i in range(q + 1)] if isinstance(q, int) else [Fr(x) for x in q]
    if not xs:
        return
    ed = [quant(xs, x) for x in qs]
    names = [f"b{i}" for i in range(len(ed) - 1)]
    dup = any(bool(S.eq(a, b)) for a, b in zip(ed, ed[1:])) and len(ed) != 2
    drop = S.pick("drop", [False, True]) if dup else False
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            code, back = rt.qcut(v, q, labels=False, retbins=True, filter=m, duplicates="drop" if drop else "raise")
            c = None if dup else rt.qcut(v, q, labels=names, filter=m)
        except ValueError:
            S.check(dup and not drop, "only repeated edges are rejected")
            return
    S.check(drop or not dup, "repeated edges are rejected")
    if dup:
        u = [ed[0]]
        for e in ed[1:]:
            if not bool(S.eq(e, u[-1])):
                u.append(e)
        ed = u
    S.check(len(back) == len(ed), "number of edges")
    S.check(S.And(*[S.close(b, e) for b, e in zip(S.L(back), ed)]), "edges are the quantiles")
    code = S.L(code)
    E = S.L(c.expand_array) if c is not None else None
    for i in range(n):
        if not M[i] or bool(is_inv(S, X[i], dt)):
            S.check(code[i] == 0, "invalid and filtered values in no bin")
            continue
        w = bin_of(S, S.float_of(X[i]), ed)
        S.check(code[i] == 1 + w, "quantile bin")
        if E is not None:
            S.check(S.eq(E[i], names[w - 1].encode() if w else b"Clipped"), "label")
    S.eq_list(S.L(v), X, "source unchanged")


QQ = [0.0, 0.25, 0.5, 0.75, 1.0]
TYPES = [dict(dt=d, n=n) for d, n in (("f8", 3), ("i4", 3), ("u1", 3), ("i1", 3), ("f4", 2), ("i4", 4), ("u4", 2), ("i8", 2))]
DEEP = [dict(dt=d, n=4) for d in ("f8", "u2", "i2")] + [dict(dt="f8", n=5)]


def values(S, dt, n):
    v, X = sample(S, "v", n, dt, 1, *((-100, 120) if dt == "i1" else (0, 12)))
    return v, X, ranks(S, X, dt, range(n))


@scenario(quick=TYPES, thorough=DEEP, budget=60)
def quantile(S, dt, n):
    """quantiles of a column."""
    rt = S.rt
    v, X, xs = values(S, dt, n)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = S.L(rt.quantile(v, QQ)[0])
        one = rt.quantile(v, 0.5)[0]
        lo = [rt.quantile(v, q, interpolation_method="lower")[0] for q in QQ]
        hi = [rt.quantile(v, q, interpolation_method="higher")[0] for q in QQ]
    if not xs:
        for x in got + [one]:
            S.check(S.isnan(x), "no valid value, no quantile")
        return
    want = [quant(xs, q) for q in QQ]
    S.check(S.And(*[S.close(a, b) for a, b in zip(got, want)]), "quantile")
    S.check(S.close(one, want[2]), "single quantile")
    for q, a, b in zip(QQ, lo, hi):
        p = Fr(q) * (len(xs) - 1)
        S.check(S.close(a, xs[int(p)]), "lower quantile")
        S.check(S.close(b, xs[-int(-p // 1)]), "higher quantile")
    S.eq_list(S.L(v), X, "source unchanged")


@scenario(quick=[t for t in TYPES if t["dt"] != "i8"], thorough=DEEP, budget=60)
def table_quantile(S, dt, n):
    """quantiles of a table's columns and the describe summary."""
    rt = S.rt
    v, X, xs = values(S, dt, n)
    ds = rt.Dataset({"v": v, "s": ["x"] * n})
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = S.L(ds.quantile(q=QQ)["v"])
        dd = S.L(ds.describe(q=QQ)["v"])
    S.check(S.And(dd[0] == n, dd[1] == len(xs)), "counts")
    if xs:
        S.check(dd[2] == n - len(xs), "invalid count")
    else:
        S.check(S.And(*[S.isnan(x) for x in r + dd[6:11]]), "no valid value, no quantile")
        return
    want = [quant(xs, q) for q in QQ]
    S.check(S.And(*[S.close(a, b) for a, b in zip(r, want)]), "table quantile")
    S.check(S.And(*[S.close(a, b) for a, b in zip(dd[6:11], want)]), "described quantiles")
    S.check(S.close(dd[3], fsum(S, xs) / len(xs)), "described mean")
    S.check(S.And(S.close(dd[5], xs[0]), S.close(dd[11], xs[-1])), "described smallest and largest")
    S.eq_list(S.L(v), X, "source unchanged")
