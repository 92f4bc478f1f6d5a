"""Whole-column reductions and table-wide arithmetic: values, invalids, result shape, untouched sources."""
import warnings
import numpy as np
from sx.registry import scenario
from props.common import *

BOUNDS = "columns of 0-3 symbolic cells (all integer and float types, booleans) incl. invalids, contiguous, stepped and reversed views; tables of 2-4 columns and 2-3 rows"
NUM = ["i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f4", "f8", "b1"]


def sample(S, name, n, dt, inv=True, step=1, lo=0, hi=3):
    """a column of n cells that is a view with the given step; (column, cells)."""
    if step == 1:
        v = col(S, name, n, dt, inv=inv, lo=lo, hi=hi)
        return v, S.L(v)
    m = (n - 1) * abs(step) + 1 if n else 0
    b = col(S, name, m, dt, inv=inv, lo=lo, hi=hi)
    L = S.L(b)
    return b[::step], L[::step]


def val(S, x, dt):
    k = np.dtype(dt).kind
    return x if k == "f" else (S.If(x, 1, 0) if k == "b" else asint(S, x))


def fl(S, x):
    return S.float_of(x) if S.symbolic else float(x)


def good(S, L, dt, rows=None):
    return [val(S, x, dt) for i, x in enumerate(L) if (rows is None or bool(rows[i])) and not bool(is_inv(S, x, dt))]


def variance(S, xs, ddof):
    if len(xs) - ddof <= 0:
        return NAN
    xs = [fl(S, x) for x in xs]
    m = fsum(S, xs) / float(len(xs))
    return fsum(S, [(x - m) * (x - m) for x in xs]) / float(len(xs) - ddof)


def expect(S, got, want, msg):
    if isinstance(want, float) and want != want:
        S.check(S.isnan(got), msg + " is NaN")
    else:
        S.check(S.close(got, want), msg)


def reduce_checks(S, call, X, dt, fns, msg=""):
    """call(name) -> result; X: cells."""
    n = len(X)
    bad = [bool(is_inv(S, x, dt)) for x in X]
    xs = good(S, X, dt)
    isf = np.dtype(dt).kind == "f"
    for f in fns:
        nan = f.startswith("nan")
        b = f[3:] if nan else f
        m = f"{msg}{f} of {dt}"
        if b == "sum":
            r = call(f)
            if isf:
                expect(S, r, NAN if (not nan and any(bad)) else fsum(S, [fl(S, x) for x in xs]), m)
            elif not nan and any(bad):
                S.check(is_inv(S, r, "u8" if dt == "u8" else "i8"), m + " with an invalid cell is invalid")
            else:
                S.check(S.eq(asint(S, r), isum(S, xs)), m)
        elif b == "mean":
            if not xs and (nan or not bad):
                continue
            expect(S, call(f), NAN if (not nan and any(bad)) else fsum(S, [fl(S, x) for x in xs]) / float(len(xs)), m)
        elif b in ("min", "max"):
            if n == 0:
                continue
            r = call(f)
            if (not nan and any(bad)) or not xs:
                S.check(is_inv(S, r, dt), m + " is invalid")
            else:
                w = fmin(S, xs, b == "max")
                S.check(S.eq(val(S, r, dt) if not (isinstance(r, (int, float)) and np.dtype(dt).kind == "b") else r, w), m)
        elif b in ("argmin", "argmax"):
            if n == 0 or (not nan and any(bad)):
                continue
            if not xs:
                try:
                    call(f)
                    S.check(False, m + " of nothing valid is rejected")
                except ValueError:
                    pass
                continue
            w = None
            V = [val(S, x, dt) for x in X]
            for i in range(n):
                if not bad[i] and (w is None or bool(V[i] > V[w] if b == "argmax" else V[i] < V[w])):
                    w = i
            S.check(S.eq(call(f), w), m)
        elif b in ("var", "std"):
            if n == 0 or not xs:
                continue
            expect(S, call(f), NAN if (not nan and any(bad)) else variance(S, xs, 1), m) if b == "var" else None


BASIC = ["sum", "nansum", "mean", "nanmean", "min", "max", "nanmin", "nanmax", "argmin", "argmax", "nanargmin", "nanargmax"]


@scenario(quick=[dict(dt=d, n=2, step=s) for d in NUM for s in (1, 2)] + [dict(dt=d, n=3, step=s) for d in ("i4", "f8", "u1") for s in (1, 2, -1)] + [dict(dt=d, n=n, step=1) for d in ("i4", "f8", "b1", "u8") for n in (0, 1)],
          thorough=[dict(dt=d, n=3, step=s) for d in NUM for s in (1, -1, 3)], budget=60)
def column(S, dt, n, step):
    """method, riptable function and numpy function forms of every reduction."""
    rt = S.rt
    v, X = sample(S, "v", n, dt, step=step)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        reduce_checks(S, lambda f: getattr(v, f)(), X, dt, BASIC)
        reduce_checks(S, lambda f: getattr(rt, f)(v), X, dt, BASIC, "rt.")
        if n:
            reduce_checks(S, lambda f: getattr(np, f)(v) if not S.symbolic else getattr(S.np, f)(v), X, dt, [f for f in BASIC if f not in ("min", "max")], "np.")
    S.eq_list(S.L(v), X, "source unchanged")


@scenario(quick=[dict(dt=d, n=n, step=s) for d, n, s in (("i4", 4, 1), ("i4", 2, 2), ("f8", 4, 1), ("f8", 2, -1), ("u1", 2, 1), ("i8", 3, 1), ("f4", 2, 1), ("i2", 1, 1), ("b1", 2, 1))],
          thorough=[dict(dt=d, n=5, step=1) for d in NUM[:-1]], budget=60)
def spread(S, dt, n, step):
    """variance with one or zero degrees of freedom removed, with and without skipping invalids."""
    if n <= 2:
        v, X = sample(S, "v", n, dt, step=step, hi=2)
    else:  # fixed values, symbolic positions of the invalid cells
        B = [bool(x) for x in S.L(S.bools("bad", n))]
        v = S.fa([np.dtype(dt).type(inv_val(dt) if b else x) for b, x in zip(B, [3, 1, 7, 4, 12])], np.dtype(dt))
        X = S.L(v)
    bad = [bool(is_inv(S, x, dt)) for x in X]
    xs = good(S, X, dt)
    for f in ("var", "nanvar"):
        for kw, dd in (({}, 1), ({"ddof": 0}, 0), ({"ddof": 1}, 1)):
            if not xs:
                continue
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = getattr(v, f)(**kw)
                q = getattr(S.rt, f)(v, **kw)
            w = NAN if f == "var" and any(bad) else variance(S, xs, dd)
            expect(S, r, w, f"{f}({kw}) of {dt}")
            expect(S, q, w, f"rt.{f}({kw}) of {dt}")


@scenario(quick=[dict(dt=d, n=n) for d, n in (("i4", 3), ("f8", 3), ("u1", 2), ("i8", 2), ("f4", 2), ("i1", 2), ("u4", 2), ("b1", 2))], thorough=[dict(dt=d, n=3) for d in NUM], budget=60)
def filtered(S, dt, n):
    """reductions over the rows of a filter equal the reduction of those rows."""
    rt = S.rt
    v, X = sample(S, "v", n, dt, hi=2)
    m = S.bools("m", n)
    M = [bool(x) for x in S.L(m)]
    xs = good(S, X, dt, M)
    allin = [val(S, x, dt) for x, k in zip(X, M) if k]
    anybad = any(bool(is_inv(S, x, dt)) for x, k in zip(X, M) if k)
    for w in (m,):
        r = v.nansum(filter=w)
        S.check(S.eq(r, fsum(S, [fl(S, x) for x in xs]) if np.dtype(dt).kind == "f" else isum(S, xs)), f"nansum(filter) of {dt}")
        if xs:
            expect(S, v.nanmean(filter=w), fsum(S, [fl(S, x) for x in xs]) / float(len(xs)), f"nanmean(filter) of {dt}")
            expect(S, v.nanvar(filter=w), variance(S, xs, 1), f"nanvar(filter) of {dt}")
        if not anybad:
            if allin:
                expect(S, v.mean(filter=w), fsum(S, [fl(S, x) for x in allin]) / float(len(allin)), f"mean(filter) of {dt}")
                expect(S, rt.var(v, filter=w), variance(S, allin, 1), f"var(filter) of {dt}")
    if n >= 2:
        try:
            v.nansum(filter=m[:1])
            S.check(False, "a filter of another length is rejected")
        except ValueError:
            pass
    S.eq_list(S.L(v), X, "source unchanged")


def table(S, n, inv=True):
    d = {"a": col(S, "a", n, "i4", inv=inv, lo=-3, hi=3), "s": S.strs("s", n, 1, b"xy"), "f": col(S, "f", n, "f8", inv=inv, lo=-3, hi=3), "b": col(S, "b", n, "u1", inv=inv, lo=0, hi=5)}
    return d, {k: S.L(v) for k, v in d.items()}


DT = {"a": "i4", "f": "f8", "b": "u1"}


@scenario(quick=[dict(n=2), dict(n=1)], thorough=[dict(n=3)], budget=60)
def dataset_columns(S, n):
    """a table's reduction reduces every numeric column and leaves the table unchanged."""
    rt = S.rt
    d, V = table(S, n)
    ds = rt.Dataset(d)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for f in ("sum", "nansum", "mean", "nanmean", "min", "max", "nanmin", "nanmax"):
            r = getattr(ds[["a", "f", "b"]], f)()
            S.check(list(r.keys()) == ["a", "f", "b"], f"{f}: one result per numeric column")
            for c in DT:
                reduce_checks(S, lambda _: S.L(r[c])[0], V[c], DT[c], [f], "table ")
        r = ds.sum()
        S.check(list(r.keys()) == ["a", "f", "b"], "text columns are left out of sums")
        r = ds.sum(as_dataset=False)
        S.check(type(r).__name__ == "Struct", "as_dataset=False gives a struct")
        r = ds.count()
        S.eq_list([S.L(r[c])[0] for c in r.keys()], [n] * 4, "count")
    for c in V:
        S.eq_list(S.L(ds[c]), V[c], f"source column {c} unchanged")


@scenario(quick=[dict(n=2)], thorough=[dict(n=3)], budget=60)
def dataset_rows(S, n):
    """axis=1 reduces each row across the numeric columns; axis=None everything."""
    rt = S.rt
    d = {"f": col(S, "f", n, "f8", inv=True, lo=-3, hi=3), "s": S.strs("s", n, 1, b"xy"), "g": col(S, "g", n, "f8", inv=True, lo=-3, hi=3)}
    V = {k: S.L(v) for k, v in d.items()}
    ds = rt.Dataset(d)
    row = lambda i: [V["f"][i], V["g"][i]]
    for f in ("sum", "mean", "nansum"):
        r = S.L(getattr(ds, f)(axis=1))
        S.check(len(r) == n, "one value per row")
        for i in range(n):
            xs = good(S, row(i), "f8")
            if f == "nansum":
                expect(S, r[i], fsum(S, xs), "nansum of a row")
            else:
                w = NAN if len(xs) < 2 else fsum(S, xs) / (2.0 if f == "mean" else 1.0)
                expect(S, r[i], w, f + " of a row")
    for c in V:
        S.eq_list(S.L(ds[c]), V[c], f"source column {c} unchanged")
    q = rt.Dataset({"f": d["f"], "g": d["g"]}).sum(axis=None)
    xs = good(S, V["f"] + V["g"], "f8")
    expect(S, q, NAN if len(xs) < 2 * n else fsum(S, xs), "sum of the whole table")


OPS = ["__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__"]


def py(S, op, x, y):
    x, y = fl(S, x), fl(S, y)
    if op in ("__rsub__",):
        return y - x
    return x + y if "add" in op else (x - y if "sub" in op else x * y)


@scenario(quick=[dict(other=o) for o in ("scalar", "array", "dataset", "column", "part")], budget=60)
def arithmetic(S, other):
    """table arithmetic is column-wise; text columns and labels are untouched, in-place forms change the table itself."""
    rt = S.rt
    n = 2
    d = {"k": col(S, "k", n, "f8", lo=0, hi=3), "a": col(S, "a", n, "f8", inv=True, lo=-3, hi=3), "s": S.strs("s", n, 1, b"xy"), "b": col(S, "b", n, "f8", lo=0, hi=5)}
    V = {k: S.L(v) for k, v in d.items()}
    ds = rt.Dataset(d)
    ds.label_set_names(["k"])
    y = col(S, "y", n, "f8", lo=-2, hi=2)
    z = col(S, "z", n, "f8", lo=-2, hi=2)
    Y, Z = S.L(y), S.L(z)
    c = S.float("c", -3, 3, q=0)
    if other == "scalar":
        o, W = c, {"a": [c] * n, "b": [c] * n}
    elif other == "array":
        o, W = y, {"a": Y, "b": Y}
    elif other == "column":
        o, W = y.reshape((n, 1)), {"a": Y, "b": Y}
    elif other == "dataset":
        o, W = rt.Struct({"b": y, "a": z, "zz": y}), {"a": Z, "b": Y}
    else:
        o, W = rt.Struct({"b": y}), {"b": Y}
    for op in OPS:
        r = getattr(ds, op)(o)
        S.check(list(r.keys()) == ["k", "a", "s", "b"], "same columns")
        for cn in V:
            if cn in W:
                S.eq_list(S.L(r[cn]), [py(S, op, x, w) for x, w in zip(V[cn], W[cn])], f"{op} {other}: column {cn}")
            else:
                S.eq_list(S.L(r[cn]), V[cn], f"{op} {other}: column {cn} untouched")
        for cn in V:
            S.eq_list(S.L(ds[cn]), V[cn], "source unchanged")
        S.check(list(r.label_get_names()) == ["k"], "labels kept")
    ds2 = rt.Dataset({k: v.copy() for k, v in d.items()})
    ds2.label_set_names(["k"])
    ds2 += o
    for cn in V:
        S.eq_list(S.L(ds2[cn]), [py(S, "__add__", x, w) for x, w in zip(V[cn], W[cn])] if cn in W else V[cn], f"+= {other}: column {cn}")
    for r, w in ((-ds, lambda x: -x), (abs(ds), lambda x: S.If(x < 0, -x, x))):
        for cn in ("a", "b"):
            S.eq_list(S.L(r[cn]), [w(x) for x in V[cn]], "unary")
        S.eq_list(S.L(r["s"]), V["s"], "unary leaves text alone")


@scenario(quick=[dict(n=2)], thorough=[dict(n=3)], budget=60)
def compare(S, n):
    """table comparisons and equals."""
    rt = S.rt
    d, V = table(S, n)
    e = {"b": col(S, "eb", n, "u1", inv=True, lo=0, hi=5), "f": col(S, "ef", n, "f8", inv=True, lo=-3, hi=3), "s": S.strs("es", n, 1, b"xy"), "a": col(S, "ea", n, "i4", inv=True, lo=-3, hi=3)}
    E = {k: S.L(v) for k, v in e.items()}
    x, y = rt.Dataset({k: d[k] for k in ("f", "s")}), rt.Dataset({k: e[k] for k in ("s", "f")})
    r = x == y
    feq = [S.And(S.Not(S.isnan(p)), S.eq(p, q)) for p, q in zip(V["f"], E["f"])]
    seq = [S.eq(p, q) for p, q in zip(V["s"], E["s"])]
    S.eq_list(S.L(r["f"]), feq, "== floats")
    S.eq_list(S.L(r["s"]), seq, "== text")
    r = x != y
    S.eq_list(S.L(r["f"]), [S.Not(q) for q in feq], "!= floats")
    S.eq_list(S.L(r["s"]), [S.Not(q) for q in seq], "!= text")
    same = S.And(*[S.eq(p, q) for p, q in zip(V["f"], E["f"])], *seq)
    S.check(S.eq(x.equals(y), same), "equals")
    S.check(S.eq(y.equals(x), same), "equals is symmetric")
    S.check(S.Not(x.equals(rt.Dataset({"f": e["f"]}))), "a missing column makes tables unequal")
    S.check(S.Not(rt.Dataset({"f": e["f"]}).equals(x)), "an extra column makes tables unequal")
    S.check(S.Not(x.equals(rt.Dataset({"f": e["f"][:1], "s": e["s"][:1]}))), "different lengths are unequal")
    xa, ya = rt.Dataset({"a": d["a"], "b": d["b"]}), rt.Dataset({"a": e["a"], "b": e["b"]})
    S.check(S.eq(xa.equals(ya), S.And(*[S.eq(p, q) for c in ("a", "b") for p, q in zip(V[c], E[c])])), "equals on integers with invalids")
    S.check(xa.equals(rt.Dataset({"a": d["a"].copy(), "b": d["b"].copy()})), "a copy is equal")
    try:
        x == rt.Dataset({"f": e["f"][:1], "s": e["s"][:1]})
        S.check(False, "comparing tables of different lengths is rejected")
    except ValueError:
        pass


@scenario(quick=[dict(n=2), dict(n=3)], budget=60)
def masks(S, n):
    """row masks of invalid cells, any/all, membership."""
    rt = S.rt
    d, V = table(S, n)
    ds = rt.Dataset(d)
    inv = [[is_inv(S, V[c][i], DT[c]) for c in DT] for i in range(n)]
    S.eq_list(S.L(ds.mask_or_isnan()), [S.Or(*r) for r in inv], "mask_or_isnan")
    S.eq_list(S.L(ds.mask_and_isnan()), [S.And(*r) for r in inv], "mask_and_isnan")
    S.eq_list(S.L(ds.mask_or_isfinite()), [S.Or(*[S.Not(q) for q in r]) for r in inv], "mask_or_isfinite")
    S.eq_list(S.L(ds.mask_and_isfinite()), [S.And(*[S.Not(q) for q in r]) for r in inv], "mask_and_isfinite")
    nz = [[S.Not(S.And(S.Not(S.isnan(V[c][i])), V[c][i] == 0)) for c in DT] + [S.Not(S.eq(V["s"][i], b""))] for i in range(n)]
    S.eq_list(S.L(ds.any(axis=1)), [S.Or(*r) for r in nz], "any(axis=1)")
    S.eq_list(S.L(ds.all(axis=1)), [S.And(*r) for r in nz], "all(axis=1)")
    q = rt.Dataset({"p": S.bools("p", n), "q": S.bools("q", n)})
    P, Q = S.L(q["p"]), S.L(q["q"])
    r = q.any()
    S.check(S.eq(S.L(r["p"])[0], S.Or(*P)), "any by column")
    S.check(S.eq(q.all(axis=None), S.And(*P, *Q)), "all of everything")
    S.check(S.eq(q.any(axis=None), S.Or(*P, *Q)), "any of everything")
    w = rt.Dataset({"a": d["a"], "b": d["b"]}).isin([1, 3])
    for c in ("a", "b"):
        S.eq_list(S.L(w[c]), [S.Or(x == 1, x == 3) for x in V[c]], "isin")


@scenario(quick=[dict(inplace=i, how=h, text=t) for i in (False, True) for h in ("value", "ffill", "bfill") for t in (True, False)], budget=60)
def fillna(S, inplace, how, text):
    rt = S.rt
    n = 3
    d = {"a": col(S, "a", n, "i4", inv=True, lo=-3, hi=3), "f": col(S, "f", n, "f8", inv=True, lo=-3, hi=3)}
    if text:
        d["s"] = S.strs("s", n, 1, b"xy")
    V = {k: S.L(v) for k, v in d.items()}
    ds = rt.Dataset(d)
    kw = dict(value=7) if how == "value" else dict(method=how)
    r = ds.fillna(inplace=inplace, **kw)
    t = ds if inplace else r
    for c in ("a", "f"):
        b = [is_inv(S, x, DT[c]) for x in V[c]]
        if how == "value":
            w = [S.If(q, 7.0 if c == "f" else 7, x) for q, x in zip(b, V[c])]
        else:
            w = []
            last, lb = None, True
            for q, x in (list(zip(b, V[c])) if how == "ffill" else list(zip(b, V[c]))[::-1]):
                last = x if last is None else S.If(q, last, x)
                w.append(last)
            w = w if how == "ffill" else w[::-1]
        S.eq_list(S.L(t[c]), w, f"fillna {how} {c}")
        if not inplace:
            S.eq_list(S.L(ds[c]), V[c], "source unchanged")
    if text:
        S.eq_list(S.L(t["s"]), V["s"], "text untouched")
    S.check(list(t.keys()) == list(d), "columns kept")


@scenario(quick=[dict(a=a, b=b) for a, b in (("i4", "f8"), ("i4", "i8"), ("u1", "i4"), ("i8", "f4"), ("f8", "i4"), ("f4", "i8"), ("i8", "i4"), ("u2", "f8"), ("i1", "u1"), ("f8", "u1"), ("f8", "f4"), ("b1", "i4"))],
          thorough=[dict(a=a, b=b) for a in NUM[:-1] for b in NUM[:-1] if a != b], budget=30)
def convert(S, a, b):
    """changing a column's type keeps values that fit and keeps invalid cells invalid."""
    rt = S.rt
    n = 2
    v = col(S, "v", n, a, inv=True, lo=0, hi=100)
    X = S.L(v)
    s = S.strs("s", n, 1, b"xy")
    r = rt.Dataset({"v": v, "s": s}).astype(np.dtype(b))
    for got in (v.astype(np.dtype(b)), r["v"], v[::-1].astype(np.dtype(b))[::-1]):
        S.check(got.dtype == np.dtype(b), "type")
        for g, x in zip(S.L(got), X):
            iv = is_inv(S, x, a)
            S.check(S.Or(S.And(iv, is_inv(S, g, b)), S.And(S.Not(iv), S.eq(val(S, g, b), val(S, x, a)))), f"{a} to {b}")
    S.eq_list(S.L(r["s"]), S.L(s), "text untouched")
    S.eq_list(S.L(v), X, "source unchanged")


@scenario(quick=[dict(n=3)], budget=40)
def putmask(S, n):
    """Dataset.putmask replaces exactly the masked cells of every column."""
    rt = S.rt
    d = {"a": col(S, "a", n, "i4", lo=-3, hi=3), "f": col(S, "f", n, "f8", lo=-3, hi=3)}
    e = {"p": col(S, "p", n, "i4", lo=-3, hi=3), "q": col(S, "q", n, "f8", lo=-3, hi=3)}
    V, E = {k: S.L(v) for k, v in d.items()}, {k: S.L(v) for k, v in e.items()}
    m = S.bools("m", n)
    M = S.L(m)
    ds = rt.Dataset(d)
    ds.putmask(m, rt.Dataset(e))
    S.eq_list(S.L(ds["a"]), [S.If(k, y, x) for k, x, y in zip(M, V["a"], E["p"])], "first column")
    S.eq_list(S.L(ds["f"]), [S.If(k, y, x) for k, x, y in zip(M, V["f"], E["q"])], "second column")


@scenario(quick=[dict(kind=k) for k in ("i4", "u1", "f8", "f4")], budget=40)
def mask_forms(S, kind, n=3):
    """tests for missing, zero and finite cells, as masks and as positions, methods and functions alike."""
    rt = S.rt
    a = col(S, "a", n, kind, inv=True)
    A = S.L(a)
    inv = [is_inv(S, x, np.dtype(kind)) for x in A]
    want = {"isnan": inv, "isnotnan": [S.Not(x) for x in inv], "isfinite": [S.Not(x) for x in inv], "isnotfinite": inv,
            "isnanorzero": [S.Or(q, x == 0) for q, x in zip(inv, A)], "isinf": [False] * n, "isnotinf": [True] * n}
    for name, w in want.items():
        f = getattr(rt, name)
        S.eq_list(S.L(getattr(a, name)()), w, name)
        S.eq_list(S.L(f(a)), w, name + " function")
        pos = [i for i in range(n) if bool(w[i])]
        S.eq_list(S.L(getattr(a, name)(fancy=True)), pos, name + " positions")
        S.eq_list(S.L(f(a, fancy=True)), pos, name + " function positions")
    S.eq_list(S.L(a), A, "source unchanged")


@scenario(quick=[dict(how=h) for h in ("labels", "masks", "fill", "putmask", "rows")], budget=60)
def labelled(S, how):
    """label columns take no part in table arithmetic and masks; fill values are looked up by column; values go by position."""
    rt = S.rt
    n = 2
    d = {"k": col(S, "k", n, "f8", inv=True, lo=0, hi=3), "a": col(S, "a", n, "f8", inv=True, lo=-3, hi=3), "h": col(S, "h", n, "f8", inv=True, lo=0, hi=3), "b": col(S, "b", n, "f8", inv=True, lo=0, hi=5)}
    V = {k: S.L(v) for k, v in d.items()}
    ds = rt.Dataset(d)
    lab = list(S.pick("lab", [("k", "h"), ("h", "k"), ("h",), ()]))
    ds.label_set_names(lab)
    free = [c for c in V if c not in lab]
    if how == "labels":
        y = {c: col(S, "y" + c, n, "f8", lo=-2, hi=2) for c in V}
        Y = {c: S.L(y[c]) for c in V}
        for o, W in ((2.0, {c: [2.0] * n for c in V}), (rt.Struct(y), Y)):
            r = ds + o
            for c in V:
                S.eq_list(S.L(r[c]), [p + q for p, q in zip(V[c], W[c])] if c in free else V[c], f"column {c}, labels {lab}")
            S.check(list(r.label_get_names()) == lab, "labels kept")
        r = -ds
        for c in V:
            S.eq_list(S.L(r[c]), [-p for p in V[c]] if c in free else V[c], f"negated {c}, labels {lab}")
    elif how == "masks":
        S.assume(len(free) > 0)
        inv = [[S.isnan(V[c][i]) for c in free] for i in range(n)]
        S.eq_list(S.L(ds.mask_or_isnan()), [S.Or(*r) for r in inv], "mask_or_isnan leaves labels out")
        S.eq_list(S.L(ds.mask_and_isnan()), [S.And(*r) for r in inv], "mask_and_isnan leaves labels out")
        S.check(list(ds.computable()) == free and list(ds.noncomputable()) == lab_order(V, lab), "computable columns")
    elif how == "fill":
        e = rt.Dataset({"s": S.strs("s", n, 1, b"xy"), "a": d["a"], "t": S.strs("t", n, 1, b"xy"), "u": S.strs("u", n, 1, b"xy")})
        X = {c: S.L(e[c]) for c in e.keys()}
        which = list(S.pick("which", [("s",), ("t",), ("u", "s"), ()]))
        r = e.apply_cols("__add__", 1.0, fill_value={c: rt.FA([7] * n) for c in which})
        S.eq_list(S.L(r["a"]), [p + 1.0 for p in X["a"]], "numbers")
        for c in ("s", "t", "u"):
            S.eq_list(S.L(r[c]), [7] * n if c in which else X[c], f"text column {c}, filled {which}")
        q = e.sum(fill_value={c: 7 for c in which})
        S.check(sorted(q.keys()) == sorted(["a"] + which), "reduced columns")
    elif how == "putmask":
        e = {c: col(S, "e" + c, n, "f8", lo=-3, hi=3) for c in S.pick("order", [("k", "a", "h", "b"), ("b", "h", "a", "k"), ("a", "k", "b", "h")])}
        E = [S.L(v) for v in e.values()]
        m = S.bools("m", n)
        M = S.L(m)
        ds = rt.Dataset({c: v.copy() for c, v in d.items()})
        ds.putmask(m, rt.Dataset(e))
        for c, w in zip(V, E):
            S.eq_list(S.L(ds[c]), [S.If(k, y, x) for k, x, y in zip(M, V[c], w)], f"column {c} by position")
    else:
        ds.label_remove()
        r = ds.gbrows().sum()
        for i in range(n):
            xs = [V[c][i] for c in V]
            w = xs[0]
            for x in xs[1:]:
                w = w + x
            expect(S, S.L(r["Row"])[i], w, "sum of a row")


def lab_order(V, lab):
    return [c for c in V if c in lab]


CHOOSE = [("i4", "i4"), ("i2", "i8"), ("f4", "f8"), ("i4", "f8"), ("S1", "S2"), ("?", "?"), ("cat", "cat"), ("cat", "S1")]


@scenario(quick=[dict(a=a, b=b, form=f) for a, b in CHOOSE for f in ("arrays", "scalar")] + [dict(a="i4", b="i4", form=f) for f in ("stepped", "positions", "one")], budget=40)
def choose(S, a, b, form, n=3):
    """rt.where takes each row from the side its condition names."""
    rt = S.rt

    def mk(p, k, m):
        if k == "cat":
            v = S.strs(p, m, 1, b"xy", minlen=1)
            return rt.Categorical(v), S.L(v)
        if k[0] == "S":
            v = S.strs(p, m, int(k[1]), b"x" if k == "S2" else b"xy")
        elif k == "?":
            v = S.bools(p, m)
        elif k[0] == "f":
            v = S.floats(p, m, dtype=np.dtype(k).type)
        else:
            v = S.ints(p, m, np.dtype(k).type, -3, 3)
        return v, S.L(v)

    c = S.bools("c", n)
    C = S.L(c)
    if form == "positions":
        S.eq_list(S.L(rt.where(c)[0]), [i for i in range(n) if bool(C[i])], "rows where the condition holds")
        S.eq_list(S.L(rt.bool_to_fancy(c)), [i for i in range(n) if bool(C[i])], "rows of a mask")
        return
    x, X = mk("x", a, n)
    y, Y = mk("y", b, 1 if form == "one" else n)
    if form == "scalar":
        if "cat" in (a, b):
            return
        y = {"S": b"yx", "i": 2, "f": 0.5, "?": True}[b[0]]
        Y = [y] * n
    if form == "one":
        Y = Y * n
    if form == "stepped":
        c, C, x, X, y, Y = c[::2], C[::2], x[::2], X[::2], y[::2], Y[::2]
    r = rt.where(c, x, y)
    got = S.L(r.expand_array if hasattr(r, "expand_array") else r)
    S.check(len(got) == len(C), "length")
    for g, t, u, v in zip(got, C, X, Y):
        S.check(S.eq(g, u if bool(t) else v), "row of the chosen side")
    S.eq_list(S.L(x.expand_array if a == "cat" else x), X, "the first side is unchanged")


@scenario(quick=[dict(f=f, k=k) for f in ("or", "and", "xor", "andnot") for k in (1, 2, 3, 4)], budget=30)
def mask_ops(S, f, k, n=2):
    """combining several masks, in place or not."""
    rt = S.rt
    ms = [S.bools(f"m{j}", n) for j in range(k)]
    L = [S.L(m) for m in ms]

    def fold(i):
        r = L[0][i]
        for l in L[1:]:
            r = {"or": S.Or(r, l[i]), "and": S.And(r, l[i]), "xor": S.Or(S.And(r, S.Not(l[i])), S.And(S.Not(r), l[i])), "andnot": S.And(r, S.Not(l[i])) if f == "andnot" else r}[f]
        return r

    want = [fold(i) for i in range(n)]
    fn = getattr(rt, "mask_" + f)
    got = S.L(fn(*ms))
    S.eq_list(got, want, "combined masks")
    S.eq_list(S.L(fn(ms)), want, "combined list of masks")
    for m, l in zip(ms, L):
        S.eq_list(S.L(m), l, "masks unchanged")
    fi = getattr(rt, "mask_" + f + "i")
    fi(*ms)
    S.eq_list(S.L(ms[0]), want, "combined in place")
    for m, l in zip(ms[1:], L[1:]):
        S.eq_list(S.L(m), l, "other masks unchanged")
