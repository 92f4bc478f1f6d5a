"""Filling, cumulative and neighbour operations on one array (and per group)."""
import numpy as np
from sx.registry import scenario
from props.common import *

BOUNDS = "at most 4 elements (thorough 6) of int8/uint8/int32/int64/float32/float64 with invalids, limits 0-3, periods -4..4, 2 groups plus filtered rows for the grouped forms; selected instances also with every input a stepped or reversed view"


@scenario(quick=[dict(n=4, dt=d, limit=l, fv=f, back=b) for b in (False, True) for d, l, f in [("i1", 0, None), ("u1", 1, None), ("i4", 2, 7), ("i8", 0, 7), ("f4", 1, 7), ("f8", 0, None), ("f8", 2, 7), ("f8", 3, None), ("u4", 0, 2)]]
          + [dict(n=n, dt="f8", limit=0, fv=None, back=b) for n in (0, 1) for b in (False, True)],
          thorough=[dict(n=6, dt=d, limit=l, fv=f, back=b) for b in (False, True) for d in DTS for l in (0, 1, 2, 3) for f in (None, 7)], budget=40)
def fill(S, n, dt, limit, fv, back, how="meth"):
    a = arr(S, "a", n, dt)
    X = S.L(a)
    b = (a.fill_backward if back else a.fill_forward)(fv, limit=limit)
    want = fill_oracle(S, X, dt, list(range(n)), inv_val(dt) if fv is None else fv, limit, back)
    S.eq_list(S.L(b), want, "filled")
    S.check(b.dtype == np.dtype(dt), "dtype kept")
    S.eq_list(S.L(a), X, "source unchanged")
    b = a.copy()
    (b.fill_backward if back else b.fill_forward)(fv, limit=limit, inplace=True)
    S.eq_list(S.L(b), want, "filled in place")
    f = S.rt.fill_backward if back else S.rt.fill_forward
    S.eq_list(S.L(f(a, fv, limit=limit)), want, "function form")
    b = a.fillna(fv, method="bfill" if back else "ffill", limit=limit)
    S.eq_list(S.L(b), want, "fillna method form")


@scenario(quick=[dict(n=3, dt=d) for d in ("i1", "u1", "i4", "f4", "f8")], thorough=[dict(n=5, dt=d) for d in DTS], budget=40)
def replace(S, n, dt):
    a = arr(S, "a", n, dt)
    X = S.L(a)
    want = [S.If(is_inv(S, x, dt), np.dtype(dt).type(2), x) for x in X]
    S.eq_list(S.L(a.replacena(2)), want, "replacena")
    S.eq_list(S.L(a.fillna(2)), want, "fillna")
    S.eq_list(S.L(a), X, "source unchanged")
    S.eq_list(S.L(a.isnan()), [is_inv(S, x, dt) for x in X], "isnan")
    S.eq_list(S.L(a.isnotnan()), [S.Not(is_inv(S, x, dt)) for x in X], "isnotnan")
    b = a.copy()
    S.check(b.replacena(2, inplace=True) is None, "in place returns nothing")
    S.eq_list(S.L(b), want, "in place")
    raised, _ = S.raises((Exception,), lambda: a.fillna())
    S.check(raised, "no value and no method is rejected")
    raised, _ = S.raises((Exception,), lambda: a.fillna(2, limit=1))
    S.check(raised, "limit without method is rejected")


@scenario(quick=[dict(n=4, dt=d, op=o, skipna=s) for o in ("cummin", "cummax") for s in (True, False) for d in ("i1", "u1", "i8", "f4", "f8")]
          + [dict(n=n, dt=d, op=o, skipna=True) for n in (0, 1) for d in ("i4", "f8") for o in ("cummin", "cummax")],
          thorough=[dict(n=5, dt=d, op=o, skipna=s) for o in ("cummin", "cummax") for s in (True, False) for d in DTS], budget=40)
def cumext(S, n, dt, op, skipna):
    a = arr(S, "a", n, dt)
    X = S.L(a)
    r = getattr(a, op)(skipna=skipna)
    out, best, dead = [], None, False
    for x in X:
        if bool(is_inv(S, x, dt)):
            dead = dead or not skipna
        elif best is None or bool(x < best if op == "cummin" else x > best):
            best = x
        out.append(inv_val(dt) if dead or best is None else best)
    S.eq_list(S.L(r), out, op)
    S.eq_list(S.L(a), X, "source unchanged")


def sx_oracle(X, p, n):
    return [X[i - p] if 0 <= i - p < n else None for i in range(n)]


@scenario(quick=[dict(n=3, dt=d, p=p) for d in ("i4", "u1", "f8", "S2", "b1") for p in (1, -1, 2, -2, 3, -3, 4)] + [dict(n=0, dt="i4", p=1)],
          thorough=[dict(n=5, dt=d, p=p) for d in ("i1", "i4", "u1", "f4", "f8", "S2", "b1") for p in range(-6, 7) if p], budget=30)
def shift(S, n, dt, p):
    a = col(S, "a", n, dt, inv=True)
    X = S.L(a)
    S.eq_list(S.L(a.shift(p)), [inv_val(dt) if x is None else x for x in sx_oracle(X, p, n)], "shift")
    S.eq_list(S.L(a), X, "source unchanged")
    if dt in ("i4", "f8"):
        S.eq_list(S.L(a.shift(p, invalid=5)), [5 if x is None else x for x in sx_oracle(X, p, n)], "shift with fill value")


@scenario(quick=[dict(n=3, dt=d, p=p) for d in ("i4", "f8") for p in (1, -1, 2, -2, 3, -4)],
          thorough=[dict(n=5, dt=d, p=p) for d in ("i1", "i4", "f4", "f8") for p in range(-6, 7) if p], budget=30)
def diff(S, n, dt, p):
    a = arr(S, "a", n, dt, inv=np.dtype(dt).kind == "f")
    X = S.L(a)
    r = S.L(a.diff(p))
    S.check(len(r) == n, "length")
    for i, (x, y) in enumerate(zip(X, sx_oracle(X, p, n))):
        S.check(S.eq(r[i], inv_val(dt) if y is None else x - y), f"difference at {i}")
    S.eq_list(S.L(a), X, "source unchanged")


@scenario(quick=[dict(n=3, dt=d, p=p) for d in ("i4", "f8") for p in (1, -1, 2, -2)],
          thorough=[dict(n=5, dt=d, p=p) for d in ("i1", "i4", "f8") for p in (-4, -3, -2, -1, 1, 2, 3, 4)], budget=30)
def transitions(S, n, dt, p):
    a = arr(S, "a", n, dt, inv=False)
    X = S.L(a)
    nb = sx_oracle(X, p, n)
    ne = [False if y is None else S.Not(S.eq(x, y)) for x, y in zip(X, nb)]
    eq = [False if y is None else S.eq(x, y) for x, y in zip(X, nb)]
    S.eq_list(S.L(a.transitions(p)), ne, "transitions")
    S.eq_list(S.L(a.differs(p)), eq, "same as the neighbour")
    S.eq_list(S.L(a.transitions(p, fancy=True)), [i for i in range(n) if bool(ne[i])], "transition positions")
    S.eq_list(S.L(a.differs(p, fancy=True)), [i for i in range(n) if bool(eq[i])], "positions equal to the neighbour")


@scenario(quick=[dict(n=3, flt=f, rate=r) for f in ("none", "filter", "reset") for r in (0.0, 0.5)], thorough=[dict(n=5, flt=f, rate=r) for f in ("none", "filter", "reset") for r in (0.0, 0.5)], budget=40)
def ema(S, n, flt, rate):
    """decayed running sum: fixed values and times, symbolic masks and NaN choice."""
    import math
    rt = S.rt
    vals = [1.0, 2.5, -3.0, 4.0, 0.5][:n]
    times = [3, 4, 7, 7, 11][:n]
    m = [bool(x) for x in S.L(S.bools("m", n))]
    r = [bool(x) for x in S.L(S.bools("r", n))]
    v = list(vals)
    if flt == "none":
        v = [NAN if m[i] else vals[i] for i in range(n)]
    kw = {} if flt == "none" else dict(filter=np.array(m))
    if flt == "reset":
        kw["reset"] = np.array(r)
    got = rt.FastArray(np.array(v)).ema_decay(np.array(times), rate, dtype=np.float64, **kw)
    last, lt = 0.0, 0
    for i in range(n):
        x = 0.0 if v[i] != v[i] else v[i]
        if flt != "none":
            x = v[i] if m[i] else 0.0
            if flt == "reset" and m[i] and r[i]:
                last, lt = 0.0, 0
        last = x + last * math.exp(-rate * (times[i] - lt))
        lt = times[i]
        S.check(abs(float(got[i]) - last) < 1e-9, f"decayed sum at {i}")


@scenario(quick=[dict(n=4, dt=d, limit=l, fv=f, back=b, via=v) for b in (False, True) for d, l, f, v in [("i4", 0, None, "cat"), ("f8", 1, None, "cat"), ("f8", 0, 7, "gb"), ("i1", 1, 7, "gb"), ("u1", 0, None, "gb"), ("f4", 2, None, "inplace")]],
          thorough=[dict(n=5, dt=d, limit=l, fv=f, back=b, via=v) for b in (False, True) for d in ("i4", "u1", "f8") for l in (0, 1, 2) for f in (None, 7) for v in ("cat", "gb", "inplace")], budget=60)
def grouped_fill(S, n, dt, limit, fv, back, via):
    group_fill(S, n, dt, limit, fv, back, via)


@scenario(quick=[dict(method=m, limit=l) for m, l in [("ffill", 1), ("bfill", 0), ("pad", 0), ("value", 0)]], budget=60)
def dataset_fillna(S, method, limit, n=3):
    rt = S.rt
    i, f, s = S.ints("i", n, np.int16, 0, 2, inv=True), S.floats("f", n, 0, 2, q=0), S.strs("s", n, 1, b"x")
    ds = rt.Dataset({"i": i, "f": f, "s": s})
    I, F, Z = S.L(i), S.L(f), S.L(s)
    if method == "value":
        r = ds.fillna(5)
        wi, wf = [S.If(is_inv(S, x, np.int16), np.int16(5), x) for x in I], [S.If(S.isnan(x), 5.0, x) for x in F]
    else:
        r = ds.fillna(method=method, limit=limit)
        b = method == "bfill"
        wi = fill_oracle(S, I, np.int16, list(range(n)), inv_val(np.int16), limit, b)
        wf = fill_oracle(S, F, np.float64, list(range(n)), NAN, limit, b)
    S.eq_list(S.L(r["i"]), wi, "integer column")
    S.eq_list(S.L(r["f"]), wf, "float column")
    S.eq_list(S.L(ds["i"]), I, "source unchanged")
    S.eq_list(S.L(ds["f"]), F, "source unchanged")
    S.eq_list(S.L(r["s"]), Z, "string column untouched")


@scenario(quick=[dict(n=4, dt=d, w=w) for d, w in [("i2", 2), ("f8", 2), ("u1", 3), ("f4", 1), ("i8", 4), ("i4", 9), ("b1", 2)]], thorough=[dict(n=6, dt=d, w=w) for d in ("i2", "f8") for w in (1, 2, 3, 5)], budget=60)
def rolling(S, n, dt, w):
    a = S.bools("a", n) if dt == "b1" else arr(S, "a", n, dt, inv=False)
    X = S.L(a)
    N = [asint(S, S.If(x, 1, 0)) if dt == "b1" else x for x in X]
    win = lambda i: N[max(0, i - w + 1):i + 1]
    isf = np.dtype(dt).kind == "f"
    for name in ("rolling_sum", "rolling_nansum"):
        r = S.L(getattr(a, name)(w))
        S.check(len(r) == n, "length")
        for i in range(n):
            S.check(S.close(r[i], fsum(S, win(i))) if isf else r[i] == isum(S, win(i)), f"{name} at {i}")
    for name in ("rolling_mean", "rolling_nanmean"):
        r = S.L(getattr(a, name)(w))
        for i in range(n):
            t = fsum(S, win(i)) if isf else isum(S, win(i))
            S.check(S.close(r[i], t / float(len(win(i)))), f"{name} at {i}")
    S.eq_list(S.L(a), X, "source unchanged")


@scenario(quick=[dict(n=4, w=w) for w in (2, 3)], thorough=[dict(n=5, w=w) for w in (1, 2, 3)], budget=60)
def rolling_skip(S, n, w):
    a = S.floats("a", n, -4, 4, q=0)
    X = S.L(a)
    s, m = S.L(a.rolling_nansum(w)), S.L(a.rolling_nanmean(w))
    for i in range(n):
        win = [x for x in X[max(0, i - w + 1):i + 1] if not bool(S.isnan(x))]
        S.check(S.close(s[i], fsum(S, win)), f"sum skipping NaN at {i}")
        S.check(S.close(m[i], fsum(S, win) / float(len(win))) if win else S.isnan(m[i]), f"mean skipping NaN at {i}")


@scenario(quick=[dict(n=4, dt=d, dist=t, op=o) for d, t, o in [("i4", 2, "sum"), ("f8", 0, "sum"), ("i2", 3, "prod"), ("f8", 1, "prod"), ("i8", 50, "sum")]], thorough=[dict(n=6, dt=d, dist=t, op="sum") for d in ("i4", "f8") for t in (0, 1, 3)], budget=60)
def timewindow(S, n, dt, dist, op):
    a, t = arr(S, "a", n, dt, inv=False), S.ints("t", n, np.int64, 0, 6)
    X, T = S.L(a), S.L(t)
    for x, y in zip(T, T[1:]):
        S.assume(x <= y)
    r = S.L(getattr(a, "timewindow_" + op)(t, dist))
    for i in range(n):
        acc = X[i] if np.dtype(dt).kind == "f" else asint(S, X[i])
        for j in range(i - 1, -1, -1):
            if not bool(T[i] - T[j] <= dist):
                break
            acc = acc + X[j] if op == "sum" else acc * X[j]
        S.check(S.close(r[i], acc) if np.dtype(dt).kind == "f" else r[i] == acc, f"window at {i}")


@scenario(quick=[dict(n=2 if d[0] == "f" else 3, dt=d) for d in ("i2", "u1", "i8", "f4", "f8", "b1")], thorough=[dict(n=5, dt=d) for d in ("i2", "u1", "i8", "f8")], budget=40)
def cumsum_prod(S, n, dt):
    """running sums and products, as method and as function."""
    rt = S.rt
    a = S.bools("a", n) if dt == "b1" else arr(S, "a", n, dt, inv=np.dtype(dt).kind == "f")
    X = S.L(a)
    isf = np.dtype(dt).kind == "f"
    N = [asint(S, S.If(x, 1, 0)) if dt == "b1" else x if isf else asint(S, x) for x in X]
    for f, op in ((lambda: a.cumsum(), 0), (lambda: rt.cumsum(a), 0), (lambda: np.cumsum(a), 0), (lambda: a.cumprod(), 1), (lambda: rt.cumprod(a), 1)):
        r = S.L(f())
        S.check(len(r) == n, "length")
        acc = None
        for i in range(n):
            acc = N[i] if acc is None else acc * N[i] if op else acc + N[i]
            S.check(S.Or(S.close(r[i], acc), S.And(S.isnan(r[i]), S.isnan(acc))) if isf else r[i] == acc, f"running {'product' if op else 'sum'} at {i}")
    S.eq_list(S.L(a), X, "source unchanged")


@scenario(quick=[dict(w=w, q=q) for w, q in [(2, 0.5), (3, 0.5), (3, 0.0), (2, 1.0), (9, 0.5)]], budget=40)
def rolling_quantile(S, w, q):
    """fixed values, symbolic missing ones."""
    n = 4
    m = [bool(x) for x in S.L(S.bools("m", n))]
    v = [NAN if b else x for b, x in zip(m, [3.0, -1.5, 4.0, 0.5])]
    r = S.rt.FastArray(np.array(v)).rolling_quantile(q, w)
    for i in range(n):
        xs = sorted(x for x in v[max(0, i - w + 1):i + 1] if x == x)
        if not xs:
            S.check(r[i] != r[i], "no values")
            continue
        p = q * (len(xs) - 1)
        lo = int(p)
        want = xs[lo] if p == lo else (xs[lo] + xs[lo + 1]) / 2
        S.check(abs(float(r[i]) - want) < 1e-9, f"rolling quantile at {i}: {r[i]} != {want}")
