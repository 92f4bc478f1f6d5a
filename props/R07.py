"""Per-group operations that keep the row count: cumulative, rolling, shifting, counting, decaying."""
import math
import numpy as np
from sx.registry import scenario
from props.common import *

BOUNDS = "at most 4 rows (thorough 5), 1-2 keys of up to 3 values incl. invalid, symbolic int/float values for sums, shifts, differences and counts (fixed values, symbolic groups and masks for products, extremes, decays and quantiles), windows 1-4, symbolic filters and resets; selected instances also with every input a stepped or reversed view"


def mk(S, n, via, inv=True, nan=True, q=1):
    """(call(name, **kw) -> {col: list}, group rows, V, I); via: groupby, two keys, categorical with filtered rows."""
    rt = S.rt
    v = S.floats("v", n, -4, 4, q=q, nan=nan)
    i = S.ints("i", n, np.int16, -50, 50)
    V, I = S.L(v), S.L(i)
    return _wire(S, n, via, v, i) + (V, I)


def mkc(S, n, via, vals):
    rt = S.rt
    v = rt.FastArray(np.array(vals[:n]))
    i = rt.FastArray(np.array([3, -2, 5, 1, 4][:n], dtype=np.int16))
    return _wire(S, n, via, v, i) + (list(vals[:n]), [3, -2, 5, 1, 4][:n])


def _wire(S, n, via, v, i):
    rt = S.rt
    if via == "cat":
        c = S.ints("c", n, np.int8, 0, 2)
        C = S.L(c)
        cat = rt.Categorical(c, ["a", "b"], base_index=1)
        ds = rt.Dataset({"v": v, "i": i})
        gs = [[j for j in range(n) if bool(C[j] == b)] for b in (1, 2)]

        def call(name, **kw):
            return getattr(cat, name)(ds, **kw)
    elif via == "two":
        k, s = S.ints("k", n, np.int32, 0, 1), S.strs("s", n, 1, b"x")
        ds = rt.Dataset({"k": k, "s": s, "v": v, "i": i})
        gs = groups(S, [S.L(k), S.L(s)], n)

        def call(name, **kw):
            return getattr(ds.groupby(["k", "s"]), name)(**kw)
    else:
        k = S.ints("k", n, np.int32, 0, 2, inv=True) if via == "gb" else S.floats("k", n, 0, 1, q=0)
        ds = rt.Dataset({"k": k, "v": v, "i": i})
        gs = groups(S, [S.L(k)], n)

        def call(name, **kw):
            return getattr(ds.groupby("k"), name)(**kw)
    return call, gs


VIA = ["gb", "gbf", "two", "cat"]


def put(n, gs, f, default):
    out = [default] * n
    for g in gs:
        for c, i in enumerate(g):
            out[i] = f(g, c, i)
    return out


@scenario(quick=[dict(n=3, via=v, flt=f) for v, f in [("gb", 0), ("gbf", 0), ("two", 1), ("cat", 0), ("cat", 1), ("gb", 2)]], thorough=[dict(n=4, via=v, flt=f) for v in VIA for f in (0, 1, 2)], budget=90)
def cumsum(S, n, via, flt):
    call, gs, V, I = mk(S, n, via)
    m, z = [True] * n, [False] * n
    kw = {}
    if flt:
        fm = S.bools("m", n)
        m, kw["filter"] = [bool(x) for x in S.L(fm)], fm
    if flt == 2:
        fz = S.bools("z", n)
        z, kw["reset_filter"] = [bool(x) for x in S.L(fz)], fz
    r = call("cumsum", **kw)

    def run(X, zero):
        def f(g, c, i):
            t = zero
            for j in g[:c + 1]:
                t = zero if z[j] else t
                if m[j]:
                    t = (asint(S, X[j]) if X is I else X[j]) + t
            return t
        return f
    S.check(r.shape[0] == n, "row count")
    wi, wv = put(n, gs, run(I, 0), inv_val(np.int64)), put(n, gs, run(V, 0.0), NAN)
    S.eq_list(S.L(r["i"]), wi, "integer running sums")
    S.check(S.And(*[S.close(a, b) for a, b in zip(S.L(r["v"]), wv)]), "float running sums")


@scenario(quick=[dict(n=4, via=v, p=p) for v, p in [("gb", 1), ("gb", -1), ("cat", 1), ("cat", 2), ("two", 1), ("gbf", -2), ("gb", 4)]], thorough=[dict(n=5, via=v, p=p) for v in ("gb", "cat") for p in (-2, -1, 1, 2, 3)], budget=90)
def shift(S, n, via, p):
    """shift and difference within the group."""
    call, gs, V, I = mk(S, n, via)
    r = call("rolling_shift", window=p)
    at = lambda X, d: put(n, gs, lambda g, c, i: X[g[c - p]] if 0 <= c - p < len(g) else d, d)
    S.eq_list(S.L(r["i"]), at(I, inv_val(np.int16)), "shifted integers")
    S.eq_list(S.L(r["v"]), at(V, NAN), "shifted floats")
    r = call("rolling_diff", window=p)
    df = lambda X, d: put(n, gs, lambda g, c, i: X[i] - X[g[c - p]] if 0 <= c - p < len(g) else d, d)
    S.eq_list(S.L(r["i"]), df(I, inv_val(np.int16)), "integer differences")
    S.eq_list(S.L(r["v"]), df(V, NAN), "float differences")
    if via != "cat":
        r = call("shift", window=p)
        S.eq_list(S.L(r["i"]), at(I, inv_val(np.int16)), "shift")
        r = call("diff", period=p)
        S.eq_list(S.L(r["i"]), df(I, inv_val(np.int16)), "diff")


@scenario(quick=[dict(n=4, via=v, w=w) for v, w in [("gb", 2), ("cat", 2), ("two", 3), ("gbf", 1), ("gb", 9)]], thorough=[dict(n=5, via=v, w=w) for v in ("gb", "cat") for w in (1, 2, 3)], budget=90)
def rolling(S, n, via, w):
    call, gs, V, I = mk(S, n, via, nan=False)
    win = lambda g, c: g[max(0, c - w + 1):c + 1]
    r = call("rolling_sum", window=w)
    S.eq_list(S.L(r["i"]), put(n, gs, lambda g, c, i: isum(S, [I[j] for j in win(g, c)]), inv_val(np.int64)), "integer rolling sums")
    wv = put(n, gs, lambda g, c, i: fsum(S, [V[j] for j in win(g, c)]), NAN)
    S.check(S.And(*[S.close(a, b) for a, b in zip(S.L(r["v"]), wv)]), "float rolling sums")
    r = call("rolling_mean", window=w)
    wv = put(n, gs, lambda g, c, i: fsum(S, [V[j] for j in win(g, c)]) / float(len(win(g, c))), NAN)
    S.check(S.And(*[S.close(a, b) for a, b in zip(S.L(r["v"]), wv)]), "float rolling means")


@scenario(quick=[dict(n=3, via=v, w=w) for v, w in [("gb", 2), ("cat", 2)]], thorough=[dict(n=4, via=v, w=w) for v in ("gb", "cat") for w in (1, 2, 3)], budget=90)
def rolling_nan(S, n, via, w):
    call, gs, V, I = mk(S, n, via, q=0)
    win = lambda g, c: [V[j] for j in g[max(0, c - w + 1):c + 1] if not bool(S.isnan(V[j]))]
    r = call("rolling_nansum", window=w)
    wv = put(n, gs, lambda g, c, i: fsum(S, win(g, c)), NAN)
    S.check(S.And(*[S.close(a, b) for a, b in zip(S.L(r["v"]), wv)]), "rolling sums skipping NaN")
    r = call("rolling_nanmean", window=w)
    wv = put(n, gs, lambda g, c, i: fsum(S, win(g, c)) / float(len(win(g, c))) if win(g, c) else NAN, NAN)
    S.check(S.And(*[S.close(a, b) for a, b in zip(S.L(r["v"]), wv)]), "rolling means skipping NaN")


@scenario(quick=[dict(n=4, via=v) for v in VIA], thorough=[dict(n=5, via=v) for v in VIA], budget=60)
def cumcount(S, n, via):
    call, gs, V, I = mkc(S, n, via, [1.0] * 5)
    for asc in (True, False):
        r = call("cumcount", ascending=asc)
        S.eq_list(S.L(r), put(n, gs, lambda g, c, i: c if asc else len(g) - 1 - c, inv_val(np.int32)), f"running count (ascending={asc})")


@scenario(quick=[dict(n=4, via=v, flt=f) for v, f in [("gb", False), ("cat", True)]], thorough=[dict(n=5, via=v, flt=f) for v in ("gb", "two", "cat") for f in (False, True)], budget=60)
def findnth(S, n, via, flt):
    call, gs, V, I = mkc(S, n, via, [1.0] * 5)
    m = [True] * n
    kw = {}
    if flt:
        fm = S.bools("m", n)
        m, kw["filter"] = [bool(x) for x in S.L(fm)], fm
    r = call("findnth", **kw)
    S.eq_list(S.L(r["i"]), put(n, gs, lambda g, c, i: len([j for j in g[:c + 1] if m[j]]) if m[i] else 0, 0), "position within the group")


VALS = [2.0, -1.5, float("nan"), 4.0, 0.5]


@scenario(quick=[dict(n=4, via=v, op=o, flt=f) for v, f in [("gb", False), ("cat", True)] for o in ("cumprod", "cummin", "cummax", "cummin_na", "cummax_na")],
          thorough=[dict(n=5, via=v, op=o, flt=f) for v in VIA for f in (False, True) for o in ("cumprod", "cummin", "cummax", "cummin_na", "cummax_na")], budget=60)
def cumother(S, n, via, op, flt):
    """products and extremes: fixed values, symbolic groups and filter."""
    call, gs, V, I = mkc(S, n, via, VALS)
    m = [True] * n
    kw = {}
    if flt:
        fm = S.bools("m", n)
        m, kw["filter"] = [bool(x) for x in S.L(fm)], fm
    na = op.endswith("_na")
    op = op[:6] if na else op
    if na:
        kw["skipna"] = False
    r = call(op, **kw)

    def f(X):
        def one(g, c, i):
            xs = [X[j] for j in g[:c + 1] if m[j]]
            if op == "cumprod":
                return math.prod(xs)
            nn = [x for x in xs if x == x]
            if na and len(nn) < len(xs):
                return NAN
            return (None if not nn else (min if op == "cummin" else max)(nn))
        return one
    for c, X in (("i", I), ("v", V)):
        got, want = S.L(r[c]), put(n, gs, f(X), None)
        for a, b in zip(got, want):
            if b is not None:
                a = float(a)
                S.check((a != a and b != b) or abs(a - b) < 1e-9, f"{op} of {c}: {a} != {b}")


@scenario(quick=[dict(n=4, via=v, op=o, flt=f) for v, f in [("gb", 0), ("cat", 1)] for o in ("ema_decay", "ema_normal", "ema_weighted")],
          thorough=[dict(n=5, via=v, op=o, flt=f) for v in VIA for f in (0, 1) for o in ("ema_decay", "ema_normal", "ema_weighted")], budget=60)
def ema(S, n, via, op, flt):
    vals = [2.0, -1.5, 3.0, 4.0, 0.5]
    T = [1, 3, 4, 4, 9]
    call, gs, V, I = mkc(S, n, via, vals)
    m, z, kw = [True] * n, [False] * n, {}
    if flt:
        fm = S.bools("m", n)
        m, kw["filter"] = [bool(x) for x in S.L(fm)], fm
    if flt == 2:
        fz = S.bools("z", n)
        z, kw["reset_filter"] = [bool(x) for x in S.L(fz)], fz
    if op != "ema_weighted":
        kw["time"] = S.rt.FastArray(np.array(T[:n]))
    rate = 0.5
    r = call(op, decay_rate=rate, **kw)
    if flt and op != "ema_decay":
        S.check(r.shape[0] == n, "row count")
        return

    def run(g, c, i):
        last, lt = None, 0
        for k, j in enumerate(g[:c + 1]):
            x = V[j]
            if op == "ema_decay":
                if last is None:
                    last, lt = 0.0, 0
                if z[j]:
                    last, lt = 0.0, 0
                last = (x if m[j] else 0.0) + last * math.exp(-rate * (T[j] - lt)) if last or m[j] else 0.0
                lt = T[j]
            elif op == "ema_normal":
                if last is None:
                    last = x
                else:
                    w = math.exp(-rate * (T[j] - lt))
                    last = x * (1 - w) + last * w
                lt = T[j]
            else:
                last = x if last is None else x * (1 - rate) + last * rate
        return last
    got, want = S.L(r["v"]), put(n, gs, run, None)
    for a, b in zip(got, want):
        if b is not None:
            S.check(abs(float(a) - b) < 1e-6, f"{op}: {a} != {b}")


@scenario(quick=[dict(n=4, via=v, q=q, w=w) for v, q, w in [("gb", 0.5, 3), ("cat", 0.0, 2), ("gb", 1.0, 9), ("two", 0.25, 2)]], budget=60)
def rolling_q(S, n, via, q, w):
    call, gs, V, I = mkc(S, n, via, [2.0, -1.5, 3.0, 4.0])
    r = call("rolling_quantile", q=q, window=w)

    def one(X):
        def f(g, c, i):
            xs = sorted(X[j] for j in g[max(0, c - w + 1):c + 1])
            p = q * (len(xs) - 1)
            lo = int(math.floor(p))
            hi = min(lo + 1, len(xs) - 1)
            return xs[lo] if p == lo else (xs[lo] + xs[hi]) / 2
        return f
    for col, X in (("v", V), ("i", I)):
        for a, b in zip(S.L(r[col]), put(n, gs, one(X), None)):
            if b is not None:
                S.check(abs(float(a) - b) < 1e-6, f"rolling quantile: {a} != {b}")


@scenario(quick=[dict(n=4, dt=d, limit=l, fv=f, back=b, via=v) for b in (False, True) for d, l, f, v in [("i4", 0, None, "cat"), ("f8", 1, None, "gb"), ("f8", 0, 7, "gb"), ("i1", 2, 7, "cat"), ("f4", 1, None, "inplace")]],
          thorough=[dict(n=5, dt=d, limit=l, fv=f, back=b, via=v) for b in (False, True) for d in ("i2", "u1", "f8") for l in (0, 1, 2) for f in (None, 7) for v in ("cat", "gb", "inplace")], budget=60)
def filled(S, n, dt, limit, fv, back, via):
    """filling within the group; rows of no group are left alone."""
    group_fill(S, n, dt, limit, fv, back, via)


@scenario(quick=[dict(how=h) for h in ("groupby", "call", "cat")], thorough=[dict(how=h, n=5) for h in ("groupby", "call", "cat")], budget=60)
def filtered(S, how, n=4):
    """rows removed by a filter, however it is given, take no part and get no value; other rows see only their group."""
    rt = S.rt
    k, m = S.ints("k", n, np.int32, 0, 1), S.bools("m", n)
    K, M = S.L(k), [bool(x) for x in S.L(m)]
    vals, ints = [2.0, -1.5, 3.0, 4.0, 0.5], [3, -2, 5, 1, 4]
    ds = rt.Dataset({"k": k, "v": np.array(vals[:n]), "i": np.array(ints[:n], dtype=np.int16)})
    gs = groups(S, [K], n, rows=[i for i in range(n) if M[i]])
    if how == "cat":
        c = rt.Categorical(k, filter=m)
        data = ds[["v", "i"]]
        call = lambda name, **kw: getattr(c, name)(data, **kw)
    else:
        kw0 = {"filter": m}
        g = ds.groupby("k", **(kw0 if how == "groupby" else {}))
        call = lambda name, **kw: getattr(g, name)(**kw, **(kw0 if how == "call" else {}))

    def chk(r, f, X, what, tol=1e-6):
        for a, b in zip(S.L(r), put(n, gs, lambda g, c, i: f(X, g, c), None)):
            a = float(a)
            if b is None:
                S.check(a != a or a == inv_val(np.int64) or a == inv_val(np.int16), f"{what}: filtered row has value {a}")
            else:
                S.check((a != a and b != b) or abs(a - b) < tol, f"{what}: {a} != {b}")
    for col, X in (("v", vals), ("i", ints)):
        miss = NAN if col == "v" else float(inv_val(np.int16))
        chk(call("rolling_sum", window=2)[col], lambda X, g, c: sum(X[j] for j in g[max(0, c - 1):c + 1]), X, "rolling sum")
        chk(call("rolling_nansum", window=3)[col], lambda X, g, c: sum(X[j] for j in g[max(0, c - 2):c + 1]), X, "rolling nansum")
        chk(call("rolling_mean", window=2)[col], lambda X, g, c: sum(X[j] for j in g[max(0, c - 1):c + 1]) / min(2, c + 1), X, "rolling mean")
        chk(call("rolling_shift", window=1)[col], lambda X, g, c: X[g[c - 1]] if c else miss, X, "shift")
        chk(call("rolling_diff", window=1)[col], lambda X, g, c: X[g[c]] - X[g[c - 1]] if c else miss, X, "difference")
        chk(call("rolling_median", window=2)[col], lambda X, g, c: sum(X[j] for j in g[max(0, c - 1):c + 1]) / min(2, c + 1), X, "rolling median")
        if how != "call":
            chk(call("cumsum")[col], lambda X, g, c: sum(X[j] for j in g[:c + 1]), X, "running sum")
            chk(call("cumprod")[col], lambda X, g, c: math.prod(X[j] for j in g[:c + 1]), X, "running product")
            chk(call("cummin")[col], lambda X, g, c: min(X[j] for j in g[:c + 1]), X, "running minimum")
            chk(call("cummax")[col], lambda X, g, c: max(X[j] for j in g[:c + 1]), X, "running maximum")
    r = call("cumcount")
    S.eq_list(S.L(r), put(n, gs, lambda g, c, i: c, inv_val(np.int32)), "running count")


@scenario(quick=[dict(via=v, p=p) for v, p in [("gb", 1), ("cat", -1), ("gbu", 2)]], thorough=[dict(via=v, p=p, n=5) for v in ("gb", "cat", "gbu") for p in (1, -1, 2)], budget=60)
def shift_types(S, via, p, n=4):
    """columns of every type are shifted together, each with its own missing value."""
    rt = S.rt
    k = S.ints("k", n, np.int32, 0, 1)
    K = S.L(k)
    s, b, d = S.strs("s", n, 1, b"x"), S.bools("b", n), S.ints("d", n, np.int32, 0, 9)
    u, z, t = S.strs("u", n, 1, b"x", kind="U"), S.ints("z", n, np.uint8, 0, 9, inv=True), S.ints("t", n, np.int64, 0, 9)
    src = {"s": s, "b": b, "d": rt.Date(d.copy()), "u": u, "z": z, "t": t}
    W = {"s": (S.L(s), b""), "b": (S.L(b), False), "d": (S.L(d), inv_val(np.int32)), "u": (S.L(u), ""), "z": (S.L(z), 255), "t": (S.L(t), inv_val(np.int64))}
    gs = groups(S, [K], n)
    if via == "cat":
        r = rt.Categorical(k).rolling_shift(rt.Dataset(src), window=p)
    else:
        ds = rt.Dataset(dict(src, k=k))
        g = ds.groupby("k") if via == "gb" else ds.gbu("k")
        r = g.shift(periods=p) if via == "gb" else g.rolling_shift(window=p)
    S.check([x for x in r.keys()] == list(src), "columns")
    for c, (X, miss) in W.items():
        S.eq_list(S.L(r[c]), put(n, gs, lambda g, q, i: X[g[q - p]] if 0 <= q - p < len(g) else miss, miss), f"shifted {c}")
        if c in "dzt":
            S.check(r[c].dtype == src[c].dtype, "dtype kept")


@scenario(quick=[dict(via=v) for v in ("gb", "cat")], thorough=[dict(via=v, n=5) for v in ("gb", "cat", "two")], budget=60)
def reset(S, via, n=4):
    """reset points restart a group's running value and leave the other groups alone."""
    vals = [2.0, -1.5, 3.0, 4.0, 0.5]
    call, gs, V, I = mkc(S, n, via, vals)
    fz = S.bools("z", n)
    z = [bool(x) for x in S.L(fz)]

    def since(g, c):
        last = max([q for q in range(c + 1) if z[g[q]]], default=0)
        return [V[g[q]] for q in range(last, c + 1)]
    for name, f in (("cumsum", sum), ("cumprod", math.prod)):
        for a, b in zip(S.L(call(name, reset_filter=fz)["v"]), put(n, gs, lambda g, c, i: f(since(g, c)), None)):
            if b is not None:
                S.check(abs(float(a) - b) < 1e-9, f"{name} with resets: {a} != {b}")


@scenario(quick=[dict(via=v, w=w) for v, w in [("gb", 2), ("cat", 3)]], thorough=[dict(via=v, w=w, n=5) for v in VIA for w in (1, 2, 3)], budget=60)
def rolling_many_q(S, via, w, n=4):
    """several quantiles at once: one column for each, side by side; the median is the half quantile."""
    call, gs, V, I = mkc(S, n, via, [2.0, -1.5, 3.0, 4.0, 0.5])
    r = call("rolling_quantile", q=[1.0, 0.0, 0.5], window=w)
    names = [f"{c}_q{q}" for c in ("v", "i") for q in ("1", "0", "0_5")]
    S.check([x for x in r.keys() if "key" not in x] == names, f"columns {list(r.keys())}")
    md = call("rolling_median", window=w)

    def med(xs):
        xs = sorted(xs)
        h = len(xs) // 2
        return xs[h] if len(xs) % 2 else (xs[h - 1] + xs[h]) / 2
    for c, X in (("v", V), ("i", I)):
        for q, f in (("1", max), ("0", min), ("0_5", med)):
            want = put(n, gs, lambda g, k, i: f([X[j] for j in g[max(0, k - w + 1):k + 1]]), None)
            for a, b in zip(S.L(r[f"{c}_q{q}"]), want):
                if b is not None:
                    S.check(abs(float(a) - b) < 1e-6, f"rolling quantile {q}: {a} != {b}")
            if q == "0_5":
                for a, b in zip(S.L(md[c]), want):
                    if b is not None:
                        S.check(abs(float(a) - b) < 1e-6, f"rolling median: {a} != {b}")


@scenario(quick=[dict(op=o, tm=t) for o, t in [("ema_normal", "f8"), ("ema_normal", "i1"), ("ema_normal", "dt"), ("ema_decay", "f8"), ("nb_ema", "f8")]], thorough=[dict(op=o, tm=t, n=5) for o in ("ema_normal", "ema_decay") for t in ("f8", "i4", "dt")], budget=60)
def ema_times(S, op, tm, n=4):
    """elapsed times of any numeric type, or timestamps, decay each group by its own gaps."""
    rt = S.rt
    vals, T = [2.0, -1.5, 3.0, 4.0, 0.5], [1, 3, 4, 4, 9]
    k = S.ints("k", n, np.int32, 0, 1)
    gs = groups(S, [S.L(k)], n)
    ds = rt.Dataset({"k": k, "v": np.array(vals[:n])})
    time = rt.DateTimeNano(np.array(T[:n]), from_tz="GMT", to_tz="GMT") if tm == "dt" else rt.FastArray(np.array(T[:n], dtype=tm))
    r = getattr(ds.groupby("k"), op)(time=time, decay_rate=0.5)

    def run(g, c, i):
        last = vals[g[0]] if op != "ema_decay" else vals[g[0]]
        for p, j in zip(g[:c], g[1:c + 1]):
            w = math.exp(-0.5 * (T[j] - T[p]))
            last = vals[j] * (1 - w) + last * w if op == "ema_normal" else vals[j] + last * w
        return last
    for a, b in zip(S.L(r["v"]), put(n, gs, run, None)):
        S.check(abs(float(a) - b) < 1e-5, f"{op}: {a} != {b}")


@scenario(quick=[dict(via=v) for v in ("gb", "cat")], budget=60)
def picked(S, via, n=4):
    """only the selected columns, in their order; the source stays as it was."""
    rt = S.rt
    k, v, i = S.ints("k", n, np.int32, 0, 1), S.floats("v", n, -4, 4, q=0, nan=False), S.ints("i", n, np.int16, -50, 50)
    K, V, I = S.L(k), S.L(v), S.L(i)
    ds = rt.Dataset({"v": v, "k": k, "i": i, "o": rt.arange(n)})
    gs = groups(S, [K], n)
    wi = put(n, gs, lambda g, c, r: isum(S, [I[j] for j in g[:c + 1]]), None)
    wv = put(n, gs, lambda g, c, r: fsum(S, [V[j] for j in g[:c + 1]]), None)
    if via == "gb":
        rs = [ds.groupby("k")[["i", "v"]].cumsum(), ds.groupby("k")["i"].cumsum()]
    else:
        c = rt.Categorical(k)
        rs = [c.cumsum(ds[["i", "v"]]), c.cumsum(ds.i)]
    for r, want in zip(rs, (["i", "v"], ["i"])):
        S.check(list(r.keys()) == want, f"columns {list(r.keys())}")
        S.eq_list(S.L(r["i"]), wi, "running sums of the selected column")
        if "v" in want:
            S.check(S.And(*[S.close(a, b) for a, b in zip(S.L(r["v"]), wv)]), "running sums")
    S.check(list(ds.keys()) == ["v", "k", "i", "o"], "source columns")
    for c, X in (("k", K), ("v", V), ("i", I)):
        S.eq_list(S.L(ds[c]), X, "source unchanged")
