"""As-of joins."""
import numpy as np
from sx.registry import scenario

BOUNDS = "left and right tables of at most 4 rows (thorough 5), keys in a small integer/dyadic range, at most 3 by-groups; selected instances also with every input a stepped or reversed view"

IMPORTS = "from riptable.rt_merge_asof import merge_asof2"


def asc(S, xs):
    for a, b in zip(xs, xs[1:]):
        S.assume(a <= b)


def expected(S, L, R, i, Lb, Rb, direction, exact, tol):
    """index of the matching right row (list of (cond, j)) for left row i."""
    n = len(R)

    def same(j):
        return True if Lb is None else S.eq(Lb[i], Rb[j])

    def back(j):
        c = R[j] <= L[i] if exact else R[j] < L[i]
        return S.And(c, same(j))

    def fwd(j):
        c = R[j] >= L[i] if exact else R[j] > L[i]
        return S.And(c, same(j))

    isb = [S.And(back(j), *[S.Not(back(k)) for k in range(j + 1, n)]) for j in range(n)]
    isf = [S.And(fwd(j), *[S.Not(fwd(k)) for k in range(j)]) for j in range(n)]
    if tol is not None:
        isb = [S.And(c, L[i] - R[j] <= tol) for j, c in enumerate(isb)]
        isf = [S.And(c, R[j] - L[i] <= tol) for j, c in enumerate(isf)]
    if direction == "backward":
        return isb
    if direction == "forward":
        return isf
    anyb, anyf = S.Or(*isb), S.Or(*isf)
    out = []
    for j in range(n):
        # distance of the forward candidate
        fcloser = S.Or(*[S.And(isf[k], isb[b], R[k] - L[i] < L[i] - R[b]) for k in range(n) for b in range(n)])
        out.append(S.Or(S.And(isb[j], S.Not(fcloser)), S.And(isf[j], S.Or(S.Not(anyb), fcloser))))
    return out


def verify(S, ds, L, R, LV, RV, Lb, Rb, direction, exact, tol, rinv, on_inv, msg, matched="m"):
    n = len(L)
    S.check(ds.shape[0] == n, msg + ": row count")
    S.eq_list(S.L(ds["lv"]), LV, msg + ": left column")
    S.eq_list(S.L(ds["k"]), L, msg + ": on column")
    out = S.L(ds["rv"])
    mo = S.L(ds[matched]) if matched else None
    for i in range(n):
        c = expected(S, L, R, i, Lb, Rb, direction, exact, tol)
        S.check(S.And(*[S.Implies(c[j], S.eq(out[i], RV[j])) for j in range(len(R))]), f"{msg}: matched value")
        S.check(S.Implies(S.Not(S.Or(*c)), S.eq(out[i], rinv)), f"{msg}: unmatched row is invalid")
        if matched:
            S.check(S.And(*[S.Implies(c[j], S.eq(mo[i], R[j])) for j in range(len(R))]), f"{msg}: matched_on value")
            S.check(S.Implies(S.Not(S.Or(*c)), S.eq(mo[i], on_inv)), f"{msg}: matched_on invalid when unmatched")


DIRS = ["backward", "forward", "nearest"]


def inst(nl, nr, **kw):
    return [dict(nl=nl, nr=nr, direction=d, exact=e, **kw) for d in DIRS for e in (True, False)]


@scenario(quick=inst(3, 3), thorough=inst(4, 4) + inst(2, 5), budget=40)
def asof2_int(S, nl, nr, direction, exact):
    from riptable.rt_merge_asof import merge_asof2
    rt = S.rt
    k, r = S.ints("k", nl, np.int64, -6, 6), S.ints("r", nr, np.int64, -6, 6)
    tol = S.int("tol", 0, 12)
    asc(S, S.L(k)), asc(S, S.L(r))
    L, R = S.L(k), S.L(r)
    use_tol = S.choose("use_tol", 0, 1)
    rv = rt.FastArray(np.arange(10, 10 + nr, dtype=np.int32))
    lv = rt.FastArray(np.arange(20, 20 + nl, dtype=np.int16))
    left, right = rt.Dataset({"k": k, "lv": lv}), rt.Dataset({"k": r, "rv": rv})
    ds = merge_asof2(left, right, on="k", direction=direction, allow_exact_matches=exact, matched_on="m", tolerance=tol if use_tol else None)
    verify(S, ds, L, R, list(range(20, 20 + nl)), list(range(10, 10 + nr)), None, None, direction, exact, tol if use_tol else None, -2**31, -2**63, "asof")


@scenario(quick=inst(2, 3) + inst(3, 2), thorough=inst(3, 3) + inst(4, 4), budget=60)
def asof2_by(S, nl, nr, direction, exact):
    from riptable.rt_merge_asof import merge_asof2
    rt = S.rt
    k, r = S.ints("k", nl, np.int32, 0, 9), S.ints("r", nr, np.int32, 0, 9)
    b, c = S.ints("b", nl, np.int16, 0, 2), S.ints("c", nr, np.int16, 0, 2)
    tol = S.int("tol", 0, 12)
    asc(S, S.L(k)), asc(S, S.L(r))
    L, R, Lb, Rb = S.L(k), S.L(r), S.L(b), S.L(c)
    use_tol = S.choose("use_tol", 0, 1)
    rv = rt.FastArray(np.arange(10, 10 + nr, dtype=np.float64))
    lv = rt.FastArray(np.arange(20, 20 + nl, dtype=np.int16))
    left, right = rt.Dataset({"k": k, "b": b, "lv": lv}), rt.Dataset({"k": r, "b": c, "rv": rv})
    ds = merge_asof2(left, right, on="k", by="b", direction=direction, allow_exact_matches=exact, matched_on="m", tolerance=tol if use_tol else None)
    verify(S, ds, L, R, list(range(20, 20 + nl)), [float(x) for x in range(10, 10 + nr)], Lb, Rb, direction, exact, tol if use_tol else None, float("nan"), -2**31, "asof by")


@scenario(quick=inst(2, 3) + inst(3, 2), thorough=inst(3, 3) + inst(4, 4), budget=60)
def asof2_by_str_float(S, nl, nr, direction, exact):
    """string by-keys, float on-column, different column names, selected columns."""
    from riptable.rt_merge_asof import merge_asof2
    rt = S.rt
    k, r = S.floats("k", nl, -3, 3, q=1, nan=False), S.floats("r", nr, -3, 3, q=1, nan=False)
    b, c = S.strs("b", nl, 1, b"xy"), S.strs("c", nr, 1, b"xy")
    asc(S, S.L(k)), asc(S, S.L(r))
    L, R, Lb, Rb = S.L(k), S.L(r), S.L(b), S.L(c)
    rv = S.ints("rv", nr, np.int16, -3, 3, inv=True)
    RV = S.L(rv)
    left = rt.Dataset({"k": k, "b": b, "lv": rt.arange(nl)})
    right = rt.Dataset({"t": r, "c": c, "rv": rv, "junk": rt.arange(nr)})
    ds = merge_asof2(left, right, on=("k", "t"), left_by=["b"], right_by=["c"], direction=direction, allow_exact_matches=exact, matched_on="m", columns_right=["rv"])
    S.check(sorted(ds.keys()) == ["b", "k", "lv", "m", "rv"], "selected columns")
    verify(S, ds, L, R, list(range(nl)), RV, Lb, Rb, direction, exact, None, -2**15, float("nan"), "asof by str")


@scenario(quick=inst(3, 3, by=True) + inst(3, 3, by=False), thorough=inst(4, 4, by=True), budget=60)
def asof_any_order(S, nl, nr, direction, exact, by):
    """merge_asof on unsorted inputs behaves as if sorted stably, and keeps the left row order."""
    rt = S.rt
    k, r = S.ints("k", nl, np.int64, -4, 4), S.ints("r", nr, np.int64, -4, 4)
    b, c = (S.ints("b", nl, np.int32, 0, 1), S.ints("c", nr, np.int32, 0, 1)) if by else (None, None)
    L, R = S.L(k), S.L(r)
    Lb, Rb = (S.L(b), S.L(c)) if by else (None, None)
    left, right = rt.Dataset({"k": k, "lv": rt.arange(nl)}), rt.Dataset({"k": r, "rv": rt.arange(nr).astype(np.int32) + 10})
    if by:
        left.b, right.b = b, c
    ds = rt.merge_asof(left, right, on="k", by="b" if by else None, direction=direction, allow_exact_matches=exact, matched_on=True)
    # expected match in the stably sorted right table
    n = len(R)
    S.check(ds.shape[0] == nl, "row count")
    S.eq_list(S.L(ds["lv"]), list(range(nl)), "left column")
    S.eq_list(S.L(ds["k"]), L, "on column")
    out, mo = S.L(ds["rv"]), S.L(ds["matched_on"])

    def before(j, m):  # j precedes m in the sorted order
        return R[j] < R[m] if m < j else R[j] <= R[m]

    for i in range(nl):
        same = [True if not by else S.eq(Lb[i], Rb[j]) for j in range(n)]
        bk = [S.And(same[j], (R[j] <= L[i]) if exact else (R[j] < L[i])) for j in range(n)]
        fw = [S.And(same[j], (R[j] >= L[i]) if exact else (R[j] > L[i])) for j in range(n)]
        isb = [S.And(bk[j], *[S.Implies(bk[m], before(m, j)) for m in range(n) if m != j]) for j in range(n)]
        isf = [S.And(fw[j], *[S.Implies(fw[m], before(j, m)) for m in range(n) if m != j]) for j in range(n)]
        if direction == "backward":
            c = isb
        elif direction == "forward":
            c = isf
        else:
            anyb = S.Or(*isb)
            closer = S.Or(*[S.And(isf[p], isb[q], R[p] - L[i] < L[i] - R[q]) for p in range(n) for q in range(n)])
            c = [S.Or(S.And(isb[j], S.Not(closer)), S.And(isf[j], S.Or(S.Not(anyb), closer))) for j in range(n)]
        S.check(S.And(*[S.Implies(c[j], S.And(S.eq(out[i], 10 + j), S.eq(mo[i], R[j]))) for j in range(n)]), "matched value")
        S.check(S.Implies(S.Not(S.Or(*c)), S.And(S.eq(out[i], -2**31), S.eq(mo[i], -2**63))), "unmatched row is invalid")


@scenario(quick=[dict(n=3, side=s) for s in ("left", "right")], budget=30)
def asof_raise_unsorted(S, n, side):
    """action_on_unsorted='raise' raises exactly when an on column is unsorted."""
    rt = S.rt
    k = S.ints("k", n, np.int64, -4, 4)
    K = S.L(k)
    srt = S.And(*[x <= y for x, y in zip(K, K[1:])])
    a, b = rt.Dataset({"k": k, "v": rt.arange(n)}), rt.Dataset({"k": rt.arange(n), "w": rt.arange(n)})
    if side == "right":
        a, b = b, a
    raised, r = S.raises(ValueError, lambda: rt.merge_asof(a, b, on="k", action_on_unsorted="raise"))
    S.check(S.Not(srt) if raised else srt, "raises exactly when unsorted")


@scenario(quick=[dict(side=s, direction=d, by=b) for s in ("left", "right") for d in DIRS for b in (False, True)], budget=40)
def asof2_unsorted(S, side, direction, by, n=3):
    """out-of-order keys that the join has to pass over are reported, sorted ones never are."""
    from riptable.rt_merge_asof import merge_asof2
    rt = S.rt
    k = S.ints("k", n, np.int64, -4, 4)
    K = S.L(k)
    srt = S.And(*[x <= y for x, y in zip(K, K[1:])])
    g = np.zeros(n, np.int32)
    other = np.array([-9, 9]) if side == "left" else np.array([9, 9] if direction == "backward" else [-9, -9] if direction == "forward" else [-9, 9])
    a, b = rt.Dataset({"k": k, "v": rt.arange(n)}), rt.Dataset({"k": rt.FastArray(other), "w": rt.arange(2)})
    if by:
        a.g, b.g = g, g[:2]
    if side == "right":
        a, b = b, a
    raised, _ = S.raises(ValueError, lambda: merge_asof2(a, b, on="k", by="g" if by else None, direction=direction))
    S.check(S.Not(srt) if raised else srt, "raises exactly when unsorted")


@scenario(quick=[dict(direction=d, unit=u, tol=t) for d, t in zip(DIRS, (2001, 2999, 1)) for u in ("timespan", "timedelta")], budget=40)
def asof2_time(S, direction, unit, tol, nl=2, nr=3):
    """time keys with a duration as tolerance."""
    import datetime
    from riptable.rt_merge_asof import merge_asof2
    rt = S.rt
    base = 10**18
    k, r = S.ints("k", nl, np.int64, base, base + 9000), S.ints("r", nr, np.int64, base, base + 9000)
    asc(S, S.L(k)), asc(S, S.L(r))
    L, R = S.L(k), S.L(r)
    t = tol if unit == "timespan" else tol // 1000 * 1000
    tol = rt.TimeSpan([float(t)])[0] if unit == "timespan" else datetime.timedelta(microseconds=t // 1000)
    left = rt.Dataset({"k": rt.DateTimeNano(k, from_tz="GMT", to_tz="GMT"), "lv": rt.arange(nl)})
    right = rt.Dataset({"k": rt.DateTimeNano(r, from_tz="GMT", to_tz="GMT"), "rv": rt.arange(nr).astype(np.int32)})
    ds = merge_asof2(left, right, on="k", direction=direction, tolerance=tol, matched_on="m")
    S.check(type(ds["m"]).__name__ == "DateTimeNano", "the matched key keeps its type")
    verify(S, ds, L, R, list(range(nl)), list(range(nr)), None, None, direction, True, t, -2**31, -2**63, "asof time")


BYS = ["multi", "cat", "cat-str", "catf", "date", "multicat", "f8nan"]


@scenario(quick=[dict(api=a, by=b, direction=d, nl=2, nr=3 if b in ('multi', 'catf', 'date') else 2) for a in (1, 2) for b, d in zip(BYS, DIRS + DIRS + DIRS) if (a, b) != (1, "f8nan")] +
                [dict(api=a, by=b, direction=d, nl=x, nr=y) for a in (1, 2) for b, d, x, y in ((None, "backward", 2, 0), ("multi", "forward", 2, 0), ("multi", "nearest", 0, 1), ("cat", "forward", 0, 2))],
          thorough=[dict(api=a, by=b, direction=d, nl=2, nr=3) for a in (1, 2) for b in BYS for d in DIRS if (a, b) != (1, "f8nan")], budget=60)
def asof_columns(S, api, by, direction, nl, nr):
    """every kind of right column and of group key; overlapping names; the older function also takes rows in any order."""
    from riptable.rt_merge_asof import merge_asof2
    rt = S.rt
    k, r = S.ints("k", nl, np.int32, 0, 4), S.ints("r", nr, np.int32, 0, 4)
    if api == 2:
        asc(S, S.L(k)), asc(S, S.L(r))
    L, R = S.L(k), S.L(r)
    left, right = rt.Dataset({"k": k, "v": rt.arange(nl), "lv": rt.arange(nl)}), rt.Dataset({"k": r})
    names, keys = [], None
    if by == "multi":
        b1, c1 = S.ints("b1", nl, np.int16, 0, 1), S.ints("c1", nr, np.int16, 0, 1)
        b2, c2 = S.strs("b2", nl, 1, b"xy"), S.strs("c2", nr, 1, b"xy")
        left.b, left.b2, right.b, right.b2 = b1, b2, c1, c2
        names = ["b", "b2"]
        B1, C1, B2, C2 = S.L(b1), S.L(c1), S.L(b2), S.L(c2)
        same = lambda i, j: S.And(S.eq(B1[i], C1[j]), S.eq(B2[i], C2[j]))
    elif by in ("cat", "catf", "cat-str"):
        b1, c1 = S.strs("b1", nl, 1, b"xy"), S.strs("c1", nr, 1, b"xyz")
        B1, C1 = S.L(b1), S.L(c1)
        m = S.bools("m", nl) if by == "catf" else None
        left.b = rt.Categorical(b1, filter=m)
        right.b = c1 if by == "cat-str" else rt.Categorical(c1, ordered=False)
        names = ["b"]
        M = S.L(m) if m is not None else [True] * nl
        same = lambda i, j: S.And(M[i], S.eq(B1[i], C1[j]))
    elif by == "date":
        b1, c1 = S.ints("b1", nl, np.int32, 1, 2), S.ints("c1", nr, np.int32, 1, 2)
        B1, C1 = S.L(b1), S.L(c1)
        left.b, right.b = rt.Date(b1), rt.Date(c1)
        names = ["b"]
        same = lambda i, j: S.And(S.eq(B1[i], C1[j]), B1[i] > 0)
    elif by == "multicat":
        b1, c1 = S.strs("b1", nl, 1, b"xy"), S.strs("c1", nr, 1, b"xy")
        b2, c2 = S.ints("b2", nl, np.int32, 0, 1), S.ints("c2", nr, np.int32, 0, 1)
        left.b, left.b2, right.b, right.b2 = rt.Categorical(b1), b2, rt.Categorical(c1, ordered=False), c2
        names = ["b", "b2"]
        B1, C1, B2, C2 = S.L(b1), S.L(c1), S.L(b2), S.L(c2)
        same = lambda i, j: S.And(S.eq(B1[i], C1[j]), S.eq(B2[i], C2[j]))
    elif by == "f8nan":
        b1, c1 = S.floats("b1", nl, 0, 1, q=0), S.floats("c1", nr, 0, 1, q=0)
        B1, C1 = S.L(b1), S.L(c1)
        left.b, right.b = b1, c1
        names = ["b"]
        same = lambda i, j: S.And(S.Not(S.isnan(B1[i])), S.eq(B1[i], C1[j]))
    else:
        same = lambda i, j: True
    right.v = rt.FastArray(np.arange(10, 10 + nr, dtype=np.int16))
    right.s = rt.FastArray(np.array(["p", "qq", "r"][:nr], dtype="S3"))
    right.u = rt.FastArray(np.array(["p", "qq", "r"][:nr], dtype="U3"))
    right.c = rt.Categorical(np.array([1, 2, 1][:nr], np.int8), ["aa", "b"])
    right.d = rt.Date(np.array([5, 6, 7][:nr], np.int32))
    right.t = rt.DateTimeNano(np.array([10**18, 10**18 + 1, 10**18 + 2][:nr]), from_tz="NYC", to_tz="NYC")
    right.f = rt.FastArray(np.array([0.5, 1.5, 2.5][:nr], dtype=np.float32))
    cols = {"v_r": list(range(10, 10 + nr)), "s": [b"p", b"qq", b"r"], "u": ["p", "qq", "r"], "c": [1, 2, 1], "d": [5, 6, 7], "f": [0.5, 1.5, 2.5]}
    inv = {"v_r": -2**15, "s": b"", "u": "", "c": 0, "d": -2**31, "f": float("nan")}
    kw = dict(on="k", by=names or None, direction=direction, suffixes=("", "_r"), matched_on="m")
    ds = merge_asof2(left, right, **kw) if api == 2 else rt.merge_asof(left, right, **kw)
    S.check(ds.shape[0] == nl, "row count")
    S.check(sorted(ds.keys()) == sorted(["k", "lv", "v", "v_r", "s", "u", "c", "d", "t", "f", "m"] + names), "columns of both tables")
    S.check(type(ds["c"]).__name__ == "Categorical" and type(ds["d"]).__name__ == "Date" and type(ds["t"]).__name__ == "DateTimeNano" and ds["t"]._timezone._to_tz == "America/New_York", "types of the right columns")
    S.eq_list(S.L(ds["v"]), list(range(nl)), "left column of an overlapping name")
    S.eq_list(S.L(ds["k"]), L, "on column")
    out = {c: S.L(ds[c] if c not in ("c", "d") else ds[c]._fa) for c in cols}
    out["t"] = S.L(ds["t"]._fa)
    cols["t"] = None

    def before(j, m):
        return R[j] < R[m] if m < j else R[j] <= R[m]
    for i in range(nl):
        bk = [S.And(same(i, j), R[j] <= L[i]) for j in range(nr)]
        fw = [S.And(same(i, j), R[j] >= L[i]) for j in range(nr)]
        isb = [S.And(bk[j], *[S.Implies(bk[m], before(m, j)) for m in range(nr) if m != j]) for j in range(nr)]
        isf = [S.And(fw[j], *[S.Implies(fw[m], before(j, m)) for m in range(nr) if m != j]) for j in range(nr)]
        if direction == "nearest":
            anyb = S.Or(*isb)
            closer = S.Or(*[S.And(isf[p], isb[q], R[p] - L[i] < L[i] - R[q]) for p in range(nr) for q in range(nr)])
            c = [S.Or(S.And(isb[j], S.Not(closer)), S.And(isf[j], S.Or(S.Not(anyb), closer))) for j in range(nr)]
        else:
            c = isb if direction == "backward" else isf
        for nm in cols:
            if nm == "t":
                ref = S.L(right.t._fa)
                S.check(S.And(*[S.Implies(c[j], S.eq(out[nm][i], ref[j])) for j in range(nr)]), "matched value (time)")
                S.check(S.Implies(S.Not(S.Or(*c)), out[nm][i] <= 0), "unmatched row is invalid (time)")
                continue
            S.check(S.And(*[S.Implies(c[j], S.eq(out[nm][i], cols[nm][j])) for j in range(nr)]), f"matched value {nm}")
            S.check(S.Implies(S.Not(S.Or(*c)), S.eq(out[nm][i], inv[nm])), f"unmatched row is invalid {nm}")
