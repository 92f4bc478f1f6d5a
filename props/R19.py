"""Two-way accumulations: each cell, margin and ratio aggregates exactly its own rows."""
import warnings
import numpy as np
from sx.registry import scenario
from props.common import *

BOUNDS = "2-4 rows with symbolic row keys, column keys (text or whole numbers, 2 values each, also 3 in any order), data incl. invalids, a row filter, per-axis filters, ordered / first-appearance / sorted-display keys; margins of min/max only in the invalid-skipping form; selected instances also with every input a stepped or reversed view"


def keycol(S, name, n, kind):
    return S.strs(name, n, 1, b"ab", minlen=1) if kind == "S" else S.ints(name, n, np.int32, 0, 1)


def label(x):
    return x.decode() if isinstance(x, bytes) else str(x)


def axis(S, name, n, kind, order, filt):
    """(categorical, key per row or None, displayed keys as concrete labels)"""
    rt = S.rt
    k = keycol(S, name, n, kind)
    K = [S.concrete(x) if kind != "S" else (b"a" if bool(S.eq(x, b"a")) else b"b") for x in S.L(k)]
    m = [bool(b) for b in S.L(f)] if filt and (f := S.bools(name + "_f", n)) is not None else None
    kw = {} if m is None else dict(filter=f)
    k = S.fa(K, "S1" if kind == "S" else np.int32)  # one fork per key assignment; the data stay symbolic
    if order == "base0":
        kw["base_index"] = 0
    c = rt.Categorical(k, ordered=order in ("sorted", "base0"), sort_gb=order == "display", **kw)
    K = [x if m is None or m[i] else None for i, x in enumerate(K)]
    seen = []
    for x in K:
        if x is not None and x not in seen:
            seen.append(x)
    if order != "first":
        seen = sorted(seen)
    return c, K, seen


def agg(S, fn, xs, dt):
    """aggregate of the rows' values"""
    fl = np.dtype(dt).kind == "f"
    if fn == "count":
        return len(xs)
    good = [x for x in xs if not bool(is_inv(S, x, dt))]
    if fn in ("nansum", "sum"):
        if fn == "sum" and len(good) < len(xs):
            return NAN
        return fsum(S, good) if fl else isum(S, good)
    if not good or (fn == "mean" and len(good) < len(xs)):
        return NAN
    if fn in ("mean", "nanmean"):
        return (fsum(S, good) if fl else S.float_of(isum(S, good))) / len(good)
    if fn in ("min", "max") and len(good) < len(xs):
        return NAN
    return fmin(S, good, fn.endswith("max"))


def same(S, got, want, what):
    if isinstance(want, float) and want != want:
        S.check(S.isnan(got) if isinstance(got, (float, np.floating)) or "Float" in type(got).__name__ else got == inv_val(getattr(got, "dtype", getattr(got, "dt", np.int64))), what)
    else:
        S.check(S.close(got, want) if isinstance(want, (float, np.floating)) or "Float" in type(want).__name__ else S.eq(got, want), what)


def table(S, ds, name, rows, cols, RK, CK, ok, X, fn, dt, margins=True, one=None):
    """cells, margins and grand total of a result table; name: the margin's name."""
    n = len(X)
    keys = [label(x) for x in S.L(ds[0].expand_array if hasattr(ds[0], "expand_array") else ds[0])]
    S.check(keys == [label(r) for r in rows], "row labels are the row keys in order")
    names = [str(k) for k in ds.keys()[1:]]
    S.check(names == [label(c) for c in cols] + ([name] if margins else []), "column names are the column keys in order")
    if names != [label(c) for c in cols] + ([name] if margins else []) or len(keys) != len(rows):
        return
    for c in cols:
        G = S.L(ds[label(c)])
        for j, r in enumerate(rows):
            same(S, G[j], agg(S, fn, [X[i] for i in range(n) if ok[i] and RK[i] == r and CK[i] == c], dt), "cell aggregates its own rows")
    if not margins:
        return
    G = S.L(ds[name])
    shown = [i for i in range(n) if ok[i] and RK[i] is not None and CK[i] is not None]
    for j, r in enumerate(rows):
        same(S, G[j], agg(S, fn, [X[i] for i in shown if RK[i] == r], dt), "row margin")
    foot = ds.footer_get_dict()
    S.check(list(foot) == [name], "footer name")
    foot = foot[name]
    for c in cols:
        same(S, foot[label(c)], agg(S, fn, [X[i] for i in shown if CK[i] == c], dt), "column margin")
    if shown:
        xs = [X[i] for i in shown]
        if fn != "nanmean" or any(not bool(is_inv(S, x, dt)) for x in xs):  # nanmean of nothing valid is not promised
            same(S, foot[name], agg(S, fn, xs, dt), "grand total")


MARGIN = dict(sum="Total", nansum="Nansum", mean="Mean", nanmean="Nanmean", nanmin="Nanmin", nanmax="Nanmax", count="Count", min="Min", max="Max")


@scenario(quick=[dict(fn=f, dt=d, n=n, kind=k, order=o, filt=fl, own=w, axf=a) for f, d, n, k, o, fl, w, a in (
              ("sum", "f8", 3, "S", "sorted", False, False, ""), ("sum", "i4", 2, "i", "first", True, False, ""), ("nansum", "f8", 3, "i", "display", False, True, ""),
              ("mean", "f8", 3, "S", "display", False, False, ""), ("nanmean", "f8", 2, "S", "sorted", False, False, "rc"), ("nanmean", "f8", 3, "i", "first", True, False, ""),
              ("nanmin", "f8", 3, "S", "display", False, False, ""), ("nanmax", "i4", 2, "S", "first", True, True, ""), ("sum", "f8", 2, "S", "display", False, False, "rc"),
              ("mean", "i4", 3, "i", "sorted", False, False, "c"), ("mean", "f8", 2, "S", "first", True, False, "r"), ("nansum", "i4", 3, "S", "first", False, False, "r"),
              ("min", "f8", 3, "S", "sorted", False, False, ""), ("max", "i4", 3, "S", "display", False, False, ""),
              ("mean", "f8", 2, "S", "first", True, True, ""), ("nanmean", "f8", 2, "i", "display", True, True, ""), ("mean", "f8", 3, "S", "base0", False, False, ""), ("sum", "i4", 2, "i", "base0", True, False, ""))],
          thorough=[dict(fn=f, dt="f8", n=3, kind="S", order=o, filt=True, own=False, axf=a) for f in ("sum", "mean", "nanmean", "nanmax") for o in ("sorted", "first", "display") for a in ("", "rc")], budget=60)
def cells(S, fn, dt, n, kind, order, filt, own, axf):
    """cells and margins of a two-way aggregation."""
    rt = S.rt
    rows, RK, RS = axis(S, "r", n, kind, order, "r" in axf)
    cols, CK, CS = axis(S, "c", n, kind, order, "c" in axf)
    v = col(S, "v", n, dt, inv=fn.startswith("nan"), lo=0, hi=3)
    X = S.L(v)
    ok, kw, mk = [True] * n, {}, {}
    if filt:
        m = S.bools("m", n)
        ok = [a and bool(b) for a, b in zip(ok, S.L(m))]
        kw["filter"] = m
    if own:
        m2 = S.bools("m2", n)
        ok = [a and bool(b) for a, b in zip(ok, S.L(m2))]
        mk["filter"] = m2
    if not RS or not CS or not any(ok[i] and RK[i] is not None and CK[i] is not None for i in range(n)):
        return
    a = rt.Accum2(rows, cols, **mk)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ds = getattr(a, fn)(v, **kw)
    if fn in ("min", "max"):  # a margin over an empty cell is not promised
        ds = ds[:, :-1]
    table(S, ds, MARGIN[fn], RS, CS, RK, CK, ok, X, fn, dt, margins=fn not in ("min", "max"))
    S.eq_list(S.L(v), X, "source unchanged")


@scenario(quick=[dict(n=n, order=o, filt=f, own=w, axf=a) for n, o, f, w, a in ((3, "sorted", False, False, ""), (3, "display", False, True, ""), (2, "first", True, False, "r"), (3, "first", True, False, ""), (2, "display", True, False, "rc"))],
          thorough=[dict(n=3, order=o, filt=True, own=True, axf=a) for o in ("sorted", "first", "display") for a in ("", "rc")], budget=60)
def counts(S, n, order, filt, own, axf):
    """row counts per cell."""
    rt = S.rt
    rows, RK, RS = axis(S, "r", n, "S", order, "r" in axf)
    cols, CK, CS = axis(S, "c", n, "S", order, "c" in axf)
    ok, kw, mk = [True] * n, {}, {}
    if filt:
        m = S.bools("m", n)
        ok = [bool(b) for b in S.L(m)]
        kw["filter"] = m
    if own:
        m2 = S.bools("m2", n)
        ok = [a and bool(b) for a, b in zip(ok, S.L(m2))]
        mk["filter"] = m2
    if not RS or not CS:
        return
    ds = rt.Accum2(rows, cols, **mk).count(**kw)
    tot = str(ds.keys()[-1])
    table(S, ds, tot, RS, CS, RK, CK, ok, [0] * n, "count", "i8")


@scenario(quick=[dict(n=n, order=o, red=r) for n, o, r in ((3, "sorted", "sum"), (3, "display", "max"), (3, "first", "sum"))], thorough=[dict(n=4, order=o, red="sum") for o in ("sorted", "display", "first")], budget=60)
def user(S, n, order, red):
    """a user function applied per cell."""
    rt = S.rt
    rows, RK, RS = axis(S, "r", n, "S", order, False)
    cols, CK, CS = axis(S, "c", n, "S", order, False)
    v = col(S, "v", n, "f8", lo=0, hi=3)
    X = S.L(v)
    f = (lambda x: x.sum()) if red == "sum" else (lambda x: x.max())
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ds = rt.Accum2(rows, cols).apply_reduce(f, v)
    ref = lambda xs: NAN if not xs else (fsum(S, xs) if red == "sum" else fmin(S, xs, True))
    for c in CS:
        G = S.L(ds[label(c)])
        for j, r in enumerate(RS):
            same(S, G[j], ref([X[i] for i in range(n) if RK[i] == r and CK[i] == c]), "cell of a user function")
    name = str(ds.keys()[-1])
    G, foot = S.L(ds[name]), ds.footer_get_dict()[name]
    for j, r in enumerate(RS):
        same(S, G[j], ref([X[i] for i in range(n) if RK[i] == r]), "row margin of a user function")
    for c in CS:
        same(S, foot[label(c)], ref([X[i] for i in range(n) if CK[i] == c]), "column margin of a user function")
    same(S, foot[name], ref(X), "grand total of a user function")


@scenario(quick=[dict(n=2 if f else 3, filt=f, two=t, nm=m) for f, t, m in ((False, True, False), (True, True, False), (False, False, False), (False, True, True))], thorough=[dict(n=3, filt=True, two=True, nm=m) for m in (False, True)], budget=60)
def ratio(S, n, filt, two, nm):
    """accum_ratio: quotient of two aggregates, cell by cell and in the margins."""
    rt = S.rt
    rows, RK, RS = axis(S, "r", n, "S", "sorted", False)
    if two:
        cols, CK, CS = axis(S, "c", n, "S", "sorted", False)
        if nm:  # a column key that collides with a margin name
            cols = rt.Categorical([{b"a": "Numer", b"b": "z"}[k] for k in CK])
            CK = [{b"a": b"Numer", b"b": b"z"}[k] for k in CK]
            CS = sorted(set(CK))
    else:
        cols, CK, CS = None, [b"NotGrouped"] * n, [b"NotGrouped"]
    v, w = S.floats("v", n, 0, 3, q=0, nan=False), S.floats("w", n, 1, 3, q=0, nan=False)
    X, Y = S.L(v), S.L(w)
    ok1 = ok2 = [True] * n
    kw = {}
    if filt:
        m1, m2 = S.bools("m1", n), S.bools("m2", n)
        ok1, ok2 = [bool(b) for b in S.L(m1)], [bool(b) for b in S.L(m2)]
        kw = dict(filt1=m1, filt2=m2)
    before_ = [label(x) for x in cols.category_array] if two else None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ds = rt.accum_ratio(rows, cols, v, w, include_numer=True, **kw) if two else rt.accum_ratio(rows, val1=v, val2=w, include_numer=True, **kw)
    if two:
        S.check([label(x) for x in cols.category_array] == before_, "the caller's categories are left alone")
    shownc = {c: ("Numer_" if label(c) == "Numer" else label(c)) for c in CS}
    S.check([str(k) for k in ds.keys()[1:]] == [shownc[c] for c in CS] + ["Ratio", "Numer", "Denom"], "columns")

    def q(rs):
        a, b = fsum(S, [X[i] for i in rs if ok1[i]]), fsum(S, [Y[i] for i in rs if ok2[i]])
        return a, b, (NAN if not any(ok2[i] for i in rs) else a / b)
    def cmp(got, want, what):
        if isinstance(want, float) and want != want:
            return  # division by zero: infinite or invalid
        S.check(S.close(got, want), what)
    foot = ds.footer_get_dict()
    for c in CS:
        for j, r in enumerate(RS):
            cmp(S.L(ds[shownc[c]])[j], q([i for i in range(n) if RK[i] == r and CK[i] == c])[2], "ratio cell")
        a, b, z = q([i for i in range(n) if CK[i] == c])
        cmp(foot["Ratio"][shownc[c]], z, "ratio column margin")
        cmp(foot["Numer"][shownc[c]], a, "numerator margin")
        cmp(foot["Denom"][shownc[c]], b, "denominator margin")
    for j, r in enumerate(RS):
        a, b, z = q([i for i in range(n) if RK[i] == r])
        cmp(S.L(ds["Ratio"])[j], z, "ratio row margin")
        cmp(S.L(ds["Numer"])[j], a, "numerator row margin")
        cmp(S.L(ds["Denom"])[j], b, "denominator row margin")
    a, b, z = q(range(n))
    cmp(foot["Ratio"]["Ratio"], z, "overall ratio")
    cmp(foot["Numer"]["Numer"], a, "overall numerator")
    cmp(foot["Denom"]["Denom"], b, "overall denominator")


@scenario(quick=[dict(n=3, by=b, filt=f) for b, f in (("T", False), ("R", False), ("C", False), ("r", True), ("c", True))], thorough=[dict(n=4, by=b, filt=True) for b in "TRC"], budget=60)
def percent(S, n, by, filt):
    """accum_ratiop: percentages of the grand total, the row or the column."""
    rt = S.rt
    rows, RK, RS = axis(S, "r", n, "S", "sorted", False)
    cols, CK, CS = axis(S, "c", n, "S", "sorted", False)
    v = S.floats("v", n, 1, 4, q=0, nan=False)
    X = S.L(v)
    ok, kw = [True] * n, {}
    if filt:
        m = S.bools("m", n)
        ok, kw = [bool(b) for b in S.L(m)], dict(filter=m)
    if not any(ok):
        return
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ds = rt.accum_ratiop(rows, cols, v, norm_by=by, **kw)
    sm = lambda rs: fsum(S, [X[i] for i in rs if ok[i]])
    tot = sm(range(n))
    foot = ds.footer_get_dict()
    b = by.upper()
    for c in CS:
        cc = [i for i in range(n) if CK[i] == c]
        for j, r in enumerate(RS):
            rr = [i for i in range(n) if RK[i] == r]
            base = dict(T=range(n), R=rr, C=cc)[b]
            if any(ok[i] for i in base):
                S.check(S.close(S.L(ds[label(c)])[j], 100 * sm([i for i in rr if CK[i] == c]) / sm(base)), "percentage cell")
        S.check(S.close(foot["TotalRatio"][label(c)], 100.0 if b == "C" else 100 * sm(cc) / tot), "percentage column margin")
        S.check(S.close(foot["Total"][label(c)], sm(cc)), "column total")
    for j, r in enumerate(RS):
        rr = [i for i in range(n) if RK[i] == r]
        if b != "R" or any(ok[i] for i in rr):
            S.check(S.close(S.L(ds["TotalRatio"])[j], 100 * sm(rr) / (sm(rr) if b == "R" else tot)), "percentage row margin")
        S.check(S.close(S.L(ds["Total"])[j], sm(rr)), "row total")
    S.check(S.close(foot["Total"]["Total"], tot), "grand total")


@scenario(quick=[dict(n=3, filt=False), dict(n=3, filt=True)], thorough=[dict(n=4, filt=True)], budget=60)
def columns(S, n, filt):
    """accum_cols: one aggregate, ratio or percentage per column."""
    rt = S.rt
    rows, RK, RS = axis(S, "r", n, "S", "sorted", False)
    v, w = S.floats("v", n, 1, 3, q=0, nan=False), S.floats("w", n, 1, 3, q=0, nan=False)
    X, Y = S.L(v), S.L(w)
    ok, kw = [True] * n, {}
    if filt:
        m = S.bools("m", n)
        ok, kw = [bool(b) for b in S.L(m)], dict(filt_list=m)
    if not any(ok):
        return
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ds = rt.accum_cols(rows, [v, [v, w], [v, "p"], w], ["s", "q", "p", "mx"], func_list=["nansum", "nansum", "nansum", "nanmax"], **kw)
    S.check([str(k) for k in ds.keys()[1:]] == ["s", "q", "p", "mx"], "columns")
    S.check([label(x) for x in S.L(ds[0].expand_array if hasattr(ds[0], "expand_array") else ds[0])] == [label(r) for r in RS], "row labels")
    sm = lambda Z, rs: fsum(S, [Z[i] for i in rs if ok[i]])
    foot = ds.footer_get_dict()["Total"]
    for j, r in enumerate(RS):
        rr = [i for i in range(n) if RK[i] == r]
        S.check(S.close(S.L(ds["s"])[j], sm(X, rr)), "sum column")
        if any(ok[i] for i in rr):
            S.check(S.close(S.L(ds["p"])[j], 100 * sm(X, rr) / sm(X, range(n))), "percentage column")
            S.check(S.close(S.L(ds["q"])[j], sm(X, rr) / sm(Y, rr)), "ratio column")
            S.check(S.close(S.L(ds["mx"])[j], fmin(S, [Y[i] for i in rr if ok[i]], True)), "maximum column")
    S.check(S.close(foot["s"], sm(X, range(n))), "sum footer")
    S.check(S.close(foot["q"], sm(X, range(n)) / sm(Y, range(n))), "ratio footer")
    S.check(S.close(foot["p"], 100 * sm(X, range(n)) / sm(X, range(n))), "percentage footer")
    S.check(S.close(foot["mx"], fmin(S, [Y[i] for i in range(n) if ok[i]], True)), "maximum footer")


@scenario(quick=[dict(n=3, blanks=b) for b in (False, True)], thorough=[dict(n=4, blanks=b) for b in (False, True)], budget=60)
def margins(S, n, blanks):
    """AccumTable: margins of other aggregates beside the chosen table."""
    rt = S.rt
    rows, RK, RS = axis(S, "r", n, "S", "sorted", False)
    cols, CK, CS = axis(S, "c", n, "S", "sorted", False)
    v = S.floats("v", n, 0, 3, q=0, nan=False)
    X = S.L(v)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a = rt.AccumTable(rows, cols)
        a["S"] = a.sum(v)
        a["M"] = a.nanmean(v)
        a["N"] = a.nanmax(v)
        a.set_margin_columns(["M", "N"])
        a.set_footer_rows(["M"])
        ds = a.gen("S", remove_blanks=blanks)
    sm = lambda rs: fsum(S, [X[i] for i in rs])
    at = lambda ks, k: [i for i in range(n) if ks[i] == k]
    # blank rows and columns hold only zeros
    keepr = [r for r in RS if not blanks or any(bool(sm([i for i in at(RK, r) if CK[i] == c]) != 0) for c in CS)]
    keepc = [c for c in CS if not blanks or any(bool(sm([i for i in at(CK, c) if RK[i] == r]) != 0) for r in RS)]
    if not keepr:
        return
    S.check([str(k) for k in ds.keys()[1:]] == [label(c) for c in keepc] + ["S", "M", "N"], "columns")
    S.check([label(x) for x in S.L(ds[0].expand_array if hasattr(ds[0], "expand_array") else ds[0])] == [label(r) for r in keepr], "row labels")
    foot = ds.footer_get_dict()
    for j, r in enumerate(keepr):
        rr = at(RK, r)
        S.check(S.close(S.L(ds["S"])[j], sm(rr)), "own margin column")
        S.check(S.close(S.L(ds["M"])[j], sm(rr) / len(rr)), "second margin column")
        S.check(S.close(S.L(ds["N"])[j], fmin(S, [X[i] for i in rr], True)), "third margin column")
        for c in keepc:
            S.check(S.close(S.L(ds[label(c)])[j], sm([i for i in rr if CK[i] == c])), "table cell")
    for c in keepc:
        S.check(S.close(foot["S"][label(c)], sm(at(CK, c))), "own footer")
        S.check(S.close(foot["M"][label(c)], sm(at(CK, c)) / len(at(CK, c))), "second footer")


@scenario(quick=[dict(fn=f, order=o) for f in ("sum", "nanmean", "nanmax") for o in ("display", "sorted", "first")], budget=60)
def wide(S, fn, order, n=4):
    """three keys on each axis, in any order of appearance: every cell and margin sits under its own labels."""
    rt = S.rt
    perms = [(0, 1, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0), (0, 2, 1)]
    P, Q = S.pick("rows", perms), S.pick("cols", perms)
    RK = [b"abc"[i : i + 1] for i in P] + [b"a"]
    CK = [b"xyz"[i : i + 1] for i in Q] + [b"z"]
    v = col(S, "v", n, "f8", inv=True, lo=0, hi=3)
    X = S.L(v)
    mk = lambda K: rt.Categorical(S.fa(K, "S1"), ordered=order == "sorted", sort_gb=order == "display")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ds = getattr(rt.Accum2(mk(RK), mk(CK)), fn)(v)
    seen = lambda K: sorted(set(K)) if order != "first" else list(dict.fromkeys(K))
    table(S, ds, MARGIN[fn], seen(RK), seen(CK), RK, CK, [True] * n, X, fn, "f8")
