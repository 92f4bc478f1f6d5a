"""Row operations on a Dataset keep rows whole."""
import numpy as np
from sx.registry import scenario

BOUNDS = "datasets of at most 4 rows (thorough 5) with int, float, string and categorical columns; masks, indices, slice bounds and sort keys symbolic; selected instances also with every input a stepped or reversed view"


def make(S, n, cat=True):
    """dataset with symbolic columns; returns (ds, columns as value lists)."""
    rt = S.rt
    a = S.ints("a", n, np.int32, 0, 2)
    f = S.floats("f", n, -2, 2, q=1)
    s = S.strs("s", n, 1, b"xy")
    d = {"a": a, "f": f, "s": s, "row": rt.arange(n, dtype=np.int64)}
    if cat:
        d["c"] = rt.Categorical(rt.FastArray(np.arange(n, dtype=np.int8) % 2 + 1), ["p", "q"], base_index=1)
    ds = rt.Dataset(d)
    vals = {"a": S.L(a), "f": S.L(f), "s": S.L(s), "row": list(range(n))}
    if cat:
        vals["c"] = [(b"p", b"q")[i % 2] for i in range(n)]
    return ds, vals


def same_rows(S, ds, vals, rows, msg):
    S.check(ds.shape[0] == len(rows), f"{msg}: row count")
    for c, v in vals.items():
        got = ds[c]
        g = S.L(got.expand_array) if c == "c" else S.L(got)
        S.eq_list(g, [v[r] for r in rows], f"{msg}: column {c}")


@scenario(quick=[dict(n=3, via=v) for v in ("getitem", "filter", "setrow")] + [dict(n=1, via="getitem"), dict(n=0, via="getitem")], thorough=[dict(n=5, via=v) for v in ("getitem", "filter")], budget=40)
def bool_filter(S, n, via):
    ds, vals = make(S, n)
    m = S.bools("m", n)
    M = S.L(m)
    r = ds[m, :] if via == "getitem" else ds.filter(m) if via == "filter" else ds[m, ["a", "f", "s", "row", "c"]]
    same_rows(S, r, vals, [i for i in range(n) if bool(M[i])], "boolean filter")
    same_rows(S, ds, vals, list(range(n)), "source unchanged")


@scenario(quick=[dict(n=3, m=2), dict(n=2, m=3)], thorough=[dict(n=4, m=3)], budget=40)
def fancy(S, n, m):
    ds, vals = make(S, n)
    idx = S.ints("i", m, np.int64, -n, n - 1)
    I = S.L(idx)
    r = ds[idx, :]
    S.check(r.shape[0] == m, "row count")
    for c, v in vals.items():
        g = S.L(r[c].expand_array) if c == "c" else S.L(r[c])
        S.check(S.And(*[S.Implies(S.Or(S.eq(I[p], k), S.eq(I[p], k - n)), S.eq(g[p], v[k])) for p in range(m) for k in range(n)]), f"fancy index: column {c}")


@scenario(quick=[dict(n=3, step=s) for s in (None, 2, -1)] + [dict(n=4, step=None)], budget=40)
def slices(S, n, step):
    ds, vals = make(S, n)
    lo, hi = S.choose("lo", -n - 1, n + 1), S.choose("hi", -n - 1, n + 1)
    r = ds[slice(lo, hi, step), :]
    same_rows(S, r, vals, list(range(n))[lo:hi:step], "slice")


@scenario(quick=[dict(n=3)], budget=40)
def head_tail(S, n):
    ds, vals = make(S, n)
    k = S.choose("k", 0, n + 2)
    same_rows(S, ds.head(k), vals, list(range(n))[:k], "head")
    same_rows(S, ds.tail(k), vals, list(range(n))[max(0, n - k):], "tail")


def sort_order(S, keys, n, asc):
    """stable order; keys: list of value lists, most significant first; NaN last ascending."""
    def before(i, j):  # strictly before by key
        for v, up in zip(keys, asc):
            a, b = v[i], v[j]
            if bool(S.eq(a, b)):
                continue
            na, nb = bool(S.isnan(a)), bool(S.isnan(b))
            if na or nb:
                return (nb and not na) if up else (na and not nb)
            lt = bool(a < b)
            return lt if up else not lt
        return False
    out = []
    for i in range(n):
        k = len(out)
        while k > 0 and before(i, out[k - 1]):
            k -= 1
        out.insert(k, i)
    return out


SORTS = [(["a"], True), (["f"], True), (["s"], True), (["a", "s"], True), (["s", "f"], True)]


@scenario(quick=[dict(n=3, by=b, how=h) for b, _ in SORTS for h in ("copy", "inplace")] + [dict(n=3, by=["a", "s"], how="view"), dict(n=4, by=["a"], how="copy")], thorough=[dict(n=4, by=b, how=h) for b, _ in SORTS for h in ("copy", "inplace", "view")], budget=60)
def sort(S, n, by, how):
    ds, vals = make(S, n)
    exp = sort_order(S, [vals[c] for c in by], n, [True] * len(by))
    if how == "copy":
        r = ds.sort_copy(by)
        same_rows(S, ds, vals, list(range(n)), "sort_copy leaves the source")
    elif how == "inplace":
        r = ds.sort_inplace(by)
        same_rows(S, r, vals, exp, "sort returns")
        r = ds
    else:
        r = ds.sort_view(by)
        same_rows(S, ds, vals, list(range(n)), "sort_view leaves the data")
        return
    same_rows(S, r, vals, exp, "sort")


@scenario(quick=[dict(n=3, by=["a"]), dict(n=3, by=["s"]), dict(n=3, by=["a", "s"], asc=[False, True]), dict(n=3, by=["a", "s"], asc=[True, False])], budget=60)
def sort_desc(S, n, by, asc=None):
    """descending sort: keys non-increasing, rows whole and each exactly once."""
    ds, vals = make(S, n)
    r = ds.sort_copy(by, ascending=False if asc is None else asc)
    if asc is not None:
        same_rows(S, r, vals, sort_order(S, [vals[c] for c in by], n, asc), "mixed order sort")
        return
    rows = [S.concrete(x) for x in S.L(r["row"])]
    S.check(sorted(rows) == list(range(n)), "a permutation of the rows")
    if sorted(rows) == list(range(n)):
        same_rows(S, r, vals, rows, "descending sort")
    k = S.L(r[by[0]])
    S.check(S.And(*[(y <= x) for x, y in zip(k, k[1:])]), "keys in descending order")


@scenario(quick=[dict(n=3, by=b, keep=k) for b in (["a"], ["a", "s"]) for k in ("first", "last")] + [dict(n=3, by=["f"], keep="first"), dict(n=3, by=["s"], keep="none"), dict(n=3, by=["a"], keep="none")], thorough=[dict(n=4, by=b, keep=k) for b in (["a"], ["a", "s"], ["f"]) for k in ("first", "last", "none")], budget=60)
def dedupe(S, n, by, keep):
    ds, vals = make(S, n)
    keep_ = False if keep == "none" else keep
    eq = lambda i, j: S.And(*[S.eq(vals[c][i], vals[c][j]) for c in by])
    rows = []
    dup = []
    for i in range(n):
        others = range(i) if keep == "first" else range(i + 1, n) if keep == "last" else [j for j in range(n) if j != i]
        d = any(bool(eq(i, j)) for j in others)
        dup.append(d)
        if not d:
            rows.append(i)
    r = ds.drop_duplicates(by, keep=keep_)
    got = [S.concrete(x) for x in S.L(r["row"])]
    S.check(sorted(got) == rows, f"drop_duplicates keep={keep}: rows kept")
    if sorted(got) == rows:
        same_rows(S, r, vals, got, "drop_duplicates")
    S.eq_list(S.L(ds.duplicated(by, keep=keep_)), dup, f"duplicated keep={keep}")


@scenario(quick=[dict(n=3, zeros=True, nans=True), dict(n=2, zeros=True, nans=False), dict(n=2, zeros=False, nans=True)], budget=40)
def trim(S, n, zeros, nans):
    """trim(columns=False) removes exactly the rows whose computable columns are all zero and/or NaN."""
    rt = S.rt
    f = S.floats("f", n, -1, 1, q=0)
    g = S.ints("g", n, np.int32, 0, 1, inv=True)
    F, G = S.L(f), S.L(g)
    ds = rt.Dataset({"f": f, "g": g, "s": S.strs("s", n, 1, b"x")})
    Sv = S.L(ds["s"])
    bad = [S.And(S.Or(S.And(nans, S.isnan(F[i])), S.And(zeros, F[i] == 0)), S.Or(S.And(zeros, G[i] == 0), S.And(nans, G[i] == -2**31))) for i in range(n)]
    r = ds.trim(zeros=zeros, nans=nans, columns=False)
    same_rows(S, r, {"f": F, "g": G, "s": Sv}, [i for i in range(n) if not bool(bad[i])], "trim")
    cf, cg = S.And(*[S.Or(S.And(nans, S.isnan(x)), S.And(zeros, x == 0)) for x in F]), S.And(*[S.Or(S.And(zeros, x == 0), S.And(nans, x == -2**31)) for x in G])
    r2 = ds.trim(zeros=zeros, nans=nans, rows=False)
    S.check(S.Not(cf) if "f" in r2 else cf, "column removed exactly when all its values are")
    S.check(S.Not(cg) if "g" in r2 else cg, "integer column removed exactly when all its values are")
    S.check("s" in r2, "string column kept")


@scenario(quick=[dict(n=3)], budget=40)
def set_rows(S, n):
    """assigning through a boolean row mask changes exactly those rows of that column."""
    ds, vals = make(S, n)
    m = S.bools("m", n)
    M = S.L(m)
    v = S.int("v", -5, 5)
    ds[m, "a"] = v
    S.eq_list(S.L(ds["a"]), [S.If(M[i], v, vals["a"][i]) for i in range(n)], "masked assignment")
    for c in ("f", "s", "row"):
        S.eq_list(S.L(ds[c]), vals[c], f"other column {c} untouched")


@scenario(quick=[dict(n=3)], budget=40)
def scalar_row(S, n):
    """one row by integer index, positive or negative."""
    ds, vals = make(S, n)
    i = S.choose("i", -n, n - 1)
    r = ds[i, ["a", "s", "row"]]
    for c in ("a", "s", "row"):
        S.check(S.eq(S.L(r[c])[0], vals[c][i]), f"row {c}")
        S.check(S.eq(ds[i, c], vals[c][i]), f"cell {c}")


@scenario(quick=[dict(n=2, m=2), dict(n=1, m=3), dict(n=0, m=2)], budget=40)
def concat_rows(S, n, m):
    """concatenated rows in order, missing columns filled with invalids."""
    rt = S.rt
    a, b = S.ints("a", n, np.int32, -2, 2), S.ints("b", m, np.int32, -2, 2)
    f, g = S.floats("f", n, -1, 1, q=0), S.strs("g", m, 1, b"x")
    A, B, F, G = S.L(a), S.L(b), S.L(f), S.L(g)
    x, y = rt.Dataset({"a": a, "f": f}), rt.Dataset({"a": b, "g": g})
    r = rt.Dataset.concat_rows([x, y])
    S.check(r.shape[0] == n + m, "row count")
    S.eq_list(S.L(r["a"]), A + B, "common column")
    S.eq_list(S.L(r["f"]), F + [float("nan")] * m, "column missing on the right")
    S.eq_list(S.L(r["g"]), [b""] * n + G, "column missing on the left")


@scenario(quick=[dict(how=h) for h in ("copy", "cols", "rows", "drop_first", "footers")], budget=30)
def sort_settings(S, how):
    """copies and selections of a sorted view are sorted by the same columns and directions."""
    rt = S.rt
    n = 3
    a, b = S.ints("a", n, np.int32, 0, 1), S.ints("b", n, np.int32, 0, 1)
    ds = rt.Dataset({"a": a, "b": b, "v": rt.arange(n)})
    if how == "footers":
        ds.footer_set_values("total", {"v": 3})
        r = ds.sort_copy("a")
        same_rows(S, r, {"a": S.L(a), "b": S.L(b), "v": [0, 1, 2]}, order_by(S, [S.L(a)], [True], n), "sorted copy of a table with totals")
        return
    asc = [S.bool("p"), S.bool("q")]
    asc = [bool(asc[0]), bool(asc[1])]
    ds.sort_view(["a", "b"], ascending=asc)
    if how == "copy":
        r = ds.copy()
    elif how == "cols":
        r = ds[["b", "v", "a"]]
    elif how == "rows":
        r = ds[[0, 1, 2], :]
    else:
        r = ds[["b", "v"]]
        S.eq_list(S.L(r.get_sorted_col_data("v")), order_by(S, [S.L(b)], asc[1:], n), "the remaining sort column keeps its direction")
        return
    S.eq_list(S.L(r.get_sorted_col_data("v")), order_by(S, [S.L(a), S.L(b)], asc, n), "sort columns and directions kept")


def order_by(S, keys, asc, n):
    def lt(x, y):
        for k, up in zip(keys, asc):
            if bool(S.eq(k[x], k[y])):
                continue
            return bool(k[x] < k[y]) == up
        return False
    out = []
    for x in range(n):
        p = len(out)
        while p > 0 and lt(x, out[p - 1]):
            p -= 1
        out.insert(p, x)
    return out


@scenario(quick=[dict(how=h) for h in ("asc", "flip_one", "column", "cell", "replace", "count", "grow", "two_tables", "single")], thorough=[dict(how=h, n=4) for h in ("asc", "flip_one", "column", "cell", "replace")], budget=60)
def display_order(S, how, n=3):
    """the order a sorted view is shown in follows the current settings and the current contents."""
    rt = S.rt
    a, b = S.ints("a", n, np.int32, 0, 2), S.ints("b", n, np.int16, 0, 2)
    A, B = S.L(a), S.L(b)
    ds = rt.Dataset({"a": a, "b": b, "v": rt.arange(n)})
    p, q = bool(S.bool("p")), bool(S.bool("q"))
    ds.sort_view(["a", "b"], ascending=[p, q])
    S.eq_list(S.L(ds.get_sorted_col_data("v")), order_by(S, [A, B], [p, q], n), "first order")
    keys, asc = [A, B], [p, q]
    if how == "asc":
        up = bool(S.bool("up"))
        ds.sort_view(["a", "b"], ascending=up)
        asc = [up, up]
        if not up:
            keys = None
    elif how == "flip_one":
        asc = [p, not q] if bool(S.bool("which")) else [not p, q]
        ds.sort_view(["a", "b"], ascending=asc)
    elif how == "column":
        ds.sort_view(["b", "a"], ascending=[p, q])
        keys = [B, A]
    elif how == "cell":
        i, w = S.choose("i", 0, n - 1), S.ints("w", 1, np.int32, 0, 2)
        ds[i, "a"] = w[0]
        A = A[:i] + [S.L(w)[0]] + A[i + 1:]
        keys = [A, B]
    elif how == "replace":
        w = S.ints("w", n, np.int32, 0, 2)
        ds.a = w
        ds.sort_view(["a", "b"], ascending=[p, q])
        keys = [S.L(w), B]
    elif how == "count":
        ds.sort_view("b", ascending=q)
        keys, asc = [B], [q]
        if not q:
            keys = None
    elif how == "single":
        ds.sort_view("b", ascending=p)
        ds.get_sorted_col_data("v")
        ds.sort_view("b", ascending=q)
        keys, asc = [B], [q]
        if not q:
            keys = None
    elif how == "grow":
        ds.sort_inplace("v")
        ds.sort_view(["a", "b"], ascending=[p, q])
    else:
        w = S.ints("w", n, np.int32, 0, 2)
        other = rt.Dataset({"a": w, "b": b, "v": rt.arange(n)})
        other.sort_view(["a", "b"], ascending=[p, q])
        S.eq_list(S.L(other.get_sorted_col_data("v")), order_by(S, [S.L(w), B], [p, q], n), "order of the other table")
    got = ds.get_sorted_col_data("v")
    if keys is not None:
        S.eq_list(S.L(got), order_by(S, keys, asc, n), f"order after {how}")
    else:  # all descending: ties in any order
        rows = [S.concrete(x) for x in S.L(got)]
        S.check(sorted(rows) == list(range(n)), "every row once")
        k = [A, B] if how == "asc" else [B]
        for x, y in zip(rows, rows[1:]):
            S.check(not lt_keys(S, k, x, y), f"descending after {how}")


def lt_keys(S, keys, x, y):
    for k in keys:
        if bool(S.eq(k[x], k[y])):
            continue
        return bool(k[x] < k[y])
    return False


@scenario(quick=[dict(how=h) for h in ("mask", "index", "slice", "one", "list", "short", "filter_short")], budget=60)
def assign_table(S, how):
    """assigning a table to chosen rows and columns fills them by position and leaves every other cell."""
    rt = S.rt
    n = 3
    a, b, c = S.ints("a", n, np.int32, 0, 9), S.ints("b", n, np.int32, 0, 9), S.ints("c", n, np.int32, 0, 9)
    V = {"a": S.L(a), "b": S.L(b), "c": S.L(c)}
    ds = rt.Dataset({"a": a, "b": b, "c": c})
    cols = list(S.pick("cols", [("a", "c"), ("c", "a"), ("b", "c"), ("c", "b", "a")]))
    names = list(S.pick("names", [("a", "b", "c"), ("b", "c", "a"), ("p", "q", "r")]))[:len(cols)]
    if how == "filter_short":
        k = S.choose("k", 0, n + 1)
        m = S.bools("m", k)
        raised, _ = S.raises(ValueError, lambda: ds.filter(m))
        S.check(raised == (k != n), "a mask of another length is rejected")
        return
    if how == "mask":
        m = S.bools("m", n)
        rows = [i for i in range(n) if bool(S.L(m)[i])]
        sel = m
    elif how in ("index", "short"):
        rows = list(S.pick("rows", [(2, 0), (1,), (0, 1, 2), (1, 2)]))
        sel = rt.FastArray(rows)
    elif how == "slice":
        lo, hi = S.choose("lo", 0, n), S.choose("hi", 0, n)
        rows = list(range(n))[lo:hi]
        sel = slice(lo, hi)
    else:
        rows = [S.choose("i", 0, n - 1)]
        sel = rows[0] if how == "one" else rows
    S.assume(len(rows) > 0)
    if how == "list":
        vals = [S.ints(f"w{q}", 1, np.int32, 0, 9)[0] for q in range(len(cols))]
        W = [[S.L(x)[0] if hasattr(x, "shape") and getattr(x, "shape", ()) else x] for x in vals]
        ds[sel, cols] = vals
    elif how == "short":
        other = rt.Dataset({nm: S.ints(f"w{q}", len(rows) + 1, np.int32, 0, 9) for q, nm in enumerate(names)})
        S.assume(len(rows) > 1)
        raised, _ = S.raises((ValueError, IndexError, TypeError), lambda: ds.__setitem__((sel, cols), other))
        S.check(raised, "a table of another length is rejected")
        return
    else:
        other = rt.Dataset({nm: S.ints(f"w{q}", len(rows), np.int32, 0, 9) for q, nm in enumerate(names)})
        W = [S.L(other[nm]) for nm in names]
        ds[sel, cols] = other
    for x in V:
        want = list(V[x])
        if x in cols:
            for r, y in zip(rows, W[cols.index(x)]):
                want[r] = y
        S.eq_list(S.L(ds[x]), want, f"column {x}")
    S.check(list(ds.keys()) == ["a", "b", "c"], "names")


@scenario(quick=[dict(keep=k) for k in ("first", "last")], budget=40)
def dedupe_inplace(S, keep):
    """in-place de-duplication of a table with a display order, and the order shown afterwards."""
    rt = S.rt
    n = 3
    a, b = S.ints("a", n, np.int32, 0, 1), S.ints("b", n, np.int32, 0, 5)
    A, B = S.L(a), S.L(b)
    ds = rt.Dataset({"a": a, "b": b})
    ds.sort_view("b")
    ds.get_sorted_col_data("b")
    r = ds.drop_duplicates("a", keep=keep, inplace=True)
    rows = [i for i in range(n) if not any(bool(S.eq(A[i], A[j])) for j in (range(i) if keep == "first" else range(i + 1, n)))]
    rows.sort(key=lambda i: min(j for j in range(n) if bool(S.eq(A[j], A[i]))))
    S.eq_list(S.L(r["a"]), [A[i] for i in rows], "kept keys")
    S.eq_list(S.L(r["b"]), [B[i] for i in rows], "kept rows")
    S.eq_list(S.L(ds["b"]), [B[i] for i in rows], "the table itself")
    S.check(ds.shape == (len(rows), 2), "shape")
    got = [S.concrete(x) for x in S.L(ds.get_sorted_col_data("b"))]
    S.check(sorted(got) == sorted(S.concrete(B[i]) for i in rows), "the order shown afterwards covers exactly the kept rows")
