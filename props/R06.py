"""Group-by aggregations."""
import numpy as np
from sx.registry import scenario
from props.common import *

BOUNDS = "at most 4 rows (thorough 5) with 1-2 key columns of small int/float/string values (incl. invalid), float and integer value columns with NaN, symbolic filters; large instance: 130 rows with 2 free keys; selected instances also with every input a stepped or reversed view"

FUNCS = ["sum", "nansum", "mean", "nanmean", "min", "nanmin", "max", "nanmax", "count", "first", "last"]


def expect(S, f, V, I, g):
    """(float aggregate, int aggregate) of rows g; V floats, I ints without invalids."""
    vs, is_ = [V[i] for i in g], [I[i] for i in g]
    nans = [bool(S.isnan(x)) for x in vs]
    ok = [x for x, b in zip(vs, nans) if not b]
    if f == "first":
        return vs[0], is_[0]
    if f == "last":
        return vs[-1], is_[-1]
    nan = f.startswith("nan")
    base = f[3:] if nan else f
    use = ok if nan else vs
    if base == "sum":
        return (NAN if (not nan and any(nans)) else fsum(S, use)), isum(S, is_)
    if base == "mean":
        iv = None
        fv = NAN if (not nan and any(nans)) or not use else fsum(S, use) / float(len(use))
        return fv, (isum(S, is_), len(is_))
    big = base == "max"
    fv = NAN if (not nan and any(nans)) or not use else fmin(S, use, big)
    return fv, fmin(S, is_, big)


def empty_expect(f):
    """aggregate of a group with every row filtered out."""
    base = f.replace("nan", "")
    if base == "sum":
        return 0.0, 0
    return NAN, None


def check(S, r, f, gs, V, I, keys, msg, idt=np.int16, fdt=np.float64, kept=None):
    """gs: groups (all rows); kept(i): row passes the filter (decided)."""
    for name, k in keys.items():
        S.eq_list(S.L(r[name]), [k[g[0]] for g in gs], f"{msg}: group keys {name}")
    if r.shape[0] != len(gs):
        return
    if f == "count":
        S.eq_list(S.L(r["Count"]), [len([i for i in g if kept is None or kept(i)]) for g in gs], f"{msg}: counts")
        return
    gv, gi = S.L(r["v"]), S.L(r["i"])
    for p, g in enumerate(gs):
        g = [i for i in g if kept is None or kept(i)]
        ev, ei = expect(S, f, V, I, g) if g else empty_expect(f)
        if g and f.endswith("mean"):
            s, c = ei
            S.check(S.eq(gi[p] * float(c), s) if S.symbolic and False else S.close(gi[p], s / c), f"{msg}: integer column group {p}")
        elif ei is not None:
            S.check(S.eq(gi[p], ei), f"{msg}: integer column group {p}")
        elif f.endswith("mean"):
            S.check(S.isnan(gi[p]), f"{msg}: empty group {p}")
        else:
            S.check(S.eq(gi[p], inv_val(idt)), f"{msg}: empty group {p}")
        S.check(S.close(gv[p], ev), f"{msg}: float column group {p}")


def make(S, n, kind, idt=np.int16):
    k = col(S, "k", n, kind, inv=True, hi=1)
    v = S.floats("v", n, -4, 4, q=1)
    i = S.ints("i", n, idt, -50, 50)
    ds = S.rt.Dataset({"k": k, "v": v, "i": i})
    return ds, S.L(k), S.L(v), S.L(i)


@scenario(quick=[dict(n=3, f=f, kind="i4") for f in FUNCS] + [dict(n=3, f=f, kind=k) for f in ("sum", "last", "count") for k in ("f8", "S1")] + [dict(n=1, f=f, kind="i4") for f in ("sum", "first", "nanmin")],
          thorough=[dict(n=4, f=f, kind=k) for f in FUNCS for k in ("i4", "S1")], budget=60)
def groupby(S, n, f, kind, via="gb"):
    ds, K, V, I = make(S, n, kind)
    r = getattr(ds.groupby("k"), f)()
    check(S, r, f, groups(S, [K], n), V, I, {"k": K}, f"groupby {f}")
    S.eq_list(S.L(ds["v"]), V, "source unchanged")


@scenario(quick=[dict(n=3, f=f) for f in ("sum", "min", "first", "count")], thorough=[dict(n=4, f=f) for f in FUNCS], budget=60)
def gbu(S, n, f):
    """gbu keeps groups in order of first appearance."""
    ds, K, V, I = make(S, n, "i4")
    r = getattr(ds.gbu("k"), f)()
    check(S, r, f, groups(S, [K], n, ordered=False), V, I, {"k": K}, f"gbu {f}")


@scenario(quick=[dict(n=3, f=f) for f in ("sum", "nanmax", "last", "count")], thorough=[dict(n=4, f=f) for f in FUNCS], budget=60)
def two_keys(S, n, f):
    k, s = S.ints("k", n, np.int32, 0, 1), S.strs("s", n, 1, b"x")
    v, i = S.floats("v", n, -4, 4, q=1), S.ints("i", n, np.int16, -50, 50)
    ds = S.rt.Dataset({"k": k, "s": s, "v": v, "i": i})
    K, Z, V, I = S.L(k), S.L(s), S.L(v), S.L(i)
    r = getattr(ds.groupby(["k", "s"]), f)()
    check(S, r, f, groups(S, [K, Z], n), V, I, {"k": K, "s": Z}, f"groupby on two keys {f}")


@scenario(quick=[dict(n=3, f=f) for f in FUNCS], thorough=[dict(n=4, f=f) for f in FUNCS], budget=60)
def filtered(S, n, f):
    """filter= restricts what is aggregated; the groups stay."""
    ds, K, V, I = make(S, n, "i4")
    m = S.bools("m", n)
    M = S.L(m)
    gs = groups(S, [K], n)
    keep = [bool(x) for x in M]
    if f == "count":
        r = ds.groupby("k").count(filter=m)
    else:
        r = getattr(ds.groupby("k"), f)(filter=m)
    check(S, r, f, gs, V, I, {"k": K}, f"filtered {f}", kept=lambda i: keep[i])


@scenario(quick=[dict(n=3, f=f) for f in ("sum", "nansum", "mean", "max", "first")], thorough=[dict(n=4, f=f) for f in FUNCS if f != "count"], budget=60)
def transform(S, n, f):
    """transform=True gives every row its group's aggregate, in source row order."""
    ds, K, V, I = make(S, n, "i4")
    r = getattr(ds.groupby("k"), f)(transform=True)
    gs = groups(S, [K], n)
    S.check(r.shape[0] == n, "row count")
    gv, gi = S.L(r["v"]), S.L(r["i"])
    for g in gs:
        ev, ei = expect(S, f, V, I, g)
        for i in g:
            S.check(S.close(gv[i], ev), f"transform {f}: float row")
            if f != "mean":
                S.check(S.eq(gi[i], ei), f"transform {f}: int row")


@scenario(quick=[dict(n=3, f=f) for f in ("sum", "nanmean", "min", "last", "count")], thorough=[dict(n=4, f=f) for f in FUNCS], budget=60)
def categorical(S, n, f):
    """aggregating through a categorical: one row per category (in category order), including unused ones; filtered rows excluded."""
    rt = S.rt
    c = S.ints("c", n, np.int8, 0, 3)
    v, i = S.floats("v", n, -4, 4, q=1), S.ints("i", n, np.int16, -50, 50)
    C, V, I = S.L(c), S.L(v), S.L(i)
    cat = rt.Categorical(c, ["a", "b", "z"], base_index=1)
    ds = rt.Dataset({"v": v, "i": i})
    bins = [[j for j in range(n) if bool(C[j] == b)] for b in (1, 2, 3)]
    r = cat.count() if f == "count" else getattr(cat, f)(ds)
    S.check(r.shape[0] == 3, "one row per category")
    S.eq_list(S.L(r[[k for k in r.keys() if k not in ("Count", "v", "i")][0]]), [b"a", b"b", b"z"], "categories")
    if f == "count":
        S.eq_list(S.L(r["Count"]), [len(b) for b in bins], "counts")
        return
    gv, gi = S.L(r["v"]), S.L(r["i"])
    for p, g in enumerate(bins):
        ev, ei = expect(S, f, V, I, g) if g else empty_expect(f)
        S.check(S.close(gv[p], ev), f"categorical {f}: float bin {p}")
        if not f.endswith("mean"):
            S.check(S.eq(gi[p], inv_val(np.int16) if ei is None else ei), f"categorical {f}: int bin {p}")


@scenario(quick=[dict(f=f) for f in ("sum", "first", "count", "max")], budget=100)
def groupby_big(S, f):
    """many groups: around the limits of the compact index types."""
    rt = S.rt
    n = 130
    k = S.ints_at("k", list(range(n)), [0, n - 1], np.int32, n - 3, n)
    i = rt.FastArray(np.arange(n, dtype=np.int16))
    v = rt.FastArray(np.arange(n, dtype=np.float64))
    ds = rt.Dataset({"k": k, "v": v, "i": i})
    r = getattr(ds.groupby("k"), f)()
    K = [S.concrete(x) for x in S.L(k)]
    gs = {}
    for p, x in enumerate(K):
        gs.setdefault(int(x), []).append(p)
    ks = sorted(gs)
    S.eq_list(S.L(r["k"]), ks, "keys")
    agg = {"sum": sum, "first": lambda x: x[0], "count": len, "max": max}[f]
    S.eq_list(S.L(r["Count" if f == "count" else "i"]), [agg(gs[x]) for x in ks], "aggregates")


CONC = ["var", "nanvar", "std", "nanstd", "median", "nanmedian", "mode"]


@scenario(quick=[dict(f=f) for f in CONC], budget=60)
def stats(S, f, n=4):
    """variance, standard deviation, median and mode per group (symbolic keys and filter, fixed values)."""
    rt = S.rt
    k = S.ints("k", n, np.int32, 0, 1)
    m = S.bools("m", n)
    vals = [1.0, 5.0, float("nan"), 5.0]
    v = rt.FastArray(np.array(vals))
    ds = rt.Dataset({"k": k, "v": v})
    r = getattr(ds.groupby("k"), f)(filter=m)
    K, M = S.L(k), S.L(m)
    gs = groups(S, [K], n)
    got = S.L(r["v"])
    S.check(len(got) == len(gs), "groups")
    for g, x in zip(gs, got):
        xs = [vals[i] for i in g if bool(M[i])]
        if f.startswith("nan"):
            xs = [y for y in xs if y == y]
        if f == "mode":
            if xs and not any(y != y for y in xs):
                S.check(float(x) == max(sorted(set(xs)), key=lambda y: xs.count(y)) or xs.count(float(x)) == max(xs.count(y) for y in xs), "mode")
            continue
        if not xs or any(y != y for y in xs):
            S.check(S.isnan(x), f"{f}: no value")
            continue
        mean = sum(xs) / len(xs)
        var = sum((y - mean) ** 2 for y in xs) / (len(xs) - 1) if len(xs) > 1 else NAN
        e = sorted(xs)
        med = e[len(e) // 2] if len(e) % 2 else (e[len(e) // 2 - 1] + e[len(e) // 2]) / 2
        want = {"var": var, "std": var ** 0.5, "median": med}[f.replace("nan", "")]
        a, b = float(x), float(want)
        S.check((a != a and b != b) or abs(a - b) < 1e-9, f"{f} of {xs}: {a} != {b}")


@scenario(quick=[dict(n=3, kind=k, un=u) for k in ("i4", "S1") for u in (False, True)], thorough=[dict(n=4, kind="i4", un=u) for u in (False, True)], budget=60)
def group_rows(S, n, kind, un):
    """iteration, group lookup and first/last row selectors agree with the partition of the rows."""
    ds, K, V, I = make(S, n, kind)
    g = ds.gbu("k") if un else ds.groupby("k")
    gs = groups(S, [K], n, ordered=False)
    find = lambda k: next(x for x in gs if bool(S.eq(K[x[0]], k)))
    got = []
    for k, rows in g.iter_groups():
        if isinstance(k, str):
            k = k.encode()
        want = find(k)
        got.append(want[0])
        S.eq_list(S.L(rows), want, "rows of a group")
    S.check(sorted(got) == [x[0] for x in gs], "every group once")
    S.check(sorted(S.concrete(x) for x in S.L(g.first_fancy)) == [x[0] for x in gs], "first rows")
    S.check(sorted(S.concrete(x) for x in S.L(g.last_fancy)) == sorted(x[-1] for x in gs), "last rows")
    fb, lb = [x[0] for x in gs], [x[-1] for x in gs]
    S.eq_list(S.L(g.first_bool), [i in fb for i in range(n)], "first row mask")
    S.eq_list(S.L(g.last_bool), [i in lb for i in range(n)], "last row mask")
    ex = g.as_categorical().expand_array
    E = S.L(ex)
    S.check(len(E) == n, "as_categorical length")
    S.check(S.And(*[S.Or(S.eq(e, k), S.And(is_inv(S, e, ex.dtype), is_inv(S, k, ds["k"].dtype))) for e, k in zip(E, K)]), "as_categorical expands to the keys")
    for k, sub in g:
        if isinstance(k, str):
            k = k.encode()
        S.eq_list(S.L(sub["i"]), [I[i] for i in find(k)], "iterated sub-dataset")
        S.check(sub.shape[0] == len(find(k)), "rows of the iterated sub-dataset")


@scenario(quick=[dict(n=3, key=k) for k in (0, 1)], budget=60)
def get_group(S, n, key):
    ds, K, V, I = make(S, n, "i4")
    rows = [i for i in range(n) if bool(S.eq(K[i], key))]
    if not rows:
        return
    r = ds.groupby("k").get_group(key)
    S.eq_list(S.L(r["i"]), [I[i] for i in rows], "rows of the group")
    S.eq_list(S.L(r["k"]), [key] * len(rows), "keys of the group")


@scenario(quick=[dict(n=3, k=k) for k in (0, 1, 2)], budget=60)
def nth(S, n, k):
    ds, K, V, I = make(S, n, "i4")
    r = ds.groupby("k").nth(k)
    gs = groups(S, [K], n)
    S.eq_list(S.L(r["k"]), [K[g[0]] for g in gs], "keys")
    S.eq_list(S.L(r["i"]), [I[g[k]] if k < len(g) else inv_val(np.int16) for g in gs], "nth value")


@scenario(quick=[dict(n=3)], budget=60)
def count_uniques(S, n):
    k, i = S.ints("k", n, np.int32, 0, 1), S.ints("i", n, np.int16, 0, 1)
    K, I = S.L(k), S.L(i)
    r = S.rt.Dataset({"k": k, "i": i}).groupby("k").count_uniques()
    gs = groups(S, [K], n)
    S.eq_list(S.L(r["k"]), [K[g[0]] for g in gs], "keys")
    S.eq_list(S.L(r["i"]), [len(groups(S, [I], n, rows=g)) for g in gs], "distinct values per group")


@scenario(quick=[dict(n=3, how=h) for h in ("agg", "apply_reduce", "getitem", "apply_nonreduce")], budget=60)
def composed(S, n, how):
    ds, K, V, I = make(S, n, "i4")
    gs = groups(S, [K], n)
    g = ds.groupby("k")
    if how == "agg":
        r = g.agg(["sum", "min"])
        a, b = r["Sum"], r["Min"]
        S.eq_list(S.L(a["i"]), [isum(S, [I[j] for j in x]) for x in gs], "agg sum")
        S.eq_list(S.L(b["i"]), [fmin(S, [I[j] for j in x]) for x in gs], "agg min")
        S.eq_list(S.L(a["k"]), [K[x[0]] for x in gs], "agg keys")
    elif how == "apply_reduce":
        r = g.apply_reduce(lambda x: x[-1], ds["i"])
        S.eq_list(S.L(r["i"]), [I[x[-1]] for x in gs], "apply_reduce")
        S.eq_list(S.L(r["k"]), [K[x[0]] for x in gs], "apply_reduce keys")
    elif how == "apply_nonreduce":
        r = g.apply_nonreduce(lambda x: x[::-1].copy(), ds["i"])
        exp = [None] * n
        for x in gs:
            for p, q in zip(x, x[::-1]):
                exp[p] = I[q]
        S.eq_list(S.L(r["i"]), exp, "apply_nonreduce")
    else:
        r = g["i"].sum()
        S.eq_list(S.L(r["i"]), [isum(S, [I[j] for j in x]) for x in gs], "column selection")
        S.check("v" not in r, "only the selected column")


def quant(xs, q):
    """quantile of concrete xs; between two ranks, their midpoint."""
    xs = sorted(xs)
    p = q * (len(xs) - 1)
    a = int(p)
    b = min(a + 1, len(xs) - 1)
    return xs[a] if p == a else (xs[a] + xs[b]) / 2


def same(S, got, want, msg):
    a, b = float(got), float(want)
    S.check((a != a and b != b) or abs(a - b) < 1e-9, f"{msg}: {a} != {b}")


QV = [1.0, 5.0, NAN, 4.0, -2.0]


@scenario(quick=[dict(fn=f, q=q, via=v) for f, q in (("quantile", [0.5]), ("nanquantile", [0.25]), ("quantile", [0.0, 0.75]), ("percentile", [100.0, 30.0]), ("nanpercentile", [50.0])) for v in ("gb", "gbu", "cat")],
          thorough=[dict(fn=f, q=q, via=v, n=5) for f, q in (("quantile", [0.5, 0.1]), ("nanquantile", [0.25]), ("nanpercentile", [50.0, 99.0, 1.0])) for v in ("gb", "gbu", "cat")], budget=60)
def quantiles(S, fn, q, via, n=4):
    """quantiles per group (symbolic keys and filter, fixed values): one or several ranks."""
    rt = S.rt
    k, m = S.ints("k", n, np.int32, 0, 1), S.bools("m", n)
    ds = rt.Dataset({"k": k, "v": rt.FastArray(np.array(QV[:n]))})
    K, M = S.L(k), [bool(x) for x in S.L(m)]
    if via == "cat":
        g, data = rt.Categorical(k), (rt.Dataset({"v": ds["v"]}),)
    else:
        g, data = (ds.gbu("k") if via == "gbu" else ds.groupby("k")), ()
    r = getattr(g, fn)(*data, q=q if len(q) > 1 else q[0], filter=m)
    gs = groups(S, [K], n, ordered=via != "gbu")
    keycol = [c for c in r.keys() if not c.startswith("v")][0]
    S.eq_list(S.L(r[keycol]), [K[g[0]] for g in gs], "group keys")
    for x in q:
        c = "v" if len(q) == 1 else f"v_{'p' if 'percent' in fn else 'q'}{x:.3g}".replace(".", "_")
        S.check(c in r, f"column {c}")
        rank = x / 100 if "percent" in fn else x
        for g, got in zip(gs, S.L(r[c])):
            xs = [QV[i] for i in g if M[i]]
            if "nan" in fn:
                xs = [y for y in xs if y == y]
            same(S, got, NAN if not xs or any(y != y for y in xs) else quant(xs, rank), f"{fn} {x}")


@scenario(quick=[dict(how=h, f=f) for h in ("base0", "display", "filtercat", "two") for f in ("sum", "last", "count")] + [dict(how=h, f="sum", transform=True) for h in ("base0", "display", "filtercat", "two")], budget=60)
def categorical_kinds(S, how, f, transform=False, n=3):
    """aggregation through other kinds of categorical: zero-based codes, sorted display of unsorted categories, filter at construction, two keys."""
    rt = S.rt
    v, i = S.floats("v", n, -4, 4, q=1), S.ints("i", n, np.int16, -50, 50)
    V, I = S.L(v), S.L(i)
    ds = rt.Dataset({"v": v, "i": i})
    if how == "base0":
        c = S.ints("c", n, np.int8, 0, 1)
        C = [int(S.concrete(x)) for x in S.L(c)]
        cat = rt.Categorical(c, ["b", "a"], base_index=0)
        gs, keys = [[j for j in range(n) if C[j] == b] for b in (0, 1)], [[b"b", b"a"]]
    elif how in ("display", "filtercat"):
        s = S.ints("s", n, np.int32, 0, 1)
        m = S.bools("m", n)
        keep = [True] * n if how == "display" else [bool(x) for x in S.L(m)]
        K = S.L(s)
        cat = rt.Categorical(s, ordered=False, sort_gb=True) if how == "display" else rt.Categorical(s, filter=m)
        gs = groups(S, [K], n, rows=[j for j in range(n) if keep[j]])
        keys = [[K[g[0]] for g in gs]]
    else:
        a, b = S.ints("a", n, np.int32, 0, 1), S.strs("b", n, 1, b"x")
        A, B = S.L(a), S.L(b)
        cat = rt.Categorical([a, b])
        gs = groups(S, [A, B], n, ordered=False)
        keys = None
    if transform:
        r = getattr(cat, f)(ds, transform=True)
        S.check(r.shape[0] == n, "row count")
        gi = S.L(r["i"])
        for g in gs:
            for j in g:
                S.check(S.eq(gi[j], isum(S, [I[x] for x in g])), "transformed sum")
        return
    r = cat.count() if f == "count" else getattr(cat, f)(ds)
    kc = [c for c in r.keys() if c not in ("Count", "v", "i")]
    S.check(r.shape[0] == len(gs), "one row per group")
    if r.shape[0] != len(gs):
        return
    if keys is None:
        ka, kb = S.L(r[kc[0]]), S.L(r[kc[1]])
        order = []
        for x, y in zip(ka, kb):
            hit = [g for g in gs if bool(S.And(S.eq(A[g[0]], x), S.eq(B[g[0]], y)))]
            S.check(len(hit) == 1, "each result row names one group")
            order += hit
        S.check(len({g[0] for g in order}) == len(gs), "every group once")
        gs = order
    else:
        S.eq_list(S.L(r[kc[0]]), keys[0], "group keys")
    for p, g in enumerate(gs):
        if f == "count":
            S.check(S.eq(S.L(r["Count"])[p], len(g)), "count")
        else:
            ev, ei = expect(S, f, V, I, g) if g else empty_expect(f)
            S.check(S.close(S.L(r["v"])[p], ev), f"{f} float group {p}")
            S.check(S.eq(S.L(r["i"])[p], inv_val(np.int16) if ei is None else ei), f"{f} int group {p}")


@scenario(quick=[dict(how=h, via=v) for h in ("agg_dict", "agg_func", "col_idx", "reduce_tuple", "reduce_dtype", "reduce_columns", "reduce_text", "apply_scalar", "apply_filter", "apply_rows", "nonreduce_tuple", "reduce_transform", "groups_dict") for v in ("gb", "cat") if (h, v) != ("apply_filter", "gb")], budget=60)
def composed_more(S, how, via, n=3):
    """user functions and combined aggregations get each group's own rows, and results are labelled with its key."""
    rt = S.rt
    ds, K, V, I = make(S, n, "S1")
    gs = groups(S, [K], n)
    if via == "cat":
        g, d = rt.Categorical(ds["k"]), rt.Dataset({"v": ds["v"], "i": ds["i"]})
    else:
        g, d = ds.groupby("k"), None
    a = () if d is None else (d,)
    keycol = lambda r: r[r.label_get_names()[0]]
    key = lambda r: S.eq_list(S.L(keycol(r).expand_array if hasattr(keycol(r), "expand_array") else keycol(r)), [K[x[0]] for x in gs], "keys")
    col_i = [I[x[-1]] for x in gs]
    if how == "agg_dict":
        if via == "cat":
            return
        r = g.agg({"i": ["sum", "min"], "v": "last"})
        S.eq_list(S.L(r["Sum"]["i"]), [isum(S, [I[j] for j in x]) for x in gs], "agg sum")
        S.eq_list(S.L(r["Min"]["i"]), [fmin(S, [I[j] for j in x]) for x in gs], "agg min")
        S.eq_list(S.L(r["Last"]["v"]), [V[x[-1]] for x in gs], "agg last")
        S.check("v" not in r["Sum"] and "i" not in r["Last"], "only the requested columns")
    elif how == "agg_func":
        r = g.agg([np.sum, "first"], *a) if via == "gb" else g.agg([np.sum, "first"], dataset=d)
        S.eq_list(S.L(r["Sum"]["i"]), [isum(S, [I[j] for j in x]) for x in gs], "agg sum")
        S.eq_list(S.L(r["First"]["i"]), [I[x[0]] for x in gs], "agg first")
    elif how == "col_idx":
        if via == "cat":
            return
        r = g.sum(col_idx=["i"])
        S.check("v" not in r, "only the requested columns")
        S.eq_list(S.L(r["i"]), [isum(S, [I[j] for j in x]) for x in gs], "sum")
        key(r)
    elif how == "reduce_tuple":
        if via == "cat":
            r = g.apply_reduce(lambda x, y: x[-1] if len(y) > 1 else x[0], (ds["i"], ds["v"]))
        else:  # a tuple is passed along with every column of the dataset
            r = g["i"].apply_reduce(lambda x, y: x[-1] if len(y) > 1 else x[0], (ds["v"],))
        S.eq_list(S.L(r["i"]), col_i, "apply_reduce of two arrays")
        key(r)
    elif how == "reduce_dtype":
        r = g.apply_reduce(lambda x: len(x), ds["i"], dtype=np.int32)
        S.check(r["i"].dtype == np.int32, "requested dtype")
        S.eq_list(S.L(r["i"]), [len(x) for x in gs], "apply_reduce with dtype")
        key(r)
    elif how == "reduce_columns":
        r = g.apply_reduce(lambda x: x[-1], *a)
        S.eq_list(S.L(r["v"]), [V[x[-1]] for x in gs], "float column")
        S.eq_list(S.L(r["i"]), col_i, "integer column")
        S.check(r["v"].dtype == np.float64 and r["i"].dtype == np.int16, "each column keeps its own dtype")
        key(r)
    elif how == "reduce_text":
        w = S.strs("w", n, 2, b"p")
        W = S.L(w)
        r = g.apply_reduce(lambda x: x[-1], rt.Dataset({"w": w}), computable=False)
        S.eq_list(S.L(r["w"]), [W[x[-1]] for x in gs], "text column")
    elif how == "apply_scalar":
        r = g.apply(lambda d: d[["i"]].sum(), *a)
        S.eq_list(S.L(r["i"]), [isum(S, [I[j] for j in x]) for x in gs], "apply returning one row")
        key(r)
    elif how == "apply_filter":
        m = S.bools("m", n)
        M = [bool(x) for x in S.L(m)]
        if not any(M):
            return
        r = g.apply(lambda d: {"i": d["i"][-1:].copy()}, *a, filter=m)
        kept = [[j for j in x if M[j]] for x in gs]
        kept = [x for x in kept if x]
        if r.shape[0] == len(kept):
            S.eq_list(S.L(r["i"]), [I[x[-1]] for x in kept], "apply with a filter")
            if via == "gb":
                S.eq_list(S.L(r["k"]), [K[x[0]] for x in kept], "apply with a filter: keys")
        else:
            S.check(False, "apply with a filter: one row per remaining group")
    elif how == "apply_rows":
        r = g.apply(lambda d: rt.Dataset({"i": d["i"], "c": d["i"].cumsum()}), *a)
        ii, cc = S.L(r["i"]), S.L(r["c"])
        # several rows per group and as many rows as the source: in source order; one row per group: in key order
        flat = [x[0] for x in gs] if len(gs) == n else list(range(n))
        kc = r[r.label_get_names()[0]]
        S.eq_list(S.L(kc.expand_array if hasattr(kc, "expand_array") else kc), [K[j] for j in flat], "apply returning rows: keys")
        S.eq_list(ii, [I[j] for j in flat], "apply returning rows: source column")
        S.eq_list(cc, [isum(S, [I[y] for x in gs if j in x for y in x if y <= j]) for j in flat], "apply returning rows: computed column")
    elif how == "nonreduce_tuple":
        if via == "cat":
            r = g.apply_nonreduce(lambda x, y: x[::-1] + (len(y) - len(y)), (ds["i"], ds["v"]))
        else:
            r = g["i"].apply_nonreduce(lambda x, y: x[::-1] + (len(y) - len(y)), (ds["v"],))
        exp = [None] * n
        for x in gs:
            for p, q in zip(x, x[::-1]):
                exp[p] = I[q]
        S.eq_list(S.L(r["i"]), exp, "apply_nonreduce of two arrays")
    elif how == "reduce_transform":
        r = g.apply_reduce(lambda x: x[-1], ds["i"], transform=True)
        exp = [None] * n
        for x in gs:
            for p in x:
                exp[p] = I[x[-1]]
        S.eq_list(S.L(r["i"]), exp, "apply_reduce, one value per row")
    else:
        d = g.groups
        S.check(len(d) == len(gs), "every group once")
        for k, rows in d.items():
            want = [x for x in gs if bool(S.eq(K[x[0]], k))]
            S.check(len(want) == 1, "group named once")
            S.eq_list(S.L(rows), want[0], "rows of the group")


@scenario(quick=[dict(via=v, kind=k) for v in ("gb", "cat", "cat0") for k in ("f8", "S1", "i2")], budget=60)
def count_uniques_kinds(S, via, kind, n=3):
    """distinct values per group, with several value columns and empty categories."""
    rt = S.rt
    c = S.ints("c", n, np.int8, 0 if via == "cat0" else 1, 2)
    w, i = col(S, "w", n, kind, hi=1), S.ints("i", n, np.int16, 0, 1)
    C, W, I = [int(S.concrete(x)) for x in S.L(c)], S.L(w), S.L(i)
    ds = rt.Dataset({"w": w, "i": i})
    if via == "gb":
        ds.c = c
        r = ds.groupby("c").count_uniques()
        bins = [b for b in (1, 2) if b in C]
    else:
        r = rt.Categorical(c, ["p", "q"], base_index=1).count_uniques(ds)
        bins = [1, 2]
    for name, X in (("w", W), ("i", I)):
        S.eq_list(S.L(r[name]), [len(groups(S, [X], n, rows=[j for j in range(n) if C[j] == b])) for b in bins], f"distinct {name} per group")


@scenario(quick=[dict(f=f, kind=k) for f in ("first", "last", "nth") for k in ("S2", "cat", "date", "time", "bool")], budget=60)
def picked_rows(S, f, kind, n=3):
    """first / last / nth keep the type of text, categorical, date and time columns and take the group's own row."""
    rt = S.rt
    k = S.ints("k", n, np.int32, 0, 1)
    K = S.L(k)
    if kind == "S2":
        x = S.strs("x", n, 2, b"ab")
    elif kind == "cat":
        x = rt.Categorical(S.ints("x", n, np.int8, 1, 2), ["p", "q"], base_index=1)
    elif kind == "date":
        x = rt.Date(S.ints("x", n, np.int32, 10000, 10003))
    elif kind == "time":
        x = rt.DateTimeNano(S.ints("x", n, np.int64, 10**18, 10**18 + 5), from_tz="GMT", to_tz="GMT")
    else:
        x = S.bools("x", n)
    ds = rt.Dataset({"k": k, "x": x})
    X = S.L(ds["x"]._fa if kind in ("cat", "date", "time") else ds["x"])
    r = ds.groupby("k").nth(1) if f == "nth" else getattr(ds.groupby("k"), f)()
    gs = groups(S, [K], n)
    S.check(type(r["x"]) is type(ds["x"]), "column type")
    got = r["x"]
    if kind == "cat":
        S.check(list(got.category_array) == [b"p", b"q"] or list(got.category_array) == ["p", "q"], "categories")
    got = S.L(got._fa if kind in ("cat", "date", "time") else got)
    S.check(len(got) == len(gs), "groups")
    for g, y in zip(gs, got):
        p = {"first": 0, "last": -1, "nth": 1}[f]
        if p < len(g):
            S.check(S.eq(y, X[g[p]]), f"{f} of {kind}")


@scenario(quick=[dict(how=h, order=o, flt=f) for h, o, f in (("scalar", "sorted", True), ("scalar", "first", False), ("scalar", "display", True), ("transform", "display", True), ("rows", "sorted", True))], thorough=[dict(how=h, order=o, flt=True, n=4) for h in ("scalar", "transform", "rows") for o in ("sorted", "first", "display")], budget=60)
def compiled_function(S, how, order, flt, n=3):
    """user functions given compiled: each group gets exactly its rows, in order."""
    import numba
    rt = S.rt
    k = S.strs("k", n, 1, b"xy")
    K = S.L(k)
    x = S.floats("x", n, -2, 2, q=1, nan=False)
    m = S.bools("m", n) if flt else None
    X = S.L(x)
    M = S.L(m) if flt else [True] * n
    c = rt.Categorical(k, ordered=order == "sorted", sort_gb=order == "display")
    jit = (lambda f: f) if S.symbolic else numba.njit
    fn = jit(_total) if how != "rows" else jit(_double)
    r = c.numba_apply(fn, x, filter=m, transform=how == "transform")
    gs = groups(S, [K], n, ordered=order != "first")
    sums = []
    for g in gs:
        t = 0.0
        for i in g:
            if bool(M[i]):
                t = t + X[i]
        sums.append(t)
    name = [q for q in r.keys() if q not in r.label_get_names()][-1]
    if how == "scalar":
        S.eq_list(S.L(r[name]), sums, "value of each group")
        S.eq_list(S.L(r[r.label_get_names()[0]]), [K[g[0]] for g in gs], "group names")
    else:
        got = S.L(r[name])
        S.check(len(got) == n, "one value per row")
        for g, t in zip(gs, sums):
            for i in g:
                S.check(S.eq(got[i], (t if how == "transform" else X[i] + X[i])) if bool(M[i]) else S.isnan(got[i]), "value of the row's own group")


def _total(v):
    t = 0.0
    for i in range(len(v)):
        t = t + v[i]
    return t


def _double(v):
    return v + v


SHOW = [(v, f) for v in ("sorted", "first", "display") for f in ("sum", "min", "median", "reduce")] + [("gb", f) for f in ("sum", "first", "reduce")] + [("gbu", f) for f in ("sum", "last", "reduce")] + [("codes", "sum"), ("codes", "mean")]


@scenario(quick=[dict(via=v, f=f) for v, f in SHOW], thorough=[dict(via=v, f=f, n=4) for v, f in SHOW], budget=60)
def show_filtered(S, via, f, n=3):
    """showfilter=True puts one extra row first, aggregating the rows in no group; the other rows stay aligned with their keys."""
    rt = S.rt
    k, m = S.strs("k", n, 1, b"xy"), S.bools("m", n)
    x = rt.FastArray(np.array([3, 10, -6, 11][:n], dtype=np.int16))
    K, M, X = S.L(k), [bool(b) for b in S.L(m)], [3, 10, -6, 11][:n]
    if via in ("gb", "gbu"):
        ds = rt.Dataset({"k": k, "x": x})
        g, kw, arg = (ds.groupby("k") if via == "gb" else ds.gbu("k")), dict(filter=m), ()
        gs = groups(S, [K], n, ordered=via == "gb")
    elif via == "codes":
        c = S.ints("c", n, np.int8, 0, 2)
        C = [int(S.concrete(y)) for y in S.L(c)]
        g, kw, arg = rt.Categorical(c, ["x", "y"], base_index=1), dict(filter=m), (x,)
        gs = [[i for i in range(n) if C[i] == b] for b in (1, 2)]
        M = [M[i] and C[i] > 0 for i in range(n)]
    else:
        if not any(M):
            return
        g, kw, arg = rt.Categorical(k, filter=m, ordered=via == "sorted", sort_gb=via == "display"), {}, (x,)
        gs = groups(S, [K], n, ordered=via != "first", rows=[i for i in range(n) if M[i]])
    names = [b"x", b"y"] if via == "codes" else [K[q[0]] for q in gs]
    fn = {"sum": "sum", "reduce": "apply_reduce"}.get(f, f)
    if f == "reduce":
        arg = (lambda q: q[-1],) + arg
    r = getattr(g, fn)(*arg, showfilter=True, **kw)
    if f == "sum":
        again = g.sum(*arg, **kw)
        S.eq_list(S.L(again[again.label_get_names()[0]]), names, "group keys of a later table without the filtered row")
        S.eq_list(S.L(again[again.keys()[-1] if via in ("gb", "gbu") else again.keys()[0]]), [sum(X[i] for i in h if M[i]) for h in gs], "sums of a later table")
    keys = S.L(r[r.label_get_names()[0]])
    S.check(len(keys) == len(gs) + 1, "a row for the filtered rows and one per group")
    if len(keys) != len(gs) + 1:
        return
    S.eq_list(keys[1:], names, "group keys")
    S.check(S.eq(keys[0], b"Filtered"), "name of the first row")
    data = [c for c in r.keys() if c not in r.label_get_names()]
    for p, q in enumerate([[i for i in range(n) if not M[i]]] + [[i for i in h if M[i]] for h in gs]):
        xs, got = [X[i] for i in q], S.L(r[data[-1]])[p]
        if f == "sum":
            S.check(S.eq(got, sum(xs)), f"{f} row {p}")
        elif f in ("mean", "median"):
            e = sorted(xs)
            want = NAN if not xs else sum(xs) / len(xs) if f == "mean" else (e[len(e) // 2] + e[(len(e) - 1) // 2]) / 2
            same(S, S.concrete(got), want, f"{f} row {p}")
        elif not xs:
            S.check(S.eq(got, inv_val(r[data[-1]].dtype)), f"{f} row {p} without rows")
        else:
            S.check(S.eq(got, {"min": min, "first": lambda z: z[0], "last": lambda z: z[-1], "reduce": lambda z: z[-1]}[f](xs)), f"{f} row {p}")


@scenario(quick=[dict(how=h, via=v) for h, v in (("reduce", "gb"), ("reduce", "gbu"), ("reduce", "cat"), ("reduce", "display"), ("nonreduce", "gb"), ("nonreduce", "cat"), ("apply", "cat"), ("apply", "display"), ("apply", "gb"), ("apply", "gbu"), ("reduce_all", "cat"))], budget=60)
def emptied_groups(S, how, via, n=3):
    """user functions with a filter: groups left without rows give the invalid value (or no row), the others keep their own keys."""
    rt = S.rt
    k, m, i = S.strs("k", n, 1, b"x"), S.bools("m", n), S.ints("i", n, np.int16, -50, 50)
    K, M, I = S.L(k), [bool(b) for b in S.L(m)], S.L(i)
    if how in ("apply", "reduce_all") and not any(M):
        return
    ds = rt.Dataset({"k": k, "i": i})
    if via in ("gb", "gbu"):
        g, arg = (ds.groupby("k") if via == "gb" else ds.gbu("k")), (() if how == "apply" else (ds["i"],))
    else:
        g, arg = rt.Categorical(k, ordered=via == "cat", sort_gb=True), (rt.Dataset({"i": ds["i"]}),)
    gs = groups(S, [K], n, ordered=via != "gbu")
    key = lambda r: S.L(r[r.label_get_names()[0]].expand_array if hasattr(r[r.label_get_names()[0]], "expand_array") else r[r.label_get_names()[0]])
    if how.startswith("reduce"):
        r = g.apply_reduce(lambda q: q[-1], *arg, filter=m)
        S.eq_list(key(r), [K[q[0]] for q in gs], "keys")
        for q, got in zip(gs, S.L(r["i"])):
            q = [j for j in q if M[j]]
            S.check(S.eq(got, I[q[-1]] if q else inv_val(np.int16)), "value of each group")
    elif how == "nonreduce":
        r = g.apply_nonreduce(lambda q: q[::-1].copy(), *arg, filter=m)
        got = S.L(r["i"])
        S.check(len(got) == n, "one value per row")
        for q in gs:
            q = [j for j in q if M[j]]
            for a, b in zip(q, q[::-1]):
                S.check(S.eq(got[a], I[b]), "value of each row in a group")
    else:
        r = g.apply(lambda d: {"i": d["i"][-1:].copy()}, *arg, filter=m)
        kept = [q for q in ([j for j in h if M[j]] for h in gs) if q]
        S.check(r.shape[0] == len(kept), "one row per remaining group")
        if r.shape[0] == len(kept):
            S.eq_list(key(r), [K[q[0]] for q in kept], "keys")
            S.eq_list(S.L(r["i"]), [I[q[-1]] for q in kept], "values")


@scenario(quick=[dict(how=h) for h in ("again", "again_cat", "totals", "names", "uniques_filter", "uniques_transform", "uniques_both", "uniques_gb")], budget=60)
def forms(S, how, n=3):
    """one result in the original row shape leaves the next ones alone; totals below the groups; arrays sharing a name; distinct counts with filter and in row shape."""
    rt = S.rt
    ds, K, V, I = make(S, n, "S1")
    gs = groups(S, [K], n)
    own = [next(x for x in gs if j in x) for j in range(n)]
    isums = [isum(S, [I[j] for j in x]) for x in gs]
    if how == "again_cat":
        c = rt.Categorical(ds["k"], ordered=False, sort_gb=True)
        r = c.transform.sum(ds["i"])
        S.eq_list(S.L(r["i"]), [isum(S, [I[j] for j in x]) for x in own], "one value per row")
        S.eq_list(S.L(c.sum(ds["i"])["i"]), isums, "then one value per group")
    elif how == "again":
        g = ds.groupby("k")
        r = g.transform.sum()
        S.eq_list(S.L(r["i"]), [isum(S, [I[j] for j in x]) for x in own], "one value per row")
        r = g.sum()
        S.eq_list(S.L(r["i"]), isums, "then one value per group")
        S.eq_list(S.L(r["k"]), [K[x[0]] for x in gs], "keys")
        r = g.max(transform=True)
        S.eq_list(S.L(r["i"]), [fmin(S, [I[j] for j in x], True) for x in own], "one value per row again")
        S.eq_list(S.L(g.last()["i"]), [I[x[-1]] for x in gs], "and one per group again")
    elif how == "totals":
        r = ds[["k", "i"]].groupby("k", totals=True).sum()
        S.eq_list(S.L(r["i"]), isums, "sums")
        t = r.footer_get_values(columns=["i"])["Total"][0]
        S.check(S.eq(t, isum(S, I)), "total of all groups")
    elif how == "names":
        cols = [S.ints(f"a{j}", n, np.int16, 0, 3) for j in range(4)]
        C = [S.L(c) for c in cols]
        for c, nm in zip(cols, ("x", "x", "x1", "x2")):
            c.set_name(nm)
        r = rt.Categorical(ds["k"]).sum(cols)
        S.check(r.shape == (len(gs), 5), "one column for each array")
        got = [r[nm] for nm in r.keys() if nm not in r.label_get_names()]
        for j, (g, c) in enumerate(zip(got, C)):
            S.eq_list(S.L(g), [isum(S, [c[y] for y in x]) for x in gs], "columns in the order given")
    else:
        w = S.ints("w", n, np.int16, 0, 1)
        W = S.L(w)
        M = [True] * n
        kw = {}
        if how in ("uniques_filter", "uniques_both"):
            m = S.bools("m", n)
            M = [bool(x) for x in S.L(m)]
            kw["filter"] = m
        tr = how in ("uniques_transform", "uniques_both")
        if tr:
            kw["transform"] = True
        if how == "uniques_gb":
            d = rt.Dataset({"k": ds["k"], "w": w})
            r = d.groupby("k").count_uniques(transform=True)
            tr = True
        else:
            r = rt.Categorical(ds["k"]).count_uniques(rt.Dataset({"w": w}), **kw)
        cnt = lambda x: len(groups(S, [W], n, rows=[j for j in x if M[j]]))
        S.eq_list(S.L(r["w"]), [cnt(x) for x in (own if tr else gs)], "distinct values of each group")
