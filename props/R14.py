"""Stacking rows and columns: every value lands in its own row and column, gaps are invalid."""
import warnings
import numpy as np
from sx.registry import scenario
from props.common import *

BOUNDS = "2-5 arrays, datasets or structs of 0-3 rows (dict stacking also up to 260 rows), numeric, boolean, string, two-dimensional, categorical and time columns, symbolic cells incl. invalids, every subset of columns present; selected instances also with every input a stepped or reversed view"

NUM = ["i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f4", "f8", "b1"]


def cval(S, x, dt):
    """value (NaN if invalid) of a numeric cell for comparison across dtypes."""
    if np.dtype(dt).kind == "f":
        return x
    if np.dtype(dt).kind == "b":
        return S.If(x, 1, 0)
    return asint(S, x)


def moved(S, got, gdt, src, sdt, msg):
    """got shows the same value as src (invalid stays invalid)."""
    inv = is_inv(S, src, sdt)
    ginv = is_inv(S, got, gdt)
    a, b = cval(S, got, gdt), cval(S, src, sdt)
    S.check(S.Or(S.And(inv, ginv), S.And(S.Not(inv), S.eq(a, b))), msg)


@scenario(quick=[dict(a=a, b=b, n=2, m=1) for k, a in enumerate(NUM) for b in NUM[k:]] + [dict(a="i4", b="f8", n=0, m=2), dict(a="u1", b="i1", n=1, m=0)],
          thorough=[dict(a=a, b=b, n=2, m=2) for a in NUM for b in NUM], budget=30)
def arrays(S, a, b, n, m):
    """stacking columns of two numeric types keeps values and invalids."""
    rt = S.rt
    x, y = col(S, "x", n, a, inv=True, lo=0, hi=100), col(S, "y", m, b, inv=True, lo=0, hi=100)
    X, Y = S.L(x), S.L(y)
    for st, src in ((lambda: rt.hstack([x, y]), [(X, a), (Y, b)]), (lambda: rt.stack_rows([y, x, y]), [(Y, b), (X, a), (Y, b)])):
        h = st()
        S.check(isinstance(h, rt.FastArray), "a FastArray")
        G = S.L(h)
        src = [(v, d) for vs, d in src for v in vs]
        S.check(len(G) == len(src), "length")
        for g, (v, d) in zip(G, src):
            moved(S, g, h.dtype, v, d, f"{a}+{b} value")
    S.eq_list(S.L(x), X, "source unchanged")


@scenario(quick=[dict(a=a, b=b, n=2, m=2) for a, b in (("S1", "S3"), ("S2", "S2"), ("U1", "U3"), ("U2", "S2"), ("S3", "U1"))], budget=30)
def strings(S, a, b, n, m):
    rt = S.rt
    x, y = col(S, "x", n, a), col(S, "y", m, b)
    X, Y = S.L(x), S.L(y)
    h = rt.hstack([x, y])
    if a[0] == b[0]:
        S.eq_list(S.L(h), X + Y, "stacked strings")
    else:
        tx = lambda v: [c for c in (v.c if hasattr(v, "c") else ([ord(c) for c in v] if isinstance(v, str) else list(bytes(v))))]
        for g, v in zip(S.L(h), X + Y):
            g, v = tx(g), tx(v)
            for j in range(max(len(g), len(v))):
                S.check(S.eq(asint(S, g[j]) if j < len(g) else 0, asint(S, v[j]) if j < len(v) else 0), "stacked mixed strings")


@scenario(quick=[dict(ns=[2, 1, 2]), dict(ns=[0, 2]), dict(ns=[2, 0, 1]), dict(ns=[3]), dict(ns=[1, 126, 2]), dict(ns=[127, 1]), dict(ns=[100, 100, 60]), dict(ns=[1, 1, 1, 2])],
          thorough=[dict(ns=[2, 1, 1, 1, 1]), dict(ns=[128, 128, 1]), dict(ns=[0, 0, 1])], budget=40)
def from_dict(S, ns):
    """stacking a dictionary gives the rows and a categorical naming each row's source."""
    rt = S.rt
    names = ["k%d" % (len(ns) - i) for i in range(len(ns))]
    d = {}
    want, src = [], []
    for nm, n in zip(names, ns):
        v = S.ints("v" + nm, n, np.int32, -5, 5) if n <= 3 else S.ints_at("v" + nm, [7] * n, [0, n - 1], np.int32, -5, 5)
        d[nm] = v
        want += S.L(v)
        src += [nm.encode()] * n
    arr, cat = rt.stack_rows(d)
    S.eq_list(S.L(arr), want, "values")
    S.eq_list(S.L(cat.expand_array), src, "each row's source")
    if all(ns):
        dd = {k: rt.Dataset({"p": v, "q": v + np.int32(1)}) for k, v in d.items()}
        ds, cat = rt.stack_rows(dd)
        S.eq_list(S.L(ds["p"]), want, "dataset rows")
        S.eq_list(S.L(ds["q"]), [x + 1 for x in want], "dataset rows, second column")
        S.eq_list(S.L(cat.expand_array), src, "each dataset row's source")


KINDS = ["i4", "u1", "f8", "b1", "S2", "U2", "cat", "icat", "date", "dtn", "span", "dspan"]


def column(S, name, n, kind):
    """(column, definition of its shown values, invalid shown value, reader)."""
    rt = S.rt
    if kind in ("cat", "icat"):
        v = S.strs(name, n, 1, b"xy", minlen=1) if kind == "cat" else S.ints(name, n, np.int32, 0, 2)
        if kind == "cat":
            V = S.L(v)
            return rt.Categorical(v), V, b"Filtered", lambda c: S.L(c.expand_array)
        c = rt.Categorical(v, ["one", "two"])
        V = S.L(v)
        lab = [b"Filtered", b"one", b"two"]
        W = []
        for x in V:
            j = 0 if bool(x == 0) else (1 if bool(x == 1) else 2)
            W.append(lab[j])
        return c, W, b"Filtered", lambda c: S.L(c.expand_array)
    if kind == "date":
        v = S.ints(name, n, np.int32, 1, 20000)
        return rt.Date(v), S.L(v), 0, lambda c: S.L(c._fa)
    if kind == "dtn":
        v = S.ints(name, n, np.int64, 1, 2 * 10 ** 18)
        return rt.DateTimeNano(v, from_tz="GMT", to_tz="NYC"), S.L(v), 0, lambda c: S.L(c._fa)
    if kind == "span":
        v = S.floats(name, n, -1000, 1000, q=0, nan=True)
        return rt.TimeSpan(v), S.L(v), NAN, lambda c: S.L(c._fa)
    if kind == "dspan":
        v = S.ints(name, n, np.int32, -50, 50)
        return rt.DateSpan(v), S.L(v), inv_val("i4"), lambda c: S.L(c._fa)
    v = col(S, name, n, kind, inv=True)
    return v, S.L(v), inv_val(kind), lambda c: S.L(c)


@scenario(quick=[dict(kind=k, ns=ns) for k in KINDS for ns in ([1, 2, 1], [2, 0, 1])] + [dict(kind=k, ns=[0, 1]) for k in ("i4", "cat", "date")],
          thorough=[dict(kind=k, ns=[1, 1, 1, 1]) for k in KINDS], budget=40)
def dataset_gaps(S, kind, ns):
    """rows stay whole whatever subset of the datasets has the column; gaps are invalid."""
    rt = S.rt
    has = [S.pick(f"has{i}", [True, False]) for i in range(len(ns))]
    S.assume(any(has))
    dss, rows, rid, gap = [], [], [], []
    r0 = None
    for i, n in enumerate(ns):
        idc = S.fa([10 * i + j for j in range(n)], np.int32) if n else rt.FastArray([], dtype=np.int32)
        cols = {"id": idc}
        rid += [10 * i + j for j in range(n)]
        if has[i]:
            c, V, iv, rd = column(S, f"c{i}", n, kind)
            cols["c"] = c
            rows += V
            gap += [False] * n
        else:
            rows += [None] * n
            gap += [True] * n
        dss.append(rt.Dataset(cols))
    before_ = [list(d.keys()) for d in dss]
    # an all-empty categorical has no well-defined category type
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = rt.Dataset.concat_rows(dss)
    S.check(list(r.keys()) == ["id", "c"], "columns in order of first appearance")
    S.check(r.shape[0] == sum(ns), "row count")
    S.eq_list(S.L(r["id"]), rid, "row order")
    G = rd(r["c"])
    S.check(len(G) == sum(ns), "column length")
    want = [iv if g else v for g, v in zip(gap, rows)]
    if kind in ("date",):
        for g, v, q in zip(G, want, gap):
            S.check(S.Or(S.eq(g, 0), S.eq(g, inv_val("i4"))) if q else S.eq(g, v), "date cell")
    elif kind in ("dtn",):
        for g, v, q in zip(G, want, gap):
            S.check(S.Or(S.eq(g, 0), S.eq(g, inv_val("i8"))) if q else S.eq(g, v), "timestamp cell")
    else:
        S.eq_list(G, want, "cells")
    S.check(type(r["c"]).__name__ == type(c).__name__, "column keeps its class")
    if kind == "dtn":
        S.check(r["c"]._timezone._to_tz == c._timezone._to_tz == "America/New_York", "column keeps its display zone")
    S.check([list(d.keys()) for d in dss] == before_, "sources keep their columns")


@scenario(quick=[dict(a=a, b=b) for a, b in (("i4", "f8"), ("f4", "i8"), ("u1", "i1"), ("u2", "i8"), ("i8", "u4"), ("i1", "f4"), ("u8", "u1"))],
          thorough=[dict(a=a, b=b) for a in NUM[:-1] for b in NUM[:-1] if a != b], budget=30)
def dataset_mixed(S, a, b):
    """a column with different numeric types in different datasets, missing in some."""
    rt = S.rt
    pos = S.pick("gap", [0, 1, 2, 3])
    x, y = col(S, "x", 2, a, inv=True, hi=100), col(S, "y", 1, b, inv=True, hi=100)
    X, Y = S.L(x), S.L(y)
    parts = [({"c": x}, X, a), ({"c": y}, Y, b)]
    if pos < 3:
        parts.insert(pos, ({"z": S.fa([1, 2], np.int32)}, None, None))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = rt.Dataset.concat_rows([rt.Dataset(p[0]) for p in parts])
    G = S.L(r["c"])
    dt = r["c"].dtype
    k = 0
    for cols, V, d in parts:
        if V is None:
            for _ in range(2):
                S.check(is_inv(S, G[k], dt), f"gap of {a}/{b} is invalid")
                k += 1
        else:
            for v in V:
                moved(S, G[k], dt, v, d, f"{a}/{b} value")
                k += 1
    S.check(k == len(G), "length")


@scenario(quick=[dict(destroy=False), dict(destroy=True)], budget=30)
def many_columns(S, destroy):
    """rows of every column move together; destroy only empties the sources."""
    rt = S.rt
    n, m = 2, 2
    A = {"a": S.ints("a0", n, np.int32, 0, 3), "s": S.strs("s0", n, 2, b"xy"), "f": S.floats("f0", n, -1, 1, q=0)}
    B = {"f": S.floats("f1", m, -1, 1, q=0), "b": S.bools("b1", m), "a": S.ints("a1", m, np.int32, 0, 3)}
    LA, LB = {k: S.L(v) for k, v in A.items()}, {k: S.L(v) for k, v in B.items()}
    x, y = rt.Dataset(A), rt.Dataset(B)
    r = rt.Dataset.concat_rows([x, y], destroy=destroy)
    S.check(list(r.keys()) == ["a", "s", "f", "b"], "column order")
    S.eq_list(S.L(r["a"]), LA["a"] + LB["a"], "a")
    S.eq_list(S.L(r["f"]), LA["f"] + LB["f"], "f")
    S.eq_list(S.L(r["s"]), LA["s"] + [b""] * m, "s")
    S.eq_list(S.L(r["b"]), [False] * n + LB["b"], "b")
    if not destroy:
        for d, L in ((x, LA), (y, LB)):
            for k in L:
                S.eq_list(S.L(d[k]), L[k], "source unchanged")


@scenario(quick=[dict(n=1, m=2), dict(n=2, m=1)], budget=40)
def structs(S, n, m):
    """stacked structs stack each member (arrays, nested structs, datasets, scalars) under its name."""
    rt = S.rt
    a, b = S.ints("a", n, np.int32, 0, 3), S.ints("b", m, np.int32, 0, 3)
    c, d = S.strs("c", n, 1, b"xy", minlen=1), S.strs("d", m, 1, b"xy", minlen=1)
    e, f = S.floats("e", n, -1, 1, q=0), S.floats("f", m, -1, 1, q=0)
    A, B, C, D, E, F = map(S.L, (a, b, c, d, e, f))
    s = rt.Struct({"v": a, "k": rt.Categorical(c), "ds": rt.Dataset({"p": e}), "inn": rt.Struct({"w": a}), "t": rt.Date(a + np.int32(1)), "only": a})
    t = rt.Struct({"k": rt.Categorical(d), "v": b, "inn": rt.Struct({"w": b}), "ds": rt.Dataset({"p": f}), "t": rt.Date(b + np.int32(1)), "late": b})
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = rt.Struct.concat_structs([s, t]) if hasattr(rt.Struct, "concat_structs") else rt.stack_rows([s, t])
    S.check(list(r.keys()) == ["v", "k", "ds", "inn", "t", "only", "late"], "members in order of first appearance")
    S.eq_list(S.L(r["v"]), A + B, "array")
    S.eq_list(S.L(r["k"].expand_array), C + D, "categorical")
    S.eq_list(S.L(r["ds"]["p"]), E + F, "dataset")
    S.eq_list(S.L(r["inn"]["w"]), A + B, "nested struct")
    S.eq_list(S.L(r["t"]._fa), [x + 1 for x in A + B], "date")
    S.eq_list(S.L(r["only"]), A, "member of the first only")
    S.eq_list(S.L(r["late"]), B, "member of the second only")
    S.eq_list(S.L(s["v"]), A, "source unchanged")
    S.check(list(s.keys()) == ["v", "k", "ds", "inn", "t", "only"], "source keeps its members")


@scenario(quick=[dict(dup=d, mis=m, copy=c) for d in ("raise", "first", "last") for m in ("warn", "raise", "ignore") for c in (True, False)], budget=30)
def columns(S, dup, mis, copy):
    """concat_columns: all columns, duplicates resolved as requested, unequal lengths rejected."""
    rt = S.rt
    n = 2
    names = [S.pick(f"n{i}", ["a", "b"] if i else ["a"]) for i in range(3)]
    cols = [S.ints(f"v{i}", n, np.int32, 0, 5) for i in range(3)]
    V = [S.L(c) for c in cols]
    dss = [rt.Dataset({nm: c, f"u{i}": c + np.int32(1)}) for i, (nm, c) in enumerate(zip(names, cols))]
    isdup = len(set(names)) < 3
    want = {}
    for i, nm in enumerate(names):
        if nm not in want or dup == "last":
            want[nm] = V[i]
        want[f"u{i}"] = [x + 1 for x in V[i]]
    exc = None
    warned = False
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            r = rt.Dataset.concat_columns(dss, do_copy=copy, on_duplicate=dup, on_mismatch=mis)
        except (KeyError, RuntimeError) as ex:
            exc = type(ex)
    if isdup and dup == "raise":
        S.check(exc is KeyError, "duplicate names are rejected")
        return
    if isdup and mis == "raise":
        S.check(exc is RuntimeError, "mismatch is rejected")
        return
    S.check(exc is None, "accepted")
    S.check(list(r.keys()) == list(want), "column order")
    for k in want:
        S.eq_list(S.L(r[k]), want[k], f"column {k}")
    if copy:
        r[0, "u0"] = 77
        S.eq_list(S.L(dss[0]["u0"]), [x + 1 for x in V[0]], "copied columns are independent")
    try:
        rt.Dataset.concat_columns([dss[0], rt.Dataset({"z": S.fa([1, 2, 3], np.int32)})], do_copy=copy)
        S.check(False, "different lengths are rejected")
    except ValueError:
        pass


@scenario(quick=[dict(order="C"), dict(order="F")], budget=30)
def vstack(S, order):
    """vstack: one row per array (C order)."""
    rt = S.rt
    x, y = S.ints("x", 3, np.int32, 0, 5), S.ints("y", 3, np.int32, 0, 5)
    X, Y = S.L(x), S.L(y)
    if order == "C":
        v = rt.vstack([x, y])
        S.check(v.shape == (2, 3), "shape")
        S.eq_list(S.L(v[0]), X, "first row")
        S.eq_list(S.L(v[1]), Y, "second row")
    else:
        v = rt.vstack([x, y], order="F")
        S.check(v.shape == (3, 2), "shape")
        S.eq_list(S.L(v[:, 0]), X, "first column")
        S.eq_list(S.L(v[:, 1]), Y, "second column")


MAPS = [({10: "ten", 20: "twenty", 30: "thirty"}, {20: "twenty", 40: "forty", 10: "ten"}), ({1: "a", 2: "b", 3: "c"}, {1: "a", 2: "b", 3: "c"}),
        ({10: "ten", 20: "twenty", 30: "z"}, {11: "ten", 20: "twenty", 5: "y"}), ({1: "a", 2: "b", 3: "c"}, {2: "a", 1: "b", 4: "c"})]


@scenario(quick=[dict(n=n, m=m, k=k) for k in range(4) for n, m in ((2, 1), (1, 0), (1, 2))], budget=30)
def mapped_cats(S, n, m, k):
    """categoricals built from code dictionaries stack to the same shown names; contradicting dictionaries are rejected."""
    rt = S.rt
    ma, mb = MAPS[k]
    a, b = S.ints("a", n, np.int32, 0, 2), S.ints("b", m, np.int32, 0, 2)
    A, B = S.L(a), S.L(b)
    ka, kb = list(ma), list(mb)
    cd = lambda x, kk: S.If(x == 0, kk[0], S.If(x == 1, kk[1], kk[2]))
    CA, CB = [cd(x, ka) for x in A], [cd(x, kb) for x in B]
    ca, cb = rt.Categorical(S.fa(CA, np.int32), ma), rt.Categorical(S.fa(CB, np.int32), mb)
    contra = any(c in mb and mb[c] != v for c, v in ma.items())
    try:
        h = rt.hstack([ca, cb])
    except ValueError:
        S.check(contra, "dictionaries that agree are accepted")
        return
    S.check(not contra, "contradicting dictionaries are rejected")
    S.eq_list(S.L(h._fa), CA + CB, "codes")
    mm = h.category_mapping
    both = {**ma, **mb}
    for c, v in both.items():
        S.check(str(mm.get(c)) == v, f"name of code {c}")
    S.eq_list(S.L(h.isfiltered()), [False] * (n + m), "no row is lost")
    try:
        rt.hstack([ca, rt.Categorical(S.strs("s", 1, 1, b"x", minlen=1))])
        S.check(False, "categoricals of different kinds are rejected")
    except TypeError:
        pass


@scenario(quick=[dict(u=90, w=60, order=o, via=v) for o in ("sorted", "unsorted") for v in ("hstack", "dataset")] + [dict(u=126, w=2, order="unsorted", via="hstack"), dict(u=127, w=2, order="unsorted", via="dataset")], budget=60)
def categoricals_over_limit(S, u, w, order, via):
    """stacked categoricals whose combined categories outgrow their code types keep every value."""
    stacked_many(S, u, w, order, via)


@scenario(quick=[dict(dt=d, ns=ns) for d in ("i4", "f8", "u1") for ns in ([1, 2, 1], [1, 1, 2, 1])], budget=40)
def matrix_gaps(S, dt, ns):
    """columns of two values per row: rows stay whole, rows of tables without the column are invalid."""
    rt = S.rt
    has = [S.pick(f"has{i}", [True, False]) for i in range(len(ns))]
    S.assume(any(has))
    dss, want, rid = [], [], []
    for i, n in enumerate(ns):
        cols = {"id": S.fa([10 * i + j for j in range(n)], np.int32)}
        rid += [10 * i + j for j in range(n)]
        if has[i]:
            v = col(S, f"c{i}", 2 * n, dt, inv=True, hi=100)
            want += S.L(v)
            cols["c"] = v.reshape((n, 2))
        else:
            want += [inv_val(dt)] * (2 * n)
        dss.append(rt.Dataset(cols))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = rt.Dataset.concat_rows(dss)
    S.eq_list(S.L(r["id"]), rid, "row order")
    S.check(r["c"].shape == (sum(ns), 2), "shape")
    got = []
    for i in range(sum(ns)):
        got += S.L(r["c"][i])
    S.eq_list(got, want, "cells")


@scenario(quick=[dict(sizes=z, gap=g) for z in ([2, 1], [0, 2, 1], [1, 1, 0], [1]) for g in (False, True) if not (g and len(z) == 1)], budget=40)
def partitions(S, sizes, gap):
    """a partitioned table gives back the rows of each of its parts, under its name."""
    rt = S.rt
    tabs, A, F = [], [], []
    for j, m in enumerate(sizes):
        a, f = S.ints(f"a{j}", m, np.int32, -5, 5, inv=True), S.floats(f"f{j}", m)
        A.append(S.L(a))
        F.append(S.L(f))
        d = {"a": a, "f": f}
        if gap and j == 1:
            del d["f"]
            F[-1] = [NAN] * m
        tabs.append(rt.Dataset(d))
    p = rt.PDataset(tabs)
    S.check(p.shape == (sum(sizes), 2) and p.pcount == len(sizes), "rows and parts")

    def check(p, names):
        S.check(p.pnames == names, f"names of the parts {p.pnames}")
        S.eq_list(S.L(p.prows), sizes, "rows of each part")
        S.eq_list(S.L(p["a"]), sum(A, []), "all rows in order")
        S.eq_list(S.L(p.pcat.expand_array), [x.encode() for x, m in zip(names, sizes) for _ in range(m)], "the part of each row")
        byname, it = p.pdict, list(p.piter)
        S.check([x for x, _ in it] == names, "iterated names")
        for j, m in enumerate(sizes):
            for t in (p.partition(j), p[names[j]], it[j][1]):
                S.check(t.shape == (m, 2), "shape of a part")
                S.eq_list(S.L(t["a"]), A[j], "integers of a part")
                S.eq_list(S.L(t["f"]), F[j], "floats of a part")
            S.eq_list(S.L(p["a"][byname[names[j]]]), A[j], "slice of a part")

    check(p, [f"p{j}" for j in range(len(sizes))])
    q = p.copy()
    new = [f"n{j}" for j in range(len(sizes))][::-1]
    p.set_pnames(new)
    check(p, new)
    check(q, [f"p{j}" for j in range(len(sizes))])
