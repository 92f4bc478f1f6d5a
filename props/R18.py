"""SDS files: what was saved is what is loaded, whole, selected, filtered or stacked."""
import os
import numpy as np
from sx.registry import scenario
from props.common import *

BOUNDS = "datasets of 0-3 rows with up to 9 columns, structs nested two deep, arrays, 1-3 files; symbolic cells, codes, masks and row lists; the file format and compression of the compiled extension are represented by a contract"

KINDS = ["i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f4", "f8", "b1", "S2", "U2"]


def same(S, a, b, msg):
    """b (loaded) has the class, dtype and cells of a (list of cells A taken before saving)."""
    S.check(type(b) is type(a[0]), f"{msg}: class {type(b).__name__} instead of {type(a[0]).__name__}")
    S.check(b.dtype == a[0].dtype, f"{msg}: dtype {b.dtype} instead of {a[0].dtype}")
    S.check(b.shape == a[0].shape, f"{msg}: shape {b.shape} instead of {a[0].shape}")
    S.eq_list(S.L(b), a[1], f"{msg}: values")


def snap(S, ds):
    return {k: (v, list(S.L(v._fa if hasattr(v, "_fa") else v))) for k, v in ds.items()}


def table(S, p, n, kinds):
    rt = S.rt
    return rt.Dataset({f"c{j}_{k}": col(S, f"{p}{j}", n, k, inv=True) for j, k in enumerate(kinds)})


@scenario(quick=[dict(kinds=KINDS[:7], n=2), dict(kinds=KINDS[7:], n=2), dict(kinds=["i4", "S1", "f8"], n=0), dict(kinds=["f8", "i8", "U1"], n=1),
                 dict(kinds=["i4", "f8"], n=2, include=[1]), dict(kinds=["i4", "f8", "S1"], n=2, include=[2, 0]), dict(kinds=["i4", "f8"], n=2, compress=False),
                 dict(kinds=["i4", "f8", "S2"], n=3, mask=True), dict(kinds=["i4", "b1"], n=3, mask=True, include=[1]), dict(kinds=["i4", "b1"], n=3, rows=True),
                 dict(kinds=["i4", "f8"], n=2, noext=True), dict(kinds=["i4", "f8"], n=2, onefile=True), dict(kinds=["i4", "S2"], n=2, again=True)],
          thorough=[dict(kinds=[k], n=3, mask=m) for k in KINDS for m in (False, True)], budget=60)
def columns(S, kinds, n, include=None, compress=True, mask=False, rows=False, noext=False, onefile=False, again=False):
    """plain columns come back with names, order, types and values; selections pick exactly what was asked."""
    rt = S.rt
    d = S.tmpdir()
    ds = table(S, "x", n, kinds)
    src = snap(S, ds)
    if again:  # the newest save counts
        rt.Dataset({"old": rt.arange(4)}).save(d + "/t.sds")
    ds.save(d + "/t.sds", compress=compress, **({"onefile": True} if onefile else {}))
    for k, (v, c) in src.items():
        S.eq_list(S.L(ds[k]), c, "the saved table is unchanged")
    kw = {}
    keep = list(range(n))
    names = list(src)
    if include is not None:
        names = [k for j, k in enumerate(src) if j in include]
        kw["include"] = [list(src)[j] for j in include]
    if mask:
        m = S.bools("m", n)
        kw["filter"] = m
        keep = [i for i, b in enumerate(S.L(m)) if bool(b)]
    if rows:
        r = S.ints("r", 2, np.int32, 0, n - 1)
        kw["filter"] = r
        R = S.L(r)
        keep = [i for i in range(n) if bool(S.Or(*[x == i for x in R]))]
    got = rt.load_sds(d + ("/t" if noext else "/t.sds"), **kw)
    S.check(type(got) is rt.Dataset, "a Dataset")
    S.check(list(got.keys()) == names, f"column names {list(got.keys())}")
    S.check(got.shape == (len(keep), len(names)), f"shape {got.shape}")
    for k in names:
        v, c = src[k]
        g = got[k]
        S.check(g.dtype == v.dtype and type(g) is rt.FastArray, f"type of {k}: {g.dtype}")
        S.eq_list(S.L(g), [c[i] for i in keep], f"loaded values of {k}")


@scenario(quick=[dict(how=h) for h in ("values", "codes0", "codes1", "filter", "unordered", "multikey", "enum", "strings", "subset", "onefile", "mask", "array", "numbers")], budget=60)
def categoricals(S, how):
    """a categorical comes back with every row's own value, its categories, base index, and order."""
    rt = S.rt
    d = S.tmpdir()
    n = 3
    if how in ("codes0", "codes1"):
        b = int(how[-1])
        x = S.ints("x", n, np.int8, 0 if b else 0, 2)
        c = rt.Categorical(x, ["q", "p", "r"][:3 if not b else 2] if b == 0 else ["q", "p"], base_index=b)
    elif how == "filter":
        c = rt.Categorical(S.ints("x", n, np.int32, 0, 2), filter=S.bools("f", n))
    elif how == "unordered":
        c = rt.Categorical(S.ints("x", n, np.int32, 0, 2), ordered=False)
    elif how == "multikey":
        c = rt.Categorical([S.ints("x", n, np.int32, 0, 1), S.strs("y", n, 1, b"uv", minlen=1)])
    elif how == "enum":
        c = rt.Categorical(S.ints("x", n, np.int32, 0, 2), {"zero": 0, "one": 1, "five": 2})
    elif how == "strings":
        c = rt.Categorical(S.strs("x", n, 2, b"ab", minlen=1))
    else:
        c = rt.Categorical(S.ints("x", n, np.int32, 0, 2))
    codes = list(S.L(c._fa))
    cats = {k: list(S.L(v)) for k, v in c.category_dict.items()} if how != "enum" else dict(c.category_mapping)
    ds = rt.Dataset({"a": rt.arange(n), "c": c, "z": rt.arange(n) * 2})
    kw, keep = {}, list(range(n))
    if how == "array":
        rt.save_sds(d + "/t.sds", c)
        g = rt.load_sds(d + "/t.sds")
    else:
        ds.save(d + "/t.sds", **({"onefile": True} if how == "onefile" else {}))
        if how == "subset":
            kw["include"] = ["c"]
        if how == "mask":
            m = S.bools("m", n)
            kw["filter"] = m
            keep = [i for i, b in enumerate(S.L(m)) if bool(b)]
        got = rt.load_sds(d + "/t.sds", **kw)
        S.check(list(got.keys()) == (["c"] if how == "subset" else ["a", "c", "z"]), "columns")
        g = got.c
        if how != "subset":
            S.eq_list(S.L(got.z), [2 * i for i in keep], "other column")
    S.check(type(g) is rt.Categorical, "a Categorical")
    S.check(g.base_index == c.base_index and g.category_mode == c.category_mode, "base index and mode")
    S.check(g.ordered == c.ordered and g.sort_gb == c.sort_gb, "order flags")
    S.eq_list(S.L(g._fa), [codes[i] for i in keep], "codes")
    S.check(g._fa.dtype == c._fa.dtype, "code dtype")
    if how == "enum":
        S.check(dict(g.category_mapping) == cats, "code dictionary")
    else:
        gc = {k: list(S.L(v)) for k, v in g.category_dict.items()}
        S.check(len(gc) == len(cats), "number of key columns")
        for (k1, v1), (k2, v2) in zip(gc.items(), cats.items()):
            S.eq_list(v1, v2, "categories")


@scenario(quick=[dict(what=w, how=h) for w in ("date", "span", "dtn", "dtn_gmt", "dtn_dublin", "timespan") for h in ("ds", "array", "stack")], budget=40)
def times(S, what, how):
    """dates and times come back in their class with their time zone and missing values."""
    rt = S.rt
    d = S.tmpdir()
    n = 2
    DAY = 86_400_000_000_000

    def make(p):
        if what == "date":
            return rt.Date(S.ints(p, n, np.int32, 0, 20000, inv=False))
        if what == "span":
            return rt.DateSpan(S.ints(p, n, np.int32, 0, 20000))
        if what == "timespan":
            return rt.TimeSpan(S.floats(p, n, 0, 1000, q=0, nan=True))
        tz = {"dtn": "NYC", "dtn_gmt": "GMT", "dtn_dublin": "DUBLIN"}[what]
        return rt.DateTimeNano(S.ints(p, n, np.int64, DAY * 9000, DAY * 9100), from_tz="GMT", to_tz=tz)

    x = make("x")
    X = list(S.L(x._fa))
    want = list(X)
    if how == "array":
        rt.save_sds(d + "/t.sds", x)
        g = rt.load_sds(d + "/t.sds")
    elif how == "ds":
        rt.Dataset({"t": x, "k": rt.arange(n)}).save(d + "/t.sds")
        got = rt.load_sds(d + "/t.sds")
        S.check(list(got.keys()) == ["t", "k"], "columns")
        g = got.t
    else:
        y = make("y")
        want += list(S.L(y._fa))
        rt.Dataset({"t": x}).save(d + "/a.sds")
        rt.Dataset({"t": y}).save(d + "/b.sds")
        g = rt.load_sds([d + "/a.sds", d + "/b.sds"], stack=True).t
    S.check(type(g) is type(x), f"class {type(g).__name__}")
    S.check(g._fa.dtype == x._fa.dtype, "dtype")
    S.eq_list(S.L(g._fa), want, "values")
    if what.startswith("dtn"):
        S.check(g._timezone._to_tz == x._timezone._to_tz, "display zone")


@scenario(quick=[dict(onefile=o, deep=dp) for o in (False, True) for dp in (1, 2)] + [dict(onefile=False, deep=1, folders=True), dict(onefile=True, deep=1, folders=True)], budget=60)
def structs(S, onefile, deep, folders=False):
    """structs come back with scalars, arrays, tables and nested structs under their names."""
    rt = S.rt
    d = S.tmpdir()
    a = S.ints("a", 2, np.int32, -5, 5, inv=True)
    f = S.floats("f", 3)
    s = S.strs("s", 2, 2)
    c = rt.Categorical(S.ints("x", 2, np.int32, 0, 1))
    inner = rt.Struct({"deep": f, "t2": rt.Dataset({"q": s, "c": c})})
    if deep == 2:
        inner = rt.Struct({"mid": inner, "h": rt.arange(2)})
    k = 7
    st = rt.Struct({"t1": rt.Dataset({"b": a, "a": s}), "k": k, "w": f, "inner": inner, "txt": "hello", "y": 2.5})
    rt.save_sds(d + ("/st.sds" if onefile else "/st"), st, onefile=onefile)
    kw = {}
    if folders:
        kw = dict(folders=["t1/"] if onefile else ["t1"]) if onefile else dict(include=["t1"])
    g = rt.load_sds(d + ("/st.sds" if onefile else "/st"), **kw)
    if folders:
        if onefile:
            t = g if type(g) is rt.Dataset else g.t1
        else:
            t = g if type(g) is rt.Dataset else g.t1
        S.check(list(t.keys()) == ["b", "a"], "selected folder")
        S.eq_list(S.L(t.b), S.L(a), "selected folder values")
        return
    S.check(set(g.keys()) == {"t1", "k", "w", "inner", "txt", "y"}, f"items {list(g.keys())}")
    S.check(list(g.keys()) == ["t1", "k", "w", "inner", "txt", "y"], f"item order {list(g.keys())}")
    S.check(type(g.t1) is rt.Dataset and list(g.t1.keys()) == ["b", "a"], "table")
    S.eq_list(S.L(g.t1.b), S.L(a), "table values")
    S.eq_list(S.L(g.t1.a), S.L(s), "table text")
    S.check(int(g.k) == 7 and float(g.y) == 2.5 and (g.txt == "hello" or g.txt == b"hello"), "scalars")
    S.eq_list(S.L(g.w), S.L(f), "array")
    gi = g.inner
    S.check(type(gi) is rt.Struct, "nested struct")
    if deep == 2:
        S.eq_list(S.L(gi.h), [0, 1], "nested array")
        gi = gi.mid
    S.check(list(gi.keys()) == ["deep", "t2"], "nested items")
    S.eq_list(S.L(gi.deep), S.L(f), "nested array")
    S.eq_list(S.L(gi.t2.q), S.L(s), "nested table")
    S.eq_list(S.L(gi.t2.c.expand_array), S.L(c.expand_array), "nested categorical")


@scenario(quick=[dict(na=2, nb=1, a=["i4", "f8", "S1"], b=["i4", "f8", "S2"]), dict(na=0, nb=2, a=["i4", "S1"], b=["i4", "S1"]), dict(na=2, nb=2, a=["i1", "f8"], b=["i4", "i4"]),
                 dict(na=2, nb=1, a=["i4", "f8"], b=["i4"]), dict(na=1, nb=2, a=["i4"], b=["i4", "f8", "U1", "i8", "S1", "u1"]), dict(na=2, nb=2, a=["i4", "S1"], b=["i4", "S1"], mask=True),
                 dict(na=2, nb=2, a=["i4", "f8", "b1"], b=["i4", "f8", "b1"], include=["c1"]), dict(na=1, nb=1, a=["i8", "u2"], b=["i8", "u2"], nofile=True), dict(na=1, nb=2, a=["f4", "U2"], b=["f8", "U1"], three=True)],
          budget=60)
def stacked(S, na, nb, a, b, mask=False, include=None, nofile=False, three=False):
    """stacking files gives their rows one after another, absent columns invalid."""
    rt = S.rt
    d = S.tmpdir()
    A = rt.Dataset({f"c{j}": col(S, f"a{j}", na, k, inv=True) for j, k in enumerate(a)})
    B = rt.Dataset({f"c{j}": col(S, f"b{j}", nb, k, inv=True) for j, k in enumerate(b)})
    A.save(d + "/a.sds")
    B.save(d + "/b.sds")
    parts = [(A, a, na), (B, b, nb)]
    files = [d + "/a.sds", d + "/b.sds"]
    if nofile:
        files.insert(1, d + "/missing.sds")
    if three:
        parts.append(parts[0])
        files.append(files[0])
    kw = {}
    if include:
        kw["include"] = include
    n = sum(p[2] for p in parts)
    keep = list(range(n))
    if mask:
        m = S.bools("m", n)
        kw["filter"] = m
        keep = [i for i, x in enumerate(S.L(m)) if bool(x)]
    got = rt.load_sds(files, stack=True, **kw)
    names = [f"c{j}" for j in range(max(len(a), len(b)))]
    if include:
        names = [x for x in names if x in include]
    S.check(list(got.keys()) == names, f"columns {list(got.keys())}")
    S.check(got.shape[0] == len(keep), "row count")
    for nm in names:
        j = int(nm[1:])
        src = []
        for t, ks, cnt in parts:
            src += [(x, ks[j]) for x in S.L(t[nm])] if j < len(ks) else [None] * cnt
        G = got[nm]
        for g, i in zip(S.L(G), keep):
            if src[i] is None:
                S.check(is_inv(S, g, G.dtype), f"{nm}: absent cell is invalid")
            elif np.dtype(src[i][1]).kind in "SU":
                S.check(S.eq(g, src[i][0]), f"{nm}: stacked text")
            else:
                v, dt = src[i]
                inv = is_inv(S, v, dt)
                val = lambda y, q: (y if np.dtype(q).kind == "f" else S.If(y, 1, 0) if np.dtype(q).kind == "b" else S.float_of(y) if G.dtype.kind == "f" else asint(S, y))
                S.check(S.Or(S.And(inv, is_inv(S, g, G.dtype)), S.And(S.Not(inv), S.eq(val(g, G.dtype), val(v, dt)))), f"{nm}: stacked value")
    if not mask and not nofile:
        cut, pos = [], 0
        for _, _, cnt in parts:
            pos += cnt
            cut.append(pos)
        S.check([int(x) for x in S.L(got.pcutoffs)] == cut if hasattr(got, "pcutoffs") else True, "partition borders")


@scenario(quick=[dict(how=h) for h in ("values", "base0", "strings", "filter", "mask", "missing", "missing_first", "multikey", "enum", "enum_int", "three", "unordered", "display")], budget=90)
def stacked_categoricals(S, how):
    """after stacking files every row shows its own category."""
    rt = S.rt
    d = S.tmpdir()
    na, nb = 2, 2

    def make(p, n):
        if how == "base0":
            return rt.Categorical(S.ints(p, n, np.int8, 0, 1), ["q", "p"] if p == "x" else ["p", "r"], base_index=0)
        if how == "strings":
            return rt.Categorical(S.strs(p, n, 1 if p == "x" else 2, b"ab", minlen=1))
        if how == "filter":
            return rt.Categorical(S.ints(p, n, np.int32, 0, 2), filter=S.bools("f" + p, n))
        if how == "multikey":
            return rt.Categorical([S.ints(p, n, np.int32, 0, 1), S.strs("k" + p, n, 1, b"uv", minlen=1)])
        if how == "enum":
            return rt.Categorical(S.ints(p, n, np.int32, 0, 1) * 5, {"zero": 0, "five": 5} if p == "x" else {"five": 5, "nine": 9, "zero": 0})
        if how == "enum_int":
            return rt.Categorical(S.ints(p, n, np.int32, 0, 1) * 5, {5: "five", 0: "zero"} if p == "x" else {5: "five", 9: "nine", 0: "zero"})
        if how == "display":
            return rt.Categorical(S.ints(p, n, np.int32, 0, 2), ordered=False, sort_gb=True)
        return rt.Categorical(S.ints(p, n, np.int32, 0, 2), ordered=how != "unordered")

    def vals(c):
        r = c.expand_array
        return list(zip(*[S.L(y) for y in r])) if isinstance(r, tuple) else [(y,) for y in S.L(r)]

    cs = [make("x", na), make("y", nb)]
    V = [vals(c) for c in cs]
    parts = []
    for j, c in enumerate(cs):
        ds = {"k": rt.arange(len(c)) + 10 * j, "c": c}
        if how == "missing" and j == 1 or how == "missing_first" and j == 0:
            del ds["c"]
        rt.Dataset(ds).save(d + f"/{j}.sds")
        parts.append(d + f"/{j}.sds")
    K = [0, 1, 10, 11]
    want = V[0] + V[1]
    if how == "three":
        parts.append(parts[0])
        want = want + V[0]
        K = K + [0, 1]
    kw, keep = {}, list(range(len(K)))
    if how == "mask":
        m = S.bools("m", 4)
        kw["filter"] = m
        keep = [i for i, x in enumerate(S.L(m)) if bool(x)]
    got = rt.load_sds(parts, stack=True, **kw)
    S.eq_list(S.L(got.k), [K[i] for i in keep], "row order")
    g = got.c
    S.check(type(g) is rt.Categorical, "a Categorical")
    if how[:4] != "enum":
        S.check(g.base_index == cs[0].base_index, "base index")
    G = vals(g)
    S.check(len(G) == len(keep), "rows")
    for r, i in zip(G, keep):
        if how == "missing" and i >= 2 or how == "missing_first" and i < 2:
            S.check(is_inv(S, r[0], np.int32), "absent category is invalid")
            continue
        for y, w in zip(r, want[i]):
            S.check(S.eq(y, w), "row shows its own category")
    if how == "display":
        r = g.sum(got.k)
        names = S.L(r[r.label_get_names()[0]])
        S.check(S.And(*[x < y for x, y in zip(names, names[1:])]), "still shown in sorted order")


@scenario(quick=[dict(how=h) for h in ("lists", "sections", "sections_same", "overwrite", "overwrite_no", "pathlike", "matrix", "array", "meta", "dir_stack", "concat_order")], budget=40)
def files(S, how):
    """several files, sections, overwriting, matrices, single arrays, column settings."""
    rt = S.rt
    d = S.tmpdir()
    a, b = S.ints("a", 2, np.int32, -5, 5, inv=True), S.floats("b", 2)
    A, B = rt.Dataset({"i": a, "j": b}), rt.Dataset({"i": a + 1})
    if how == "lists":
        A.save(d + "/a.sds")
        B.save(d + "/b.sds")
        r = rt.load_sds([d + "/b.sds", d + "/a.sds"])
        S.check(len(r) == 2 and list(r[0].keys()) == ["i"] and list(r[1].keys()) == ["i", "j"], "one table per file, in list order")
        S.eq_list(S.L(r[0].i), S.L(B.i), "first file")
        S.eq_list(S.L(r[1].i) + S.L(r[1].j), S.L(a) + S.L(b), "second file")
    elif how in ("sections", "sections_same"):
        C = rt.Dataset({"i": rt.arange(3), "q": rt.arange(3) * 2}) if how == "sections" else B
        A.save(d + "/a.sds", append="one")
        C.save(d + "/a.sds", append="two")
        r = rt.load_sds(d + "/a.sds")
        if how == "sections":
            S.check(list(r.keys()) == ["one", "two"], "sections by name")
            S.eq_list(S.L(r.one.i) + S.L(r.one.j), S.L(a) + S.L(b), "section one")
            S.eq_list(S.L(r.two.i) + S.L(r.two.q), [0, 1, 2, 0, 2, 4], "section two")
        else:
            S.check(list(r.keys()) == ["i", "j", "i_0"], "columns of equally long sections side by side")
            S.eq_list(S.L(r.i) + S.L(r.j) + S.L(r["i_0"]), S.L(a) + S.L(b) + S.L(B.i), "values")
    elif how == "overwrite":
        A.save(d + "/a.sds")
        B.save(d + "/a.sds", overwrite=True)
        r = rt.load_sds(d + "/a.sds")
        S.check(list(r.keys()) == ["i"], "new columns only")
        S.eq_list(S.L(r.i), S.L(B.i), "newest values")
    elif how == "overwrite_no":
        rt.Struct({"t": A, "v": 1}).save(d + "/s")
        rt.Struct({"t": B, "v": 2}).save(d + "/s")
        r = rt.load_sds(d + "/s")
        S.check(list(r.t.keys()) == ["i"] and int(r.v) == 2, "saving a struct again replaces it")
    elif how == "pathlike":
        import pathlib
        A.save(pathlib.Path(d) / "a.sds")
        r = rt.load_sds(pathlib.Path(d) / "a.sds")
        S.eq_list(S.L(r.i) + S.L(r.j), S.L(a) + S.L(b), "values")
    elif how == "matrix":
        m = S.ints("m", 6, np.int32, 0, 3).reshape(2, 3)
        rt.Dataset({"m": m, "i": a}).save(d + "/a.sds")
        r = rt.load_sds(d + "/a.sds")
        S.check(r.m.shape == (2, 3), "shape")
        S.eq_list(S.L(r.m), S.L(m), "matrix cells")
    elif how == "array":
        rt.save_sds(d + "/v.sds", b)
        r = rt.load_sds(d + "/v.sds")
        S.check(type(r) is rt.FastArray, "an array")
        S.eq_list(S.L(r), S.L(b), "values")
    elif how == "meta":
        A.label_set_names(["j"])
        A.save(d + "/a.sds")
        r = rt.load_sds(d + "/a.sds")
        S.check(list(r.label_get_names()) == ["j"], "label columns")
        S.eq_list(S.L(r.i), S.L(a), "values")
    elif how == "dir_stack":
        rt.Struct({"t": A, "u": B}).save(d + "/s1")
        rt.Struct({"t": A, "u": B}).save(d + "/s2")
        r = rt.load_sds([d + "/s1", d + "/s2"], stack=True, include=["t"])
        S.check(list(r.keys()) == ["t"], "requested table")
        S.eq_list(S.L(r.t.i), S.L(a) + S.L(a), "stacked rows")
    else:
        for nm, t in (("10", A), ("2", B), ("1", A)):
            t.save(d + f"/{nm}.sds")
        r = rt.load_sds([d + "/2.sds", d + "/10.sds", d + "/1.sds"], stack=True, include=["i"])
        S.eq_list(S.L(r.i), S.L(B.i) + S.L(a) + S.L(a), "rows in the order of the file list")


@scenario(quick=[dict(how=h) for h in ("sorted", "sorted_include", "sorted_desc", "sorted_two", "totals", "onefile_stack", "onefile_stack_all", "onefile_stack_one", "nofilter_rows", "one_row", "mkdirs", "section_stack", "noext_list", "include_text",
                                       "list_dirs", "flatten", "names", "empty_struct", "empty_table", "struct_plain", "resave_struct", "strided")], budget=40)
def more_files(S, how):
    rt = S.rt
    d = S.tmpdir()
    a, b = S.ints("a", 2, np.int32, -5, 5, inv=True), S.floats("b", 2)
    c = rt.Categorical(S.ints("c", 2, np.int32, 0, 1))
    A = rt.Dataset({"i": a, "j": b, "c": c})
    cat = lambda t: list(S.L(t.expand_array))
    AL, BL, CL = list(S.L(a)), list(S.L(b)), cat(c)

    def full(r, msg, rep=1):
        S.check(list(r.keys()) == ["i", "j", "c"], msg + ": columns")
        S.eq_list(S.L(r.i), AL * rep, msg + ": i")
        S.eq_list(S.L(r.j), BL * rep, msg + ": j")
        S.eq_list(cat(r.c), CL * rep, msg + ": c")

    if how.startswith("sorted"):
        k = S.ints("k", 3, np.int32, 0, 3)
        t = rt.Dataset({"v": rt.arange(3), "k": k, "q": rt.FastArray([1, 0, 1])})
        asc = how != "sorted_desc"
        if how == "sorted_two":
            t.sort_view(["q", "k"], ascending=[False, True])
        else:
            t.sort_view("k", ascending=asc)
        t.save(d + "/t.sds")
        r = rt.load_sds(d + "/t.sds", **(dict(include=["v"]) if how == "sorted_include" else {}))
        S.eq_list(S.L(r.v), [0, 1, 2], "row order in the file is the stored one")
        if how == "sorted_include":
            S.check(list(r.keys()) == ["v"], "only the requested column")
            return
        K = S.L(k)
        order = []
        for x in range(3):
            p = len(order)
            Q = [1, 0, 1]

            def lt(x, y):
                if how == "sorted_two" and Q[x] != Q[y]:
                    return Q[x] > Q[y]
                return bool(K[x] < K[y]) if asc else bool(K[x] > K[y])
            while p > 0 and lt(x, order[p - 1]):
                p -= 1
            order.insert(p, x)
        S.eq_list(S.L(r.get_sorted_col_data("v")), order, "the loaded table sorts like the saved one")
    elif how == "totals":
        ac = rt.Accum2(rt.Cat(["a", "b"]), rt.Cat(["x", "y"])).sum(a)
        cols = {x: list(S.L(y)) for x, y in ac.items()}
        ac.save(d + "/t.sds")
        for inc in (None, ["x"]):
            r = rt.load_sds(d + "/t.sds", include=inc)
            S.check(list(r.keys()) == (list(cols) if inc is None else inc), "columns")
            for x in r:
                S.eq_list(S.L(r[x]), cols[x], "cells")
    elif how.startswith("onefile_stack"):
        st = rt.Struct({"t": A, "u": rt.Dataset({"z": rt.arange(2)})})
        for i in "12":
            if how == "onefile_stack_one":
                rt.save_sds(d + f"/{i}.sds", A, onefile=True)
            else:
                rt.save_sds(d + f"/{i}.sds", st, onefile=True)
        fl = [d + "/1.sds", d + "/2.sds"]
        if how == "onefile_stack_one":
            full(rt.load_sds(fl, stack=True), "stacked one-file tables", 2)
        else:
            r = rt.load_sds(fl, stack=True, **(dict(folders=["t"]) if how == "onefile_stack" else {}))
            S.check(list(r.keys()) == (["t"] if how == "onefile_stack" else ["t", "u"]), "folders")
            full(r.t, "stacked folder", 2)
    elif how == "nofilter_rows":
        A.save(d + "/t.sds")
        r = rt.load_sds(d + "/t.sds", filter=np.array([], dtype=np.int32))
        S.check(r.shape == (0, 3) and list(r.keys()) == ["i", "j", "c"], "no rows asked, none loaded")
        S.check(r.i.dtype == np.int32 and r.j.dtype == np.float64 and type(r.c) is rt.Categorical, "types kept")
    elif how == "one_row":
        A.save(d + "/t.sds")
        r = rt.load_sds(d + "/t.sds", filter=1)
        S.eq_list(S.L(r.i) + S.L(r.j) + cat(r.c), [AL[1], BL[1], CL[1]], "the row asked for")
    elif how == "mkdirs":
        A.save(d + "/p/q/t.sds")
        full(rt.load_sds(d + "/p/q/t.sds"), "missing folders are made")
    elif how == "section_stack":
        A.save(d + "/t.sds", append="one")
        A.save(d + "/t.sds", append="two")
        full(rt.load_sds(d + "/t.sds", stack=True), "sections stacked", 2)
    elif how == "noext_list":
        A.save(d + "/1.sds")
        A.save(d + "/2.sds")
        r = rt.load_sds([d + "/1", d + "/2"])
        full(r[0], "first")
        full(r[1], "second")
    elif how == "include_text":
        A.save(d + "/t.sds")
        r = rt.load_sds(d + "/t.sds", include="c")
        S.check(list(r.keys()) == ["c"], "one column")
        S.eq_list(cat(r.c), CL, "its values")
    elif how == "list_dirs":
        rt.Struct({"t": A, "n": 3}).save(d + "/s1")
        A.save(d + "/t.sds")
        r = rt.load_sds([d + "/s1", d + "/t.sds"])
        full(r[0].t, "folder")
        S.check(int(r[0].n) == 3, "scalar")
        full(r[1], "file")
    elif how == "flatten":
        st = rt.Struct({"t": A, "w": b, "s": rt.Struct({"q": a, "r": A})})
        f = st.flatten()
        r = f.flatten_undo()
        S.check(list(r.keys()) == ["t", "w", "s"] and list(r.s.keys()) == ["q", "r"], "names")
        full(r.t, "table")
        full(r.s.r, "nested table")
        S.eq_list(S.L(r.w) + S.L(r.s.q), BL + AL, "arrays")
    elif how == "names":
        t = rt.Dataset({"with space": a, "a!b": b, "é": c}) if False else rt.Dataset({"with space": a, "a.b": b, "UPPER_lower9": c})
        t.save(d + "/my file.v2.sds")
        r = rt.load_sds(d + "/my file.v2.sds")
        S.check(list(r.keys()) == ["with space", "a.b", "UPPER_lower9"], "names")
        S.eq_list(S.L(r["with space"]) + S.L(r["a.b"]) + cat(r["UPPER_lower9"]), AL + BL + CL, "values")
        rt.Struct({"x": t, "x2": A}).save(d + "/my dir")
        r = rt.load_sds(d + "/my dir")
        full(r.x2, "table in a folder")
        S.eq_list(S.L(r.x["with space"]), AL, "other table in a folder")
    elif how == "empty_struct":
        rt.Struct({"t": A, "e": rt.Struct({})}).save(d + "/s")
        r = rt.load_sds(d + "/s")
        S.check(list(r.keys()) == ["t", "e"] and len(r.e) == 0, "empty struct kept")
        full(r.t, "table")
    elif how == "empty_table":
        A[0:0, :].save(d + "/t.sds")
        r = rt.load_sds(d + "/t.sds")
        S.check(r.shape == (0, 3) and list(r.keys()) == ["i", "j", "c"] and r.i.dtype == np.int32 and type(r.c) is rt.Categorical, "empty table")
        A.save(d + "/u.sds")
        full(rt.load_sds([d + "/t.sds", d + "/u.sds"], stack=True), "empty file first")
        full(rt.load_sds([d + "/u.sds", d + "/t.sds"], stack=True), "empty file last")
    elif how == "struct_plain":
        rt.Struct({"a": a, "n": 4, "x": 0.5, "b": b}).save(d + "/s.sds")
        r = rt.load_sds(d + "/s.sds")
        S.check(list(r.keys()) == ["a", "n", "x", "b"] and int(r.n) == 4 and float(r.x) == 0.5, "struct without tables")
        S.eq_list(S.L(r.a) + S.L(r.b), AL + BL, "arrays")
    elif how == "resave_struct":
        rt.Struct({"t": rt.Dataset({"old": rt.arange(5)}), "n": 1}).save(d + "/s")
        rt.Struct({"t": A, "n": 2}).save(d + "/s")
        r = rt.load_sds(d + "/s")
        full(r.t, "newest table")
        S.check(int(r.n) == 2, "newest scalar")
    else:
        t = rt.Dataset({"i": a[::-1], "j": b[::-1], "c": c[::-1]})
        t.save(d + "/t.sds")
        r = rt.load_sds(d + "/t.sds")
        S.eq_list(S.L(r.i) + S.L(r.j) + cat(r.c), AL[::-1] + BL[::-1] + CL[::-1], "reversed views are saved in their order")


@scenario(quick=[dict(how=h) for h in ("bases", "empty_mask", "empty_rows")], budget=60)
def odd_categoricals(S, how):
    """categoricals numbered from different bases are not stacked; a filter keeping nothing keeps the categories."""
    rt = S.rt
    d = S.tmpdir()
    if how == "bases":
        for j in range(2):
            rt.Dataset({"k": S.ints(f"k{j}", 2, np.int32, 0, 3), "c": rt.Categorical(S.ints(f"c{j}", 2, np.int8, j, 1 + j), ["p", "q"], base_index=j)}).save(d + f"/{j}.sds")
        S.check(S.raises((TypeError, ValueError), lambda: rt.load_sds([d + "/0.sds", d + "/1.sds"], stack=True))[0], "different bases are rejected")
        return
    c = rt.Categorical(S.ints("c", 3, np.int8, 0, 2), ["p", "q"])
    v = S.floats("v", 3)
    rt.Dataset({"c": c, "v": v}).save(d + "/t.sds")
    got = rt.load_sds(d + "/t.sds", filter=np.zeros(0, dtype=bool if how == "empty_mask" else np.int32))
    S.check(got.shape == (0, 2) and list(got.keys()) == ["c", "v"], "no row, every column")
    S.check(type(got.c) is rt.Categorical and got.v.dtype == np.float64, "types")
    S.eq_list(S.L(got.c.category_array), [b"p", b"q"], "categories")
