"""Categorical: every row keeps its value through all encodings and edits."""
import numpy as np
from sx.registry import scenario
from props.common import *

BOUNDS = "at most 4 rows (thorough 5), 1-2 key columns (int, float, bytes, unicode, mapped codes) with up to 4 categories, symbolic codes (incl. 0 = filtered), filters and selections, base index 0 and 1; large instances: 126-257 categories with 2 free rows; selected instances also with every input a stepped or reversed view"

CATS = {"S": ["ab", "b", "cde"], "S0": ["b", "cde", "ab"], "i": [10, 20, 30], "f": [1.5, 2.5, 4.0]}


def coded(S, n, kind="S", base=1, lo=None, dtype=np.int8, name="c", ordered=None):
    """categorical from symbolic codes over concrete categories; returns (cat, codes list, value of code)"""
    cats = CATS[kind]
    codes = S.ints(name, n, dtype, base if lo is None else lo, len(cats) - 1 + base)
    src = S.L(codes)
    c = S.rt.Categorical(codes.copy(), S.rt.FastArray(cats), base_index=base)
    return c, src, cats


def inv_of(kind):
    return b"Filtered" if kind[0] == "S" else inv_val(np.int64) if kind == "i" else NAN


def lookup(S, code, cats, base, inv):
    k = int(S.concrete(code)) - base
    if k < 0:
        return inv
    v = cats[k]
    return v.encode() if isinstance(v, str) else v


def values(S, codes, cats, base, kind):
    return [lookup(S, c, cats, base, inv_of(kind)) for c in codes]


def widen(S, X, arr, kind):
    """values X of dtype kind as they appear in arr: invalid stays invalid when the dtype is wider."""
    if kind[0] in "fSU" or arr.dtype == np.dtype(kind):
        return X
    return [S.If(x == inv_val(kind), np.int64(inv_val(arr.dtype)), asint(S, x)) for x in X]


@scenario(quick=[dict(n=3, kind=k, base=b, o=o) for k in ("i4", "f8", "S2", "U1") for b, o in ((1, True), (1, False), (0, True))] + [dict(n=1, kind="S1", base=1, o=True), dict(n=3, kind="i1", base=0, o=False), dict(n=4, kind="i8", base=1, o=True)],
          thorough=[dict(n=4, kind=k, base=b, o=o) for k in ("i4", "f8", "S1") for b in (0, 1) for o in (True, False)], budget=90)
def roundtrip(S, n, kind, base, o):
    """values -> categorical -> values, in all the ways to get them back."""
    rt = S.rt
    v = col(S, "v", n, kind, inv=kind not in ("i4",))
    V = S.L(v)
    c = rt.Categorical(v, ordered=o, base_index=base)
    S.eq_list(S.L(v), V, "source unchanged")
    W = widen(S, V, c.expand_array, kind)
    S.eq_list(S.L(c.expand_array), W, "expand_array")
    S.eq_list(S.L(list(c.expand_dict.values())[0]), W, "expand_dict")
    gs = groups(S, [V], n, ordered=o)
    U = S.L(c.category_array)
    S.eq_list(U, [V[g[0]] for g in gs], "categories are the distinct values in order")
    S.check(c.unique_count == len(gs), "unique_count")
    S.check(c.nunique() == len(gs), "nunique")
    S.check(not bool(c.isfiltered().any()), "nothing filtered")
    S.eq_list(S.L(c._fa), [[p for p, g in enumerate(gs) if i in g][0] + base for i in range(n)], "codes")
    if kind[0] in "SU":
        S.eq_list(S.L(c.as_string_array), V, "as_string_array")


@scenario(quick=[dict(n=3, kind=k) for k in ("i4", "S1", "f8")] + [dict(n=3, kind="i4", o=False)], thorough=[dict(n=4, kind="S1"), dict(n=4, kind="i4", o=False)], budget=90)
def constructed_filter(S, n, kind, o=True):
    """filter= at construction: filtered rows have no category, categories only from kept rows."""
    v, m = col(S, "v", n, kind), S.bools("m", n)
    V, M = S.L(v), S.L(m)
    S.assume(S.Or(*M))
    c = S.rt.Categorical(v, filter=m, ordered=o)
    kept = [i for i in range(n) if bool(M[i])]
    gs = groups(S, [V], n, ordered=o, rows=kept)
    S.eq_list(S.L(c.category_array), [V[g[0]] for g in gs], "categories of the kept rows")
    x = c.expand_array
    inv = b"Filtered" if kind[0] == "S" else inv_val(x.dtype)
    S.eq_list(S.L(x), [V[i] if i in kept else inv for i in range(n)], "expand_array")
    S.eq_list(S.L(c.isfiltered()), [i not in kept for i in range(n)], "isfiltered")
    S.check(c.nunique() == len(gs), "nunique ignores filtered rows")
    S.eq_list(S.L(v), V, "source unchanged")


@scenario(quick=[dict(n=3, kinds=["i4", "S1"], base=1), dict(n=3, kinds=["i4", "S1"], base=0), dict(n=3, kinds=["f8", "i2"], base=1), dict(n=3, kinds=["i4", "S1"], base=1, o=True)],
          thorough=[dict(n=4, kinds=["i4", "S1"], base=1), dict(n=4, kinds=["i1", "f8"], base=0)], budget=90)
def multikey(S, n, kinds, base, o=None):
    rt = S.rt
    ks = [col(S, f"k{i}", n, k, hi=1) for i, k in enumerate(kinds)]
    K = [S.L(k) for k in ks]
    m = S.bools("m", n) if base == 1 else None
    M = [bool(x) for x in S.L(m)] if base else [True] * n
    if base:
        S.assume(any(M))
    c = rt.Categorical({"a": ks[0], "b": ks[1]}, filter=m, base_index=base, ordered=o)
    inv = [b"Filtered" if k[0] == "S" else inv_val(x.dtype) for k, x in zip(kinds, c.expand_array)]
    for d, got in enumerate(c.expand_array):
        S.eq_list(S.L(got), [K[d][i] if M[i] else inv[d] for i in range(n)], f"expand_array key {d}")
    for d, got in enumerate(c.expand_dict.values()):
        S.eq_list(S.L(got), [K[d][i] if M[i] else inv[d] for i in range(n)], f"expand_dict key {d}")
    gs = groups(S, K, n, ordered=bool(o), rows=[i for i in range(n) if M[i]])
    for d, got in enumerate(c.category_dict.values()):
        S.eq_list(S.L(got), [K[d][g[0]] for g in gs], f"category_dict key {d}")
    S.check(c.unique_count == len(gs), "unique_count")
    code = [[p for p, g in enumerate(gs) if i in g][0] + base if M[i] else 0 for i in range(n)]
    S.eq_list(S.L(c._fa), code, "codes")
    if kinds[1][0] == "S" and kinds[0][0] == "i":
        r = c == (1, "x")
        S.eq_list(S.L(r), [S.And(M[i], K[0][i] == 1, S.eq(K[1][i], b"x")) for i in range(n)], "== tuple")
        r = c != (1, "x")
        S.eq_list(S.L(r), [S.Not(S.And(M[i], K[0][i] == 1, S.eq(K[1][i], b"x"))) for i in range(n)], "!= tuple")
    p = S.choose("p", 0, n - 1)
    d = c[[p, 0]]
    for e, got in enumerate(d.expand_array):
        S.eq_list(S.L(got), [K[e][i] if M[i] else inv[e] for i in (p, 0)], f"fancy selection key {e}")


@scenario(quick=[dict(n=3, kind=k, base=b) for k in ("S", "S0", "i", "f") for b in (1, 0)], thorough=[dict(n=5, kind=k, base=1) for k in ("S", "f")], budget=60)
def from_codes(S, n, kind, base):
    """codes + categories -> values, single items, selections."""
    c, C, cats = coded(S, n, kind, base, lo=0)
    V = values(S, C, cats, base, kind)
    S.eq_list(S.L(c.expand_array), V, "expand_array")
    S.eq_list(S.L(c.category_array), [x.encode() if isinstance(x, str) else x for x in cats], "categories kept as given")
    for i in range(n):
        S.check(S.eq(c[i], "Filtered" if base and C[i] == 0 else V[i]), "single item")
    S.eq_list(S.L(c.isfiltered()), [base == 1 and bool(x == 0) for x in C], "isfiltered")
    m = S.bools("m", n)
    M = [bool(x) for x in S.L(m)]
    S.eq_list(S.L(c[m].expand_array), [v for v, b in zip(V, M) if b], "mask selection")
    S.eq_list(S.L(c[::-1].expand_array), V[::-1], "reversed slice")
    S.eq_list(S.L(c._fa), C, "source unchanged")
    d = c.copy()
    S.eq_list(S.L(d.expand_array), V, "copy")
    d[0] = cats[1] if kind != "i" else 1
    S.eq_list(S.L(c._fa), C, "copy is independent")


@scenario(quick=[dict(n=3, base=b) for b in (1, 0)], thorough=[dict(n=4, base=1)], budget=60)
def slices(S, n, base):
    c, C, cats = coded(S, n, "S", base, lo=0)
    a, b, st = S.choose("a", -n - 1, n + 1), S.choose("b", -n - 1, n + 1), S.pick("st", [1, 2, -1])
    d = c[a:b:st]
    S.eq_list(S.L(d._fa), C[a:b:st], "slice of codes")
    S.check(d.base_index == base and len(S.L(d.category_array)) == 3, "slice keeps the categories")
    g = d.grouping.ikey if base else None
    if base:
        S.eq_list(S.L(g), C[a:b:st], "grouping of the slice")
    if len(d):
        S.check(S.eq(d[0], lookup(S, C[a:b:st][0], cats, base, "Filtered")), "item of the slice")


@scenario(quick=[dict(n=3, kind=k, base=b) for k in ("S", "S0", "i", "f") for b in (1, 0)], thorough=[dict(n=4, kind=k, base=b) for k in ("S", "i") for b in (0, 1)], budget=60)
def bins(S, n, kind, base):
    """from_bin/from_category/one-hot/set item address the category by the same number."""
    c, C, cats = coded(S, n, kind, base, lo=0)
    V = values(S, C, cats, base, kind)
    for p, k in enumerate(cats):
        kk = k.encode() if isinstance(k, str) else k
        S.check(S.eq(c.from_bin(p + base), kk), "from_bin")
        S.check(c.from_category(k) == p + base, "from_category")
    raised, _ = S.raises((ValueError,), lambda: c.from_category("zz" if kind[0] == "S" else 77))
    S.check(raised, "unknown category raises")
    m = S.bools("m", n)
    labels, hot = c.one_hot_encode()
    for p in range(len(cats)):
        S.eq_list(S.L(hot[p]), [S.If(x == p + base, 1.0, 0.0) for x in C], "one_hot_encode")
    p, q = S.choose("p", 0, len(cats) - 1), S.choose("q", 0, n - 1)
    d = c.copy()
    d[q] = cats[p] if kind != "i" else p + base
    S.eq_list(S.L(d._fa), [p + base if i == q else C[i] for i in range(n)], "set one item by category")
    d = c.copy()
    d[m] = cats[p] if kind != "i" else p + base
    S.eq_list(S.L(d._fa), [S.If(b, p + base, C[i]) for i, b in enumerate(S.L(m))], "set masked items by category")
    if kind != "i":
        raised, _ = S.raises((ValueError, IndexError), lambda: d.__setitem__(0, "zz" if kind[0] == "S" else 77.5))
        S.check(raised, "unknown category cannot be assigned")
    raised, _ = S.raises((ValueError, IndexError), lambda: d.__setitem__(0, len(cats) + base))
    S.check(raised, "code out of range cannot be assigned")


OPS = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}


@scenario(quick=[dict(n=3, kind=k, base=b) for k in ("S2", "i4", "f8") for b in (1, 0)], thorough=[dict(n=4, kind=k, base=1) for k in ("S2", "i4")], budget=60)
def compare_scalar(S, n, kind, base):
    """comparison with a value (present or not) compares each row's value; filtered rows are never equal."""
    v = col(S, "v", n, kind, lo=0, hi=3)
    V = S.L(v)
    m = S.bools("m", n) if base else None
    M = [bool(x) for x in S.L(m)] if base else [True] * n
    if base:
        S.assume(any(M))
    c = S.rt.Categorical(v, filter=m, base_index=base)
    x = S.pick("x", {"S2": ["x", "xx", "y", "a", "z"], "i4": [0, 1, 3, 5, -1], "f8": [0.0, 1.0, 0.5, 9.0]}[kind])
    xb = x.encode() if isinstance(x, str) else x
    for o, f in OPS.items():
        r = S.L(f(c, x))
        S.check(len(r) == n, f"{o} length")
        for i in range(n):
            if M[i]:
                S.check(S.eq(r[i], f(V[i], xb)), f"{o} scalar")
            elif o in ("==", "!="):
                S.check(S.eq(r[i], o == "!="), f"{o} scalar on a filtered row")


@scenario(quick=[dict(n=2, kind=k, b1=p, b2=q) for k in ("S1", "i4") for p, q in ((1, 1), (0, 0), (0, 1), (1, 0))] + [dict(n=2, kind="f8", b1=1, b2=1)], thorough=[dict(n=3, kind=k, b1=1, b2=q) for k in ("S1", "i4") for q in (0, 1)], budget=90)
def compare_cats(S, n, kind, b1, b2):
    rt = S.rt
    v, w = col(S, "v", n, kind, hi=2), col(S, "w", n, kind, hi=2)
    V, W = S.L(v), S.L(w)
    m = S.bools("m", n) if b1 else None
    M = [bool(x) for x in S.L(m)] if b1 else [True] * n
    if b1:
        S.assume(any(M))
    c, d = rt.Categorical(v, filter=m, base_index=b1), rt.Categorical(w, base_index=b2)
    for o, f in OPS.items():
        r = S.L(f(c, d))
        S.check(len(r) == n, f"{o} length")
        for i in range(n):
            if M[i]:
                S.check(S.eq(r[i], f(V[i], W[i])), f"categorical {o} categorical")
            elif o in ("==", "!="):
                S.check(S.eq(r[i], o == "!="), f"{o} on a filtered row")


@scenario(quick=[dict(n=3, kind=k, base=b) for k in ("S1", "i4", "f8") for b in (1, 0)] + [dict(n=3, kind="U1", base=1)], thorough=[dict(n=4, kind=k, base=1) for k in ("S1", "i4")], budget=60)
def isin(S, n, kind, base):
    v = col(S, "v", n, kind, hi=2)
    V = S.L(v)
    c = S.rt.Categorical(v, base_index=base)
    opts = {"S": [["x"], ["x", "zz"], ["y", "x"], "x", ["zz", "q"], []], "i": [[1], [1, 9], [2, 0], 1, [9, 8], []], "f": [[1.0], [1.0, 0.5], [2.0, 0.0], 1.0, [9.0, 7.0], []]}["S" if kind[0] in "SU" else kind[0]]
    x = S.pick("x", opts)
    xs = x if isinstance(x, list) else [x]
    enc = lambda y: y if kind[0] == "U" or not isinstance(y, str) else y.encode()
    S.eq_list(S.L(c.isin(x)), [S.Or(*[S.eq(q, enc(y)) for y in xs]) for q in V], "isin")


@scenario(quick=[dict(n=3, kind=k, base=b, how=h) for k in ("S", "S0", "i") for b in (1, 0) for h in ("full", "part", "array", "partnum", "arrnum")], thorough=[dict(n=5, kind="S", base=1, how="part")], budget=60)
def mapped(S, n, kind, base, how):
    """map replaces each row's value by its image; values without image get the invalid."""
    rt = S.rt
    c, C, cats = coded(S, n, kind, base, lo=base)
    new = ["long text", "z", "y"] if how in ("full", "part", "array") else [7, 8, 9]
    if how == "array":
        r, img = c.map(rt.FastArray(new)), new
    elif how == "arrnum":
        r, img = c.map(rt.FastArray(new), invalid=99), new
    elif how == "full":
        r, img = c.map(dict(zip(cats[::-1], new[::-1]))), new
    else:
        inv = {"part": "none", "partnum": -5}[how]
        r, img = c.map({cats[2]: new[2], cats[0]: new[0]}, invalid=inv), [new[0], inv, new[2]]
    enc = lambda y: y.encode() if isinstance(y, str) else y
    S.eq_list(S.L(r), [enc(img[int(S.concrete(x)) - base]) for x in C], f"map {how}")
    S.eq_list(S.L(c._fa), C, "source unchanged")


@scenario(quick=[dict(n=3, keep=k, misc=m) for k in (["cde", "ab"], ["ab", "new"], ["new", "cde", "b", "other"], ["new"]) for m in (None, "oth")], budget=60)
def shrink(S, n, keep, misc=None):
    c, C, cats = coded(S, n, "S", 1, lo=0)
    V = values(S, C, cats, 1, "S")
    r = c.shrink(keep, misc=misc)
    kb = [k.encode() for k in keep]
    other = (misc or "Filtered").encode()
    S.eq_list(S.L(r.expand_array), [v if v in kb or v == b"Filtered" else other for v in V], "shrink keeps listed categories")
    S.eq_list(S.L(r.category_array), kb + ([misc.encode()] if misc else []), "categories are the listed ones")
    S.eq_list(S.L(c._fa), C, "source unchanged")


@scenario(quick=[dict(n=3, kind=k, base=b, filt=f) for k, b in (("S", 1), ("S0", 1), ("i", 0), ("f", 1)) for f in (0, 1)], thorough=[dict(n=5, kind="S0", base=1, filt=1)], budget=60)
def set_valid(S, n, kind, base, filt):
    """set_valid keeps every value and drops unused categories (and filtered rows)."""
    c, C, cats = coded(S, n, kind, base, lo=0)
    V = values(S, C, cats, base, kind)
    m = S.bools("m", n) if filt else None
    M = [bool(x) for x in S.L(m)] if filt else [True] * n
    r = c.set_valid(m) if filt else c.set_valid()
    S.eq_list(S.L(r.expand_array), [v if b else inv_of(kind) for v, b in zip(V, M)], "values after set_valid")
    used = {int(S.concrete(x)) - base for x, b in zip(C, M) if b} - {-1}
    S.eq_list(S.L(r.category_array), [cats[k].encode() if isinstance(cats[k], str) else cats[k] for k in sorted(used)], "only used categories remain, in order")
    S.eq_list(S.L(c._fa), C, "source unchanged")


@scenario(quick=[dict(n=3)], thorough=[dict(n=5)], budget=60)
def shifted(S, n):
    c, C, cats = coded(S, n, "S", 1, lo=0)
    V = values(S, C, cats, 1, "S")
    p = S.choose("p", -n - 1, n + 1)
    S.eq_list(S.L(c.shift_cat(p).expand_array), [V[i - p] if 0 <= i - p < n else b"Filtered" for i in range(n)], "shift_cat")
    S.eq_list(S.L(c._fa), C, "source unchanged")
    f = c.fill_invalid(inplace=False)
    S.eq_list(S.L(f.expand_array), [b"Filtered"] * n, "fill_invalid copy")
    S.eq_list(S.L(c._fa), C, "source unchanged by fill_invalid copy")


@scenario(quick=[dict(n=3, base=1), dict(n=3, base=0)], thorough=[dict(n=4, base=1)], budget=60)
def single_key(S, n, base):
    """a two-key categorical as a single-key one."""
    rt = S.rt
    a, b = S.ints("a", n, np.int32, 0, 1), S.strs("b", n, 1, b"xy", minlen=1)
    A, B = S.L(a), S.L(b)
    m = S.bools("m", n) if base else None
    M = [bool(x) for x in S.L(m)] if base else [True] * n
    if base:
        S.assume(any(M))
    c = rt.Categorical([b, a], base_index=base, filter=m)
    want = [bytes(("x" if bool(S.eq(B[i], b"x")) else "y") + "_" + ("1" if bool(A[i] == 1) else "0"), "ascii") if M[i] else b"Filtered" for i in range(n)]
    S.eq_list(S.L(c.as_singlekey().expand_array), want, "as_singlekey")
    S.eq_list(S.L(c.as_string_array), want, "as_string_array")


@scenario(quick=[dict(n=2, m=2, kind=k, base=b) for k in ("S1", "i4", "f8") for b in (1, 0)] + [dict(n=1, m=2, kind="S2", base=1)], thorough=[dict(n=3, m=2, kind=k, base=1) for k in ("S1", "i4")], budget=90)
def stacked(S, n, m, kind, base):
    """concatenating and aligning categoricals keeps every row's value."""
    rt = S.rt
    v, w = col(S, "v", n, kind), col(S, "w", m, kind)
    V, W = S.L(v), S.L(w)
    f = S.bools("f", n) if base else None
    F = [bool(x) for x in S.L(f)] if base else [True] * n
    if base:
        S.assume(any(F))
    c, d = rt.Categorical(v, filter=f, base_index=base), rt.Categorical(w, base_index=base)
    inv = b"Filtered" if kind[0] == "S" else inv_val(c.expand_array.dtype)
    V = [x if b else inv for x, b in zip(V, F)]
    h = rt.hstack([c, d])
    S.eq_list(S.L(h.expand_array), V + W, "hstack")
    U = S.L(h.category_array)
    S.check(S.And(*[S.Not(S.eq(U[i], U[j])) for i in range(len(U)) for j in range(i)]), "stacked categories are unique")
    x, y = rt.Categorical.align([c, d])
    S.eq_list(S.L(x.expand_array), V, "aligned first")
    S.eq_list(S.L(y.expand_array), W, "aligned second")
    S.eq_list(S.L(x.category_array), S.L(y.category_array), "aligned categories agree")
    S.eq_list(S.L(c.expand_array), V, "source unchanged")


@scenario(quick=[dict(n=2, m=2)], thorough=[dict(n=3, m=2)], budget=90)
def stacked_multi(S, n, m):
    rt = S.rt
    ks = [[S.ints(f"a{i}", k, np.int32, 0, 1), S.strs(f"b{i}", k, 1, b"x")] for i, k in enumerate((n, m))]
    K = [[S.L(x) for x in y] for y in ks]
    h = rt.hstack([rt.Categorical(dict(a=y[0], b=y[1])) for y in ks])
    for d, got in enumerate(h.expand_array):
        S.eq_list(S.L(got), K[0][d] + K[1][d], f"hstack of two-key categoricals, key {d}")


MAP = {"lo": 1, "mid": 5, "hi": 7}


@scenario(quick=[dict(n=3)], thorough=[dict(n=4)], budget=60)
def mapping(S, n):
    """categorical from a code dictionary."""
    rt = S.rt
    v = S.ints("v", n, np.int32, 0, 8)
    V = S.L(v)
    c = rt.Categorical(v.copy(), dict(MAP))
    rev = {k: s for s, k in MAP.items()}
    D = [int(S.concrete(x)) for x in V]
    S.eq_list(S.L(c.expand_array), V, "codes kept")
    S.eq_list(S.L(c.isfiltered()), [d not in rev for d in D], "isfiltered: code without name")
    S.eq_list(S.L(c.as_string_array), [rev[d].encode() if d in rev else b"Filtered" for d in D], "as_string_array")
    for s, k in MAP.items():
        S.eq_list(S.L(c == s), [d == k for d in D], "== name")
        S.eq_list(S.L(c != s), [d != k for d in D], "!= name")
        S.check(c.from_category(s) == k, "from_category")
        S.check(S.eq(c.from_bin(k), s), "from_bin")
    S.eq_list(S.L(c.isin(["mid", "hi"])), [d in (5, 7) for d in D], "isin names")
    for i in range(n):
        S.check(S.eq(c[i], rev.get(D[i], f"!<{D[i]}>")), "single item")
    S.eq_list(S.L(c[::-1].as_string_array), [rev[d].encode() if d in rev else b"Filtered" for d in D[::-1]], "slice")
    c[0] = "mid"
    S.eq_list(S.L(c._fa), [5] + V[1:], "assign by name")
    raised, _ = S.raises((ValueError,), lambda: c.__setitem__(0, 99))
    S.check(raised, "unknown code cannot be assigned")


@scenario(quick=[dict(n=3)], thorough=[dict(n=4)], budget=60)
def make_unique(S, n):
    """category_make_unique merges repeated categories without changing any value."""
    rt = S.rt
    codes = S.ints("c", n, np.int8, 0, 4)
    C = S.L(codes)
    cats = ["b", "a", "b", "c"]
    g = rt.Categorical(codes, rt.FastArray(cats))
    r = g.category_make_unique()
    S.eq_list(S.L(r.expand_array), [b"Filtered" if x == 0 else cats[int(S.concrete(x)) - 1].encode() for x in C], "values kept")
    U = S.L(r.category_array)
    S.check(len(U) == 3, "categories unique")


@scenario(quick=[dict(n=3, kind="S"), dict(n=3, kind="S0")], thorough=[dict(n=4, kind="S")], budget=60)
def edits(S, n, kind):
    """adding, replacing and auto-adding categories changes exactly what was asked."""
    rt = S.rt
    c, C, cats = coded(S, n, kind, 1, lo=0)
    V = values(S, C, cats, 1, kind)
    d = c.copy()
    d.category_add("a much longer name")
    S.eq_list(S.L(d.expand_array), V, "category_add keeps values")
    q = S.choose("q", 0, n - 1)
    d[q] = "a much longer name"
    S.eq_list(S.L(d.expand_array), [b"a much longer name" if i == q else v for i, v in enumerate(V)], "assign the added category")
    d = c.copy()
    d.category_replace("b", "bbbbbbbbbbb")
    S.eq_list(S.L(d.expand_array), [b"bbbbbbbbbbb" if v == b"b" else v for v in V], "category_replace")
    d = c.copy()
    d.auto_add_on()
    d[q] = "a much longer name"
    S.eq_list(S.L(d.expand_array), [b"a much longer name" if i == q else v for i, v in enumerate(V)], "auto-added category")
    S.eq_list(S.L(c.expand_array), V, "copies are independent")


@scenario(quick=[dict(u=u, base=b) for u in (126, 127, 128, 255) for b in (1, 0)], thorough=[dict(u=u, base=b) for u in (129, 256, 257) for b in (1, 0)], budget=60)
def many_categories(S, u, base):
    """limits of the compact code types."""
    rt = S.rt
    v = S.ints_at("v", list(range(u)) + [0, 0], [u, u + 1], np.int32, u - 2, u)
    V = S.L(v)
    c = rt.Categorical(v, base_index=base)
    S.eq_list(S.L(c.expand_array), V, "expand_array")
    S.eq_list(S.L(c._fa + np.int32(0)), [S.asint(x) + base if hasattr(S, "asint") else x + base for x in V], "codes")
    h = rt.hstack([c, rt.Categorical(rt.FastArray([500, 0, 501]), base_index=base)])
    S.eq_list(S.L(h.expand_array), V + [500, 0, 501], "hstack over the limit")


@scenario(quick=[dict(n=3)], thorough=[dict(n=4)], budget=60)
def mapping_set_valid(S, n):
    """set_valid on a categorical from a code dictionary returns a new one; the source keeps its rows."""
    v, m = S.ints("v", n, np.int32, 4, 8), S.bools("m", n)
    c = S.rt.Categorical(v.copy(), dict(MAP))
    V, M = S.L(v), [bool(x) for x in S.L(m)]
    r = c.set_valid(m)
    S.eq_list(S.L(r._fa), [x if b else inv_val(np.int32) for x, b in zip(V, M)], "kept rows keep their code")
    for s, k in (("mid", 5), ("hi", 7)):
        if bool(S.Or(*[S.And(b, x == k) for x, b in zip(V, M)])):
            S.eq_list(S.L(r == s), [S.And(b, x == k) for x, b in zip(V, M)], "kept rows keep their name")
    S.eq_list(S.L(c._fa), V, "source unchanged")


@scenario(quick=[dict(kind=k, base=b) for k, b in (("i1", 1), ("i1", 0), ("i4", 1), ("i4", 0))], budget=60)
def codes_in_range(S, kind, base, n=3):
    """codes given with categories are accepted exactly when every one of them names a category (or, with base 1, is 0)."""
    rt = S.rt
    c = S.ints("c", n, np.dtype(kind), -2, 5)
    C = S.L(c)
    ok = bool(S.And(*[S.And(x >= 0, x <= 2 + base) for x in C]))
    raised, r = S.raises((ValueError, IndexError), lambda: rt.Categorical(c.copy(), ["a", "b", "z"], base_index=base))
    S.check(raised == (not ok), "codes outside the categories are rejected")
    if ok and not raised:
        S.eq_list(S.L(r._fa), C, "codes kept")


@scenario(quick=[dict(kind=k, cats=c) for k in ("S1", "i4") for c in ([0, 1, 2], [1, 0, 2], [2, 1, 0])], budget=60)
def values_with_categories(S, kind, cats, n=3):
    """values given with categories: each row gets the code of its value; a value outside is rejected; ordered tells whether the categories are sorted."""
    rt = S.rt
    v = S.strs("v", n, 1, b"abcd", minlen=1) if kind == "S1" else S.floats("v", n, 0, 3, q=0, nan=False)
    V = S.L(v)
    names = [["a", "b", "c"][x] for x in cats] if kind == "S1" else [[0.0, 1.0, 2.0][x] for x in cats]
    enc = [x.encode() for x in names] if kind == "S1" else names
    ok = bool(S.And(*[S.Or(*[S.eq(x, y) for y in enc]) for x in V]))
    raised, c = S.raises((ValueError,), lambda: rt.Categorical(v, rt.FastArray(names)))
    S.check(raised == (not ok), "a value outside the categories is rejected")
    if ok and not raised:
        S.eq_list(S.L(c.expand_array), V, "values kept")
        S.eq_list(S.L(c.category_array), enc, "categories kept as given")
        S.check(bool(c.ordered) == (sorted(cats) == cats), "ordered: the categories are sorted")
        S.eq_list(S.L(c._fa), [[i + 1 for i, y in enumerate(enc) if bool(S.eq(x, y))][0] for x in V], "codes")


@scenario(quick=[dict(n=3)], thorough=[dict(n=4)], budget=60)
def same_names(S, n):
    """keys that carry the same name are all kept."""
    rt = S.rt
    a, b = S.ints("a", n, np.int32, 0, 1), S.ints("b", n, np.int32, 5, 6)
    A, B = S.L(a), S.L(b)
    a.set_name("x"), b.set_name("x")
    c = rt.Categorical([a, b])
    S.check(len(c.expand_array) == 2, "both keys kept")
    for got, want in zip(c.expand_array, (A, B)):
        S.eq_list(S.L(got), want, "values of the keys")
    S.check(c.unique_count == len(groups(S, [A, B], n)), "distinct pairs")
    g = rt.Grouping([a, b])
    S.check(g.unique_count == len(groups(S, [A, B], n)), "distinct pairs of a grouping")


@scenario(quick=[dict(how=h) for h in ("add", "remove", "replace", "new")], budget=60)
def mapping_edits(S, how, n=2):
    """editing the names of a copy changes the copy as asked and leaves the source alone."""
    rt = S.rt
    v = S.ints("v", n, np.int32, 0, 9)
    V = S.L(v)
    c = rt.Categorical(v.copy(), dict(MAP))
    rev = {k: s for s, k in MAP.items()}
    d = c.copy()
    new = dict(rev)
    if how == "add":
        d.mapping_add(9, "top")
        new[9] = "top"
    elif how == "remove":
        d.mapping_remove(5)
        del new[5]
    elif how == "replace":
        d.mapping_replace(5, "centre")
        new[5] = "centre"
    else:
        d.mapping_new({"p": 1, "q": 9})
        new = {1: "p", 9: "q"}
    D = [int(S.concrete(x)) for x in V]
    for x, names, who in ((c, rev, "source"), (d, new, "copy")):
        S.eq_list(S.L(x._fa), V, f"{who}: codes")
        S.eq_list(S.L(x.as_string_array), [names[i].encode() if i in names else b"Filtered" for i in D], f"{who}: names")
        S.eq_list(S.L(x.isfiltered()), [i not in names for i in D], f"{who}: rows without name")


@scenario(quick=[dict(u=90, w=60, order=o, via=v) for o in ("sorted", "unsorted") for v in ("hstack", "align")] + [dict(u=126, w=2, order="unsorted", via="hstack"), dict(u=120, w=20, order="unsorted", via="hstack"), dict(u=140, w=120, order="sorted", via="hstack")], budget=60)
def stacked_over_limit(S, u, w, order, via):
    """stacked or aligned categoricals whose combined categories outgrow their code types keep every value."""
    stacked_many(S, u, w, order, via)
