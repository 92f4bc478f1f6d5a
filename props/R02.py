"""Database-style joins: merge2 / merge / merge_lookup / merge_indices."""
import numpy as np
from sx.registry import scenario

BOUNDS = "left and right tables of at most 3 rows each (thorough 4), key values from a small range plus the invalid value, at most 2 key columns; also tables of up to 257 rows (output up to 289 rows) with two free keys per side; selected instances also with every input a stepped or reversed view"

HOWS = ["left", "right", "inner", "outer"]


def inv_of(a):
    k = a.dtype.kind
    if k == "f":
        return float("nan")
    if k == "S":
        return b""
    if k == "i":
        return -(2 ** (8 * a.dtype.itemsize - 1))
    return 2 ** (8 * a.dtype.itemsize) - 1


def isinv(S, x, a):
    k = a.dtype.kind
    if k == "f":
        return S.isnan(x)
    if k in "SUb":
        return False
    return x == inv_of(a)


def rows(S, how, nl, nr, match, keep=(None, None), lkey=None, rkey=None):
    """ordered (left row or None, right row or None) of the join; match(i, j) truth of the key match."""
    m = [[bool(match(i, j)) for j in range(nr)] for i in range(nl)]
    L, R = list(range(nl)), list(range(nr))

    def dedupe(rows, same, keep):
        if keep is None:
            return rows
        if keep == "first":
            return [i for i in rows if not any(k < i and bool(same(k, i)) for k in rows)]
        # one row per key, keys in order of first appearance
        firsts = [i for i in rows if not any(k < i and bool(same(k, i)) for k in rows)]
        return [max(k for k in rows if k == i or bool(same(k, i))) for i in firsts]

    L = dedupe(L, lkey, keep[0])
    R = dedupe(R, rkey, keep[1])
    out = []
    if how == "right":
        for j in R:
            ms = [i for i in L if m[i][j]]
            out += [(i, j) for i in ms] or [(None, j)]
        return out
    for i in L:
        ms = [j for j in R if m[i][j]]
        out += [(i, j) for j in ms] or ([(i, None)] if how != "inner" else [])
    if how == "outer":
        out += [(None, j) for j in sorted(R) if not any(m[i][j] for i in L)]
    return out


def check(S, ds, exp, lcols, rcols, kcols, msg):
    """lcols/rcols: name -> (source values, invalid); kcols: name -> (left values, right values)."""
    S.check(ds.shape[0] == len(exp), f"{msg}: row count")
    if ds.shape[0] != len(exp):
        return
    for c, (v, inv) in lcols.items():
        S.eq_list(S.L(ds[c]), [inv if i is None else v[i] for i, j in exp], f"{msg}: left column {c}")
    for c, (v, inv) in rcols.items():
        S.eq_list(S.L(ds[c]), [inv if j is None else v[j] for i, j in exp], f"{msg}: right column {c}")
    for c, (a, b) in kcols.items():
        S.eq_list(S.L(ds[c]), [b[j] if i is None else a[i] for i, j in exp], f"{msg}: key column {c}")


def key(S, name, n, kind):
    if kind == "f8":
        return S.floats(name, n, 0, 2, q=0)
    if kind == "f4":
        return S.floats(name, n, 0, 2, q=0, dtype=np.float32)
    if kind == "S":
        return S.strs(name, n, 1, b"xy")
    return S.ints(name, n, np.dtype(kind), 0, 2, inv=True)


def P(sizes, kinds, hows=HOWS):
    return [dict(nl=a, nr=b, how=h, kind=k) for (a, b) in sizes for k in kinds for h in hows]


@scenario(quick=P([(3, 3)], ["i4"]) + P([(2, 2)], ["f8", "S", "i1"]) + P([(0, 2), (2, 0), (1, 1)], ["i8"]),
          thorough=P([(4, 3), (3, 4)], ["i4", "f8"]) + P([(3, 3)], ["S", "i2", "u4", "f4"]), budget=60)
def join(S, nl, nr, how, kind):
    rt = S.rt
    k, r = key(S, "k", nl, kind), key(S, "r", nr, kind)
    K, R = S.L(k), S.L(r)
    lv, rv = rt.FastArray(np.arange(10, 10 + nl, dtype=np.int16)), rt.FastArray(np.arange(20, 20 + nr, dtype=np.float64))
    match = lambda i, j: S.And(S.eq(K[i], R[j]), S.Not(isinv(S, K[i], k)))
    ds = rt.merge2(rt.Dataset({"k": k, "lv": lv}), rt.Dataset({"k": r, "rv": rv}), on="k", how=how)
    exp = rows(S, how, nl, nr, match)
    S.check(list(ds.keys()) == ["k", "lv", "rv"], "columns")
    check(S, ds, exp, {"lv": (list(range(10, 10 + nl)), -2**15)}, {"rv": ([float(x) for x in range(20, 20 + nr)], float("nan"))}, {"k": (K, R)}, f"{how} join")


@scenario(quick=[dict(how=h) for h in HOWS], thorough=[dict(how=h, nl=3) for h in HOWS], budget=60)
def join_two_keys(S, how, nl=2, nr=2):
    """two key columns with different names and dtypes, suffixes, indicator."""
    rt = S.rt
    a, c = S.ints("a", nl, np.int32, 0, 1, inv=True), S.ints("c", nr, np.int32, 0, 1, inv=True)
    b, d = S.strs("b", nl, 1, b"x"), S.strs("d", nr, 1, b"x")
    A, B, C, D = S.L(a), S.L(b), S.L(c), S.L(d)
    left = rt.Dataset({"a": a, "b": b, "v": rt.arange(nl)})
    right = rt.Dataset({"c": c, "b": d, "v": rt.arange(nr) + 10})
    match = lambda i, j: S.And(S.eq(A[i], C[j]), S.Not(isinv(S, A[i], a)), S.eq(B[i], D[j]))
    ds = rt.merge2(left, right, on=[("a", "c"), "b"], how=how, suffixes=("_l", "_r"), indicator="ind")
    exp = rows(S, how, nl, nr, match)
    S.check(sorted(ds.keys()) == ["a", "b", "c", "ind", "v_l", "v_r"], "columns")
    i32 = -2**31
    vinv = int(ds["v_l"].inv)
    check(S, ds, exp, {"a": (A, i32), "v_l": (list(range(nl)), vinv)}, {"c": (C, i32), "v_r": (list(range(10, 10 + nr)), vinv)}, {"b": (B, D)}, f"{how} join on two keys")
    if len(ds["ind"]) == len(exp):
        S.eq_list(S.L(ds["ind"].expand_array), [b"right_only" if i is None else b"left_only" if j is None else b"both" for i, j in exp], "indicator")


KEEPS = [("first", None), (None, "first"), ("last", None), (None, "last"), ("first", "last"), "first", "last"]


KP = [dict(how=h, keep=k) for h in HOWS for k in KEEPS if h != "outer" or k[0] is None]


@scenario(quick=KP + [dict(p, kind=k, nl=a, nr=b) for p in KP for k, a, b in (("f8", 2, 2), ("i4", 2, 2), ("i8", 0, 3), ("i2", 3, 0))], budget=60, thorough=[dict(p, nl=4, nr=3) for p in KP] + [dict(p, kind=k) for p in KP for k in ("f8", "i1", "S")])
def join_keep(S, how, keep, nl=3, nr=3, kind=None):
    """keep='first'/'last' uses one row per key on the chosen side(s); rows with an invalid key count as one key."""
    rt = S.rt
    keep = keep if isinstance(keep, str) else tuple(keep)
    k, r = (S.ints("k", nl, np.int64, 0, 2), S.ints("r", nr, np.int64, 0, 2)) if kind is None else (key(S, "k", nl, kind), key(S, "r", nr, kind))
    K, R = S.L(k), S.L(r)
    ds = rt.merge2(rt.Dataset({"k": k, "lv": rt.arange(nl, dtype=np.int32)}), rt.Dataset({"k": r, "rv": rt.arange(nr, dtype=np.int32)}), on="k", how=how, keep=keep)
    kk = (keep, keep) if isinstance(keep, str) else tuple(keep)
    same = lambda V, a: lambda x, y: S.Or(S.eq(V[x], V[y]), S.And(isinv(S, V[x], a), isinv(S, V[y], a)))
    exp = rows(S, how, nl, nr, lambda i, j: S.And(S.eq(K[i], R[j]), S.Not(isinv(S, K[i], k))), kk, same(K, k), same(R, r))
    if nl == 0 and how == "outer":  # the order of the kept right rows is not promised here
        got = [int(S.concrete(x)) for x in S.L(ds["rv"])]
        S.check(sorted(got) == [j for _, j in exp], "kept right rows")
        exp = [(None, j) for j in got]
    check(S, ds, exp, {"lv": (list(range(nl)), -2**31)}, {"rv": (list(range(nr)), -2**31)}, {"k": (K, R)}, f"{how} join keep={keep}")


@scenario(quick=[dict(keep=k) for k in (None, "first", "last")] + [dict(keep=None, kind="S"), dict(keep="first", kind="f8"), dict(keep=None, nl=0), dict(keep=None, nr=0), dict(keep="last", nl=1, nr=1)],
          thorough=[dict(keep=k, kind=d, nl=4, nr=4) for k in (None, "first", "last") for d in ("i8", "f8", "S")], budget=60)
def lookup(S, keep, nl=3, nr=3, kind="i4"):
    """merge_lookup: left rows one to one and in order; duplicate right keys raise unless keep is given."""
    rt = S.rt
    k, r = key(S, "k", nl, kind), key(S, "r", nr, kind)
    K, R = S.L(k), S.L(r)
    rv = S.strs("rv", nr, 1, b"pq")
    RV = S.L(rv)
    lv = rt.arange(nl, dtype=np.int64)
    left, right = rt.Dataset({"k": k, "lv": lv}), rt.Dataset({"r": r, "rv": rv, "extra": rt.arange(nr)})
    raised, ds = S.raises(ValueError, lambda: rt.merge_lookup(left, right, on=("k", "r"), keep=keep, columns_right=["rv"]))
    same = lambda x, y: S.And(S.eq(R[x], R[y]), S.Not(isinv(S, R[x], r)))
    dup = S.Or(*[same(x, y) for x in range(nr) for y in range(x)])
    if keep is None:
        S.check(dup if raised else S.Not(dup), "raises exactly when the right keys are not unique")
    else:
        S.check(not raised, "keep never raises")
    if raised:
        return
    S.check(list(ds.keys()) == ["k", "lv", "rv"], "columns")
    order = list(range(nr)) if keep != "last" else list(reversed(range(nr)))
    exp = []
    for i in range(nl):
        ms = [j for j in order if bool(S.And(S.eq(K[i], R[j]), S.Not(isinv(S, K[i], k))))]
        exp.append((i, ms[0] if ms else None))
    check(S, ds, exp, {"lv": (list(range(nl)), -2**63), "k": (K, None)}, {"rv": (RV, b"")}, {}, "lookup")
    S.eq_list(S.L(left["k"]), K, "left input unchanged")
    S.eq_list(S.L(right["r"]), R, "right input unchanged")


@scenario(quick=[dict(validate=v) for v in ("1:1", "1:m", "m:1", "m:m", "one_to_one", "one_to_many", "many_to_one")], budget=40)
def validate(S, validate, nl=2, nr=2):
    """validate raises exactly when the required side has a duplicated valid key."""
    rt = S.rt
    k, r = S.ints("k", nl, np.int32, 0, 2), S.ints("r", nr, np.int32, 0, 2, inv=True)
    K, R = S.L(k), S.L(r)
    left, right = rt.Dataset({"k": k, "lv": rt.arange(nl)}), rt.Dataset({"k": r, "rv": rt.arange(nr)})
    raised, ds = S.raises(ValueError, lambda: rt.merge2(left, right, on="k", how="left", validate=validate))
    dl = S.And(S.eq(K[0], K[1]), S.Not(isinv(S, K[0], k)))
    dr = S.And(S.eq(R[0], R[1]), S.Not(isinv(S, R[0], r)))
    one, many = {"1:1": (1, 1), "one_to_one": (1, 1), "1:m": (1, 0), "one_to_many": (1, 0), "m:1": (0, 1), "many_to_one": (0, 1), "m:m": (0, 0)}[validate]
    bad = S.Or(S.And(bool(one), dl), S.And(bool(many), dr))
    S.check(bad if raised else S.Not(bad), f"validate={validate} raises exactly on duplicates")


@scenario(quick=[dict(how=h) for h in HOWS], thorough=[dict(how=h, nl=3, nr=3) for h in HOWS], budget=60)
def join_categorical(S, how, nl=2, nr=2):
    """categorical keys join by value; a filtered (invalid) entry matches nothing."""
    rt = S.rt
    k, r = S.ints("k", nl, np.int8, 0, 2), S.ints("r", nr, np.int8, 0, 2)
    K, R = S.L(k), S.L(r)
    lc, rc_ = rt.Categorical(k, ["a", "b"], base_index=1), rt.Categorical(r, ["b", "c"], base_index=1)
    left, right = rt.Dataset({"k": lc, "lv": rt.arange(nl, dtype=np.int32)}), rt.Dataset({"k": rc_, "rv": rt.arange(nr, dtype=np.int32)})
    ds = rt.merge2(left, right, on="k", how=how)
    exp = rows(S, how, nl, nr, lambda i, j: S.And(S.eq(K[i], 2), S.eq(R[j], 1)))
    check(S, ds, exp, {"lv": (list(range(nl)), -2**31)}, {"rv": (list(range(nr)), -2**31)}, {}, f"{how} join on categoricals")


@scenario(quick=[dict(how=h) for h in HOWS], budget=40)
def merge_old(S, how, nl=2, nr=2):
    """rt.merge (first-generation API) on unique right keys agrees with the join definition."""
    rt = S.rt
    k, r = S.ints("k", nl, np.int32, 0, 2), S.ints("r", nr, np.int32, 0, 2)
    K, R = S.L(k), S.L(r)
    S.assume(S.Not(S.eq(R[0], R[1])))
    S.assume(S.Not(S.eq(K[0], K[1])))
    ds = rt.merge(rt.Dataset({"k": k, "lv": rt.arange(nl, dtype=np.int32)}), rt.Dataset({"k": r, "rv": rt.arange(nr, dtype=np.int32)}), on="k", how=how)
    exp = rows(S, how, nl, nr, lambda i, j: S.eq(K[i], R[j]))
    S.check(ds.shape[0] == len(exp), "row count")
    if ds.shape[0] == len(exp):
        check(S, ds, exp, {"lv": (list(range(nl)), -2**31)}, {"rv": (list(range(nr)), -2**31)}, {"k": (K, R)}, f"merge {how}")


@scenario(quick=[dict(a=2, b=1), dict(a=1, b=2)], budget=20)
def key_count_mismatch(S, a, b):
    """a different number of key columns on each side is refused, whatever the data."""
    rt = S.rt
    cols = {f"k{i}": S.ints(f"k{i}", 2, np.int32, 0, 1) for i in range(2)}
    left, right = rt.Dataset(dict(cols, x=rt.arange(2))), rt.Dataset(dict(cols, y=rt.arange(2)))
    raised, _ = S.raises(ValueError, lambda: rt.merge2(left, right, left_on=[f"k{i}" for i in range(a)], right_on=[f"k{i}" for i in range(b)], columns_right=["y"]))
    S.check(raised, "key count mismatch raises")


@scenario(quick=[dict(how=h, keep=k) for h in HOWS for k in [None] + KEEPS if h != "outer" or k is None or k[0] is None], thorough=[dict(how=h, keep=k, nl=3) for h in HOWS for k in [None] + KEEPS if h != "outer" or k is None or k[0] is None], budget=60)
def join_two_keys_keep(S, how, keep, nl=2, nr=2):
    """composite keys: a key with an invalid component matches nothing; keep compares components, invalid with invalid."""
    rt = S.rt
    keep = keep if keep is None or isinstance(keep, str) else tuple(keep)
    a, c = S.ints("a", nl, np.int32, 0, 1, inv=True), S.ints("c", nr, np.int32, 0, 1, inv=True)
    b, d = S.floats("b", nl, 0, 1, q=0), S.floats("d", nr, 0, 1, q=0)
    A, B, C, D = S.L(a), S.L(b), S.L(c), S.L(d)
    match = lambda i, j: S.And(S.eq(A[i], C[j]), S.Not(isinv(S, A[i], a)), S.eq(B[i], D[j]), S.Not(S.isnan(B[i])))
    same = lambda U, V: lambda x, y: S.And(S.eq(U[x], U[y]), S.Or(S.eq(V[x], V[y]), S.And(S.isnan(V[x]), S.isnan(V[y]))))
    kk = (keep, keep) if keep is None or isinstance(keep, str) else keep
    ds = rt.merge2(rt.Dataset({"k": a, "m": b, "lv": rt.arange(nl, dtype=np.int32)}), rt.Dataset({"k": c, "m": d, "rv": rt.arange(nr, dtype=np.int32)}), on=["k", ("m",)] if how == "left" else ["k", "m"], how=how, keep=keep)
    exp = rows(S, how, nl, nr, match, kk, same(A, B), same(C, D))
    check(S, ds, exp, {"lv": (list(range(nl)), -2**31)}, {"rv": (list(range(nr)), -2**31)}, {"k": (A, C), "m": (B, D)}, f"{how} join on two keys keep={keep}")


MIX = [("i1", "i8"), ("i8", "i2"), ("u1", "i4"), ("f4", "f8"), ("i4", "f8"), ("f8", "i2"), ("S1", "S3"), ("S2", "S1")]


@scenario(quick=[dict(how=HOWS[i % 4], a=a, b=b) for i, (a, b) in enumerate(MIX)], thorough=[dict(how=h, a=a, b=b, nl=3) for h in HOWS for a, b in MIX], budget=60)
def join_mixed_dtypes(S, how, a, b, nl=2, nr=2):
    """key columns of different widths or kinds match by value; an invalid key of either dtype matches nothing."""
    rt = S.rt
    mk = lambda name, n, d: S.strs(name, n, int(d[1]), b"x", minlen=1) if d[0] == "S" else S.floats(name, n, 0, 2, q=0, dtype=np.dtype(d)) if d[0] == "f" else S.ints(name, n, np.dtype(d), 0, 2, inv=True)
    k, r = mk("k", nl, a), mk("r", nr, b)
    K, R = S.L(k), S.L(r)
    match = lambda i, j: S.And(S.Not(isinv(S, K[i], k)), S.Not(isinv(S, R[j], r)), S.eq(K[i], R[j]))
    ds = rt.merge2(rt.Dataset({"k": k, "lv": rt.arange(nl, dtype=np.int32)}), rt.Dataset({"r": r, "rv": rt.arange(nr, dtype=np.int32)}), left_on="k", right_on="r", how=how)
    exp = rows(S, how, nl, nr, match)
    check(S, ds, exp, {"lv": (list(range(nl)), -2**31), "k": (K, inv_of(k))}, {"rv": (list(range(nr)), -2**31), "r": (R, inv_of(r))}, {}, f"{how} join {a} with {b}")


@scenario(quick=[dict(how=h, keys=n) for h in HOWS for n in (1, 2)], thorough=[dict(how=h, keys=2, nl=3, nr=3) for h in HOWS], budget=60)
def merge_old_indicator(S, how, keys, nl=2, nr=2):
    """rt.merge with one or two keys, unique on both sides: rows as a set, and the indicator column."""
    rt = S.rt
    ka = [S.ints(f"a{c}", nl, np.int32, 0, 1) for c in range(keys)]
    kb = [S.ints(f"b{c}", nr, np.int32, 0, 1) for c in range(keys)]
    A, B = [S.L(x) for x in ka], [S.L(x) for x in kb]
    eqrow = lambda X, i, Y, j: S.And(*[S.eq(x[i], y[j]) for x, y in zip(X, Y)])
    for X, n in ((A, nl), (B, nr)):
        for i in range(n):
            for j in range(i):
                S.assume(S.Not(eqrow(X, i, X, j)))
    left = rt.Dataset(dict({f"k{c}": x for c, x in enumerate(ka)}, lv=rt.arange(nl, dtype=np.int32)))
    right = rt.Dataset(dict({f"k{c}": x for c, x in enumerate(kb)}, rv=rt.arange(nr, dtype=np.int32)))
    ds = rt.merge(left, right, on=[f"k{c}" for c in range(keys)], how=how, indicator=True)
    exp = rows(S, how, nl, nr, lambda i, j: eqrow(A, i, B, j))
    check(S, ds, exp, {"lv": (list(range(nl)), -2**31)}, {"rv": (list(range(nr)), -2**31)}, {f"k{c}": (A[c], B[c]) for c in range(keys)}, f"merge {how}")
    if len(ds["merge_indicator"]) == len(exp):
        S.eq_list(S.L(ds["merge_indicator"].expand_array), [b"right_only" if i is None else b"left_only" if j is None else b"both" for i, j in exp], "indicator")


BIG = [dict(nl=a, nr=b, how=h) for a, b, h in [(128, 1, "left"), (1, 128, "inner"), (1, 256, "outer"), (17, 16, "inner"), (129, 1, "outer"), (20, 13, "right")]]


@scenario(quick=BIG, thorough=[dict(nl=a, nr=b, how=h) for a, b in [(127, 2), (2, 127), (255, 1), (1, 257), (16, 16)] for h in HOWS], budget=100)
def join_big(S, nl, nr, how):
    """row counts around the limits of the compact index types (127/128/255/256), two free keys per side."""
    rt = S.rt
    lp, rp = sorted({0, nl - 1}), sorted({0, nr - 1})
    k = S.ints_at("k", [1] * nl, lp, np.int32, 0, 2, inv=True)
    r = S.ints_at("r", [1] * nr, rp, np.int32, 0, 2, inv=True)
    K, R = S.L(k), S.L(r)
    lv, rv = rt.FastArray(np.arange(nl, dtype=np.int16)), rt.FastArray(np.arange(nr, dtype=np.float64))
    match = lambda i, j: (i not in lp and j not in rp) or S.And(S.eq(K[i], R[j]), S.Not(isinv(S, K[i], k)))
    ds = rt.merge2(rt.Dataset({"k": k, "lv": lv}), rt.Dataset({"k": r, "rv": rv}), on="k", how=how)
    exp = rows(S, how, nl, nr, match)
    check(S, ds, exp, {"lv": (list(range(nl)), -2**15)}, {"rv": ([float(x) for x in range(nr)], float("nan"))}, {"k": (K, R)}, f"{how} join")


@scenario(quick=[dict(fn=f, same=s) for f in ("left", "outer", "right", "lookup", "lookup_m", "inplace", "merge") for s in (True, False)], budget=60)
def naming(S, fn, same):
    """columns selected from each side, key names that differ, and suffixes of names both sides have."""
    rt = S.rt
    nl, nr = 2, 2
    k, r = S.ints("k", nl, np.int32, 0, 2), S.ints("r", nr, np.int32, 0, 2)
    K, R = S.L(k), S.L(r)
    S.assume(not bool(R[0] == R[1]))
    v, w = S.ints("v", nl, np.int32, 0, 5), S.ints("w", nl, np.int32, 0, 5)
    p, u = S.ints("p", nr, np.int32, 0, 5), S.ints("u", nr, np.int32, 0, 5)
    rk = "k" if same else "q"
    left, right = rt.Dataset({"v": v, "k": k, "w": w}), rt.Dataset({"u": u, rk: r, "v": p})
    lsrc, rsrc = {"v": S.L(v), "k": K, "w": S.L(w)}, {"u": S.L(u), rk: R, "v": S.L(p)}
    cl = None if fn == "inplace" else S.pick("cl", [None, ("w",), ("w", "k"), ("v",)])
    cr = S.pick("cr", [None, ("u",), ("v",), ("v", rk)])
    sfx = S.pick("sfx", [("_l", "_r"), ("", "_r"), (None, None)]) if fn != "inplace" else S.pick("sfx", [("", "_r"), ("", None)])
    lnames = [c for c in left.keys() if cl is None or c in cl]
    rnames = [c for c in right.keys() if cr is None or c in cr]
    both = [c for c in lnames if c in rnames and not (same and c == "k")]
    lout = {c: c + ((sfx[0] or "") if c in both else "") for c in lnames}
    rout = {c: c + ((sfx[1] or "") if c in both else "") for c in rnames}
    clash = bool(both) and all(not x for x in sfx)
    on = "k" if same else ("k", "q")
    kw = dict(columns_left=list(cl) if cl else None, columns_right=list(cr) if cr else None)
    if fn == "lookup":
        f = lambda: rt.merge_lookup(left, right, on=on, suffixes=sfx if sfx[0] is not None else None, **kw)
    elif fn == "lookup_m":
        S.assume(sfx != ("_l", "_r"))
        f = lambda: left.merge_lookup(right, on=on, suffix=sfx[1], **kw)
    elif fn == "inplace":
        kw.pop("columns_left")
        f = lambda: left.merge_lookup(right, on=on, suffix=sfx[1], inplace=True, **kw)
    elif fn == "merge":
        S.assume(sfx[0] is not None)
        f = lambda: rt.merge(left, right, left_on="k", right_on=rk, how="left", suffixes=sfx, **kw)
    else:
        f = lambda: rt.merge2(left, right, on=on, how=fn, suffixes=sfx if sfx[0] is not None else None, **kw)
    raised, ds = S.raises(ValueError, f)
    S.check(raised == clash, f"rejected exactly when two result columns would share a name: {cl} {cr} {sfx}")
    if raised:
        S.check(list(left.keys()) == ["v", "k", "w"], "left table unchanged when rejected")
        return
    match = lambda i, j: S.eq(K[i], R[j])
    exp = rows(S, fn if fn in HOWS else "left", nl, nr, match)
    I = -2**31
    lc = {lout[c]: ([x for x in lsrc[c]], I) for c in lnames if c != "k"}
    rc_ = {rout[c]: (rsrc[c], I) for c in rnames if c != rk}
    want = set(lout.values()) | {rout[c] for c in rnames} | ({"k"} if "k" in lnames or (same and fn != "merge") else set())
    got = set(ds.keys())
    # the key columns themselves may be added when they were not asked for
    S.check(want <= got and got <= want | {"k", rk}, f"columns {sorted(got)} / {sorted(want)}")
    check(S, ds, exp, lc, rc_, {}, "join with chosen columns")
    if same:
        S.eq_list(S.L(ds["k"]), [R[j] if i is None else K[i] for i, j in exp], "key column")
    elif fn not in ("merge",) and "k" in lnames:
        S.eq_list(S.L(ds["k"]), [I if i is None else K[i] for i, j in exp], "left key column")
    for c in right.keys():
        S.eq_list(S.L(right[c]), rsrc[c], "right table unchanged")
    if fn == "inplace":
        S.check(ds is left, "the left table itself")
    else:
        S.check(list(left.keys()) == ["v", "k", "w"], "left table unchanged")
    for c in lsrc:
        S.eq_list(S.L(left[c]), lsrc[c], "left columns unchanged")
