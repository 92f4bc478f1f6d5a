"""Membership, uniqueness and search."""
import numpy as np
from sx.registry import scenario
from props.common import is_inv

BOUNDS = "arrays of at most 4 elements (thorough 5), values from a small range plus the invalid value, one or two key columns; selected instances also with every input a stepped or reversed view"


def col(S, name, n, kind, inv=True, hi=2):
    if kind in ("f8", "f4"):
        return S.floats(name, n, 0, hi, q=0, nan=inv, dtype=np.dtype(kind))
    if kind[0] == "S":
        return S.strs(name, n, int(kind[1:]), b"xy")
    if kind[0] == "U":
        return S.strs(name, n, int(kind[1:]), b"xy", kind="U")
    if kind == "b1":
        return S.bools(name, n)
    return S.ints(name, n, np.dtype(kind), 0, hi, inv=inv)


def P(*ks, sizes=((3, 2),)):
    return [dict(n=n, m=m, ka=a, kb=b) for a, b in ks for n, m in sizes]


@scenario(quick=P(("i4", "i4"), ("i8", "i2"), ("f8", "f8"), ("S1", "S2"), ("S2", "S1"), ("i4", "f8"), ("f4", "f8"), ("u1", "i4"), ("U1", "S1")) + P(("i8", "i8"), sizes=((0, 2), (2, 0), (1, 1), (4, 3))),
          thorough=P(("i4", "i4"), ("f8", "f8"), ("S1", "S1"), ("i1", "i8"), ("u2", "u4"), sizes=((5, 4), (4, 4))), budget=40, views=[0,6,9])
def ismember(S, n, m, ka, kb):
    """index of the first equal element, or the invalid index; NaN and invalid members match only through equality of raw keys."""
    rt = S.rt
    a, b = col(S, "a", n, ka, inv=False), col(S, "b", m, kb, inv=False)
    A, B = S.L(a), S.L(b)
    t, idx = rt.ismember(a, b)
    T, X = S.L(t), S.L(idx)
    S.check(len(T) == n and len(X) == n, "lengths")
    bad = -(2 ** (8 * idx.dtype.itemsize - 1))
    for i in range(n):
        first = [S.And(S.eq(A[i], B[j]), *[S.Not(S.eq(A[i], B[k])) for k in range(j)]) for j in range(m)]
        anym = S.Or(*first)
        S.check(S.eq(T[i], anym) if S.symbolic else bool(T[i]) == bool(anym), "membership flag")
        S.check(S.And(*[S.Implies(first[j], S.eq(X[i], j)) for j in range(m)]), "index of first match")
        S.check(S.Implies(S.Not(anym), S.eq(X[i], bad)), "no match gives the invalid index")
    S.eq_list(S.L(a), A, "first input unchanged")
    S.eq_list(S.L(b), B, "second input unchanged")


@scenario(quick=[dict(n=2, m=2), dict(n=2, m=0), dict(n=0, m=2), dict(n=3, m=1, tup=True)], thorough=[dict(n=3, m=3)], budget=40, views=[0])
def ismember_multikey(S, n, m, tup=False):
    rt = S.rt
    a1, b1 = S.ints("a1", n, np.int32, 0, 1), S.ints("b1", m, np.int64, 0, 1)
    a2, b2 = S.strs("a2", n, 1, b"x"), S.strs("b2", m, 2, b"x")
    A, B = list(zip(S.L(a1), S.L(a2))), list(zip(S.L(b1), S.L(b2)))
    t, idx = rt.ismember((a1, a2), (b1, b2)) if tup else rt.ismember([a1, a2], [b1, b2])
    T, X = S.L(t), S.L(idx)
    S.check(len(T) == n and len(X) == n, "lengths")
    if len(T) != n:
        return
    bad = -(2 ** (8 * idx.dtype.itemsize - 1))
    eq = lambda i, j: S.And(S.eq(A[i][0], B[j][0]), S.eq(A[i][1], B[j][1]))
    for i in range(n):
        first = [S.And(eq(i, j), *[S.Not(eq(i, k)) for k in range(j)]) for j in range(m)]
        anym = S.Or(*first)
        S.check(S.Or(S.And(T[i], anym), S.And(S.Not(T[i]), S.Not(anym))), "membership flag")
        S.check(S.And(*[S.Implies(first[j], S.eq(X[i], j)) for j in range(m)]), "index of first match")
        S.check(S.Implies(S.Not(anym), S.eq(X[i], bad)), "no match gives the invalid index")


@scenario(quick=[dict(n=3, m=2, kind=k) for k in ("i4", "f8", "S1")] + [dict(n=2, m=0, kind="i8")], budget=30, views=[0])
def isin(S, n, m, kind):
    a, b = col(S, "a", n, kind, inv=False), col(S, "b", m, kind, inv=False)
    A, B = S.L(a), S.L(b)
    T = S.L(a.isin(b))
    S.check(len(T) == n, "length")
    for i in range(n):
        w = S.Or(*[S.eq(A[i], x) for x in B])
        S.check(S.Or(S.And(T[i], w), S.And(S.Not(T[i]), S.Not(w))), "isin")


def order(S, vals, srt, kind):
    """indices of the distinct values' first occurrences in output order."""
    n = len(vals)
    firsts = [i for i in range(n) if not any(bool(S.eq(vals[i], vals[k])) for k in range(i))]
    if not srt:
        return firsts
    out = []
    for i in firsts:  # insertion by value, NaN last
        k = len(out)
        while k > 0 and (bool(S.isnan(vals[out[k - 1]])) or (not bool(S.isnan(vals[i])) and bool(vals[i] < vals[out[k - 1]]))):
            k -= 1
        out.insert(k, i)
    return out


@scenario(quick=[dict(n=3, kind=k, srt=s) for k in ("i4", "f8", "S1", "i1", "u2", "f4") for s in (True, False)] + [dict(n=4, kind="i8", srt=s) for s in (True, False)] + [dict(n=1, kind="S2", srt=True), dict(n=3, kind="U1", srt=True)],
          thorough=[dict(n=5, kind=k, srt=s) for k in ("i4", "f8", "S1") for s in (True, False)], budget=60, views=[0,3])
def unique(S, n, kind, srt):
    rt = S.rt
    inv = kind[0] not in "iu"
    a = col(S, "a", n, kind, inv=inv)
    A = S.L(a)
    u, idx, inverse, cnt = rt.unique(a, return_index=True, return_inverse=True, return_counts=True, sorted=srt)
    U, X, V, C = S.L(u), S.L(idx), S.L(inverse), S.L(cnt)
    exp = order(S, A, srt, kind)
    S.eq_list(U, [A[i] for i in exp], "unique values in order")
    S.eq_list(X, exp, "index of first occurrence")
    S.check(len(V) == n, "inverse length")
    pos = [next(p for p, e in enumerate(exp) if bool(S.eq(A[e], A[i]))) for i in range(n)]
    S.eq_list(V, pos, "inverse")
    S.eq_list(C, [sum(1 for p in pos if p == q) for q in range(len(exp))], "counts")
    S.eq_list(S.L(rt.unique(a, sorted=srt)), [A[i] for i in exp], "unique values alone")
    S.eq_list(S.L(a), A, "input unchanged")


@scenario(quick=[dict(n=3, kind=k) for k in ("i4", "S1")], budget=40, views=[0])
def unique_filter(S, n, kind):
    rt = S.rt
    a = col(S, "a", n, kind, inv=False)
    f = S.bools("f", n)
    A, F = S.L(a), S.L(f)
    u, cnt = rt.unique(a, filter=f, return_counts=True)
    keep = [i for i in range(n) if bool(F[i])]
    vals = [A[i] for i in keep]
    exp = order(S, vals, True, kind)
    S.eq_list(S.L(u), [vals[i] for i in exp], "unique values of the filtered rows")
    S.eq_list(S.L(cnt), [sum(1 for v in vals if bool(S.eq(v, vals[e]))) for e in exp], "counts of the filtered rows")


@scenario(quick=[dict(n=3, kind=k, keep=kp) for k in ("i4", "S1") for kp in ("first", "last", False)] + [dict(n=3, kind="f8", keep="first"), dict(n=4, kind="i8", keep="last")], budget=40, views=[0])
def duplicated(S, n, kind, keep):
    a = col(S, "a", n, kind, inv=kind[0] == "f")
    A = S.L(a)
    D = S.L(a.duplicated(keep=keep))
    S.check(len(D) == n, "length")
    for i in range(n):
        others = [k for k in range(n) if (k < i if keep == "first" else k > i if keep == "last" else k != i)]
        w = S.Or(*[S.eq(A[i], A[k]) for k in others])
        S.check(S.Or(S.And(D[i], w), S.And(S.Not(D[i]), S.Not(w))), f"duplicated keep={keep}")
    bad = [S.isnan(x) if kind[0] == "f" else S.eq(x, b"") if kind[0] == "S" else False for x in A]
    S.check(S.eq(a.nunique(), S.count([S.And(S.Not(bad[i]), S.Not(S.Or(*[S.eq(A[i], A[k]) for k in range(i)]))) for i in range(n)])), "nunique counts distinct valid values")


@scenario(quick=[dict(n=3, m=2, kind=k, side=s) for k in ("i4", "f8", "i8") for s in ("left", "right")], thorough=[dict(n=5, m=2, kind="i4", side=s) for s in ("left", "right")], budget=40, views=[0])
def searchsorted(S, n, m, kind, side):
    rt = S.rt
    a, v = col(S, "a", n, kind, inv=False, hi=4), col(S, "v", m, kind, inv=False, hi=4)
    A, V = S.L(a), S.L(v)
    for x, y in zip(A, A[1:]):
        S.assume(x <= y)
    for got in (rt.searchsorted(a, v, side=side), a.searchsorted(v, side=side)):
        G = S.L(got)
        S.check(len(G) == m, "length")
        for i in range(m):
            S.check(S.eq(G[i], S.count([(x < V[i]) if side == "left" else (x <= V[i]) for x in A])), f"searchsorted {side}")


@scenario(quick=[dict(n=4, kind=k) for k in ("i4", "f8", "S1")], budget=30, views=[0,1])
def issorted(S, n, kind):
    a = col(S, "a", n, kind, inv=False)
    A = S.L(a)
    r = a.issorted()
    w = S.And(*[(x <= y) for x, y in zip(A, A[1:])])
    S.check(S.Or(S.And(r, w), S.And(S.Not(r), S.Not(w))), "issorted")


@scenario(quick=[dict(kind=k, side=s) for k in ("i4", "f8") for s in ("left", "right")], budget=30)
def searchsorted_sorter(S, kind, side, n=3, m=1):
    """insertion points into the order given by a sorter."""
    rt = S.rt
    a, v = col(S, "a", n, kind, inv=False, hi=3), col(S, "v", m, kind, inv=False, hi=3)
    A, V = S.L(a), S.L(v)
    for q in (rt.searchsorted(a, v, side=side, sorter=a.argsort()), a.searchsorted(v, side=side, sorter=a.argsort())):
        q = S.L(q)
        S.check(len(q) == m, "length")
        for p, x in zip(q, V):
            S.check(p == sum(bool(y < x if side == "left" else y <= x) for y in A), "insertion point")


@scenario(quick=[dict(how=h, kind=k) for h in ("copy", "copy_table", "map", "between") for k in ("i4", "f8", "S2") if (h, k) != ("between", "S2")] + [dict(how="copy_two", kind="i4")], budget=60)
def lookups(S, how, kind, n=3, m=2):
    """values carried over by key, mapped values, and range tests."""
    rt = S.rt
    a = col(S, "a", n, kind)
    A = S.L(a)
    if how == "between":
        lo, hi = S.L(col(S, "b", 1, kind))[0], S.L(col(S, "c", 1, kind))[0]
        if kind == "f8" and bool(S.Or(S.isnan(lo), S.isnan(hi))):
            return
        if kind == "i4" and bool(S.Or(is_inv(S, lo, np.int32), is_inv(S, hi, np.int32))):
            return
        for il in (True, False):
            for ih in (True, False):
                r = a.between(lo, hi, include_low=il, include_high=ih)
                for x, g in zip(A, S.L(r)):
                    ok = S.Not(is_inv(S, x, a.dtype))
                    S.check(S.eq(g, S.And(ok, x >= lo if il else x > lo, x <= hi if ih else x < hi)), "between")
        return
    b = S.rt.FastArray([b"x", b"xy"]) if how == "map" and kind == "S2" else col(S, "b", m, kind)
    B = [b"x", b"xy"] if how == "map" and kind == "S2" else S.L(b)
    f, i = S.floats("f", m), S.ints("i", m, np.int16, -5, 5)
    F, I = S.L(f), S.L(i)
    first = []
    if how == "copy_two":
        a2, b2 = S.ints("a2", n, np.int8, 0, 1), S.ints("b2", m, np.int8, 0, 1)
        A2, B2 = S.L(a2), S.L(b2)
    for j, x in enumerate(A):
        hit = None
        for k, y in enumerate(B):
            if bool(S.eq(x, y)) and (how != "copy_two" or bool(S.eq(A2[j], B2[k]))):
                hit = k
                break
        if bool(is_inv(S, x, a.dtype)):
            hit = "skip"  # what an invalid key matches is R15.ismember's business
        first.append(hit)
    if how == "map":
        if any(bool(S.eq(B[0], y)) for y in B[1:]) or any(bool(is_inv(S, y, b.dtype)) for y in B):
            return
        d = {S.concrete(k): v for k, v in zip(B, (7, 9))}
        r = a.map(d)
        S.check(len(r) == n, "length")
        for h, g in zip(first, S.L(r)):
            if h != "skip":
                S.check(is_inv(S, g, r.dtype) if h is None else S.eq(g, (7, 9)[h]), "mapped value")
        S.eq_list(S.L(a), A, "the source is unchanged")
        return
    k1, k2 = ([a, a2], [b, b2]) if how == "copy_two" else (a, b)
    if how == "copy_table":
        r = rt.assoc_copy(k1, k2, rt.Dataset({"f": f, "i": i}))
        got, goti = r["f"], S.L(r["i"])
    else:
        got, goti = rt.assoc_copy(k1, k2, f), None
    S.check(len(got) == n, "one row for each key")
    for j, (h, g) in enumerate(zip(first, S.L(got))):
        if h == "skip":
            continue
        S.check(S.isnan(g) if h is None else S.eq(g, F[h]), "value of the first row with the key")
        if goti is not None:
            S.check(is_inv(S, goti[j], np.int16) if h is None else S.eq(goti[j], I[h]), "value of the first row with the key (integers)")
