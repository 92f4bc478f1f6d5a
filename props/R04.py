"""Grouping: the partition of rows into groups and every index derived from it."""
import numpy as np
from sx.registry import scenario
from props.common import *

BOUNDS = "at most 4 rows (thorough 5), 1-2 key columns (int8/16/32/64, float, bytes) with invalids, symbolic row filters, ordered/unordered/lexicographic construction, base index 0 and 1; large instances: 126-260 groups with 2 free keys; selected instances also with every input a stepped or reversed view"


def rows_of(S, ik, n):
    out = {}
    for i in range(n):
        out.setdefault(int(S.concrete(ik[i])), []).append(i)
    return out


def derived(S, g, n, ik, uc, msg):
    """every index of grouping g agrees with bins ik (base 1, 0 = no group)."""
    by = rows_of(S, ik, n)
    S.check(all(0 <= k <= uc for k in by), f"{msg}: bins in range")
    first = [by[b][0] if b in by else None for b in range(1, uc + 1)]
    last = [by[b][-1] if b in by else None for b in range(1, uc + 1)]
    for what, got, want in (("first row", g.ifirstkey, first), ("last row", g.ilastkey, last)):
        got = S.L(got)
        S.check(len(got) == uc, f"{msg}: {what} per group")
        for a, b in zip(got, want):
            if b is not None:
                S.check(a == b, f"{msg}: {what}")
            else:
                S.check(S.Or(a < 0, a >= n), f"{msg}: {what} of an empty group is invalid")
    ig, fg, nc = (S.L(x) for x in (g.igroup, g.ifirstgroup, g.ncountgroup))
    S.check(len(ig) == n and len(fg) == uc + 1 and len(nc) == uc + 1, f"{msg}: packed sizes")
    S.eq_list(nc, [len(by.get(b, [])) for b in range(uc + 1)], f"{msg}: rows per group")
    S.eq_list(S.L(g.ncountkey), [len(by.get(b, [])) for b in range(1, uc + 1)], f"{msg}: rows per key")
    for b in range(uc + 1):
        c = int(S.concrete(nc[b]))
        if c:
            p = int(S.concrete(fg[b]))
            S.eq_list(ig[p:p + c], by.get(b, []), f"{msg}: packed rows of a group")
            if b:
                S.eq_list(S.L(g.as_filter(b)), by[b], f"{msg}: as_filter")
    S.eq_list(S.L(g.igroupreverse), [ig.index(i) if not S.symbolic else [int(S.concrete(x)) for x in ig].index(i) for i in range(n)], f"{msg}: reverse of the packing")
    nx, pv = S.L(g.inextkey), S.L(g.iprevkey)
    for b, r in by.items():
        for c, i in enumerate(r):
            if b:
                S.check(nx[i] == r[c + 1] if c + 1 < len(r) else S.Or(nx[i] < 0, nx[i] >= n), f"{msg}: next row of the group")
                S.check(pv[i] == r[c - 1] if c else S.Or(pv[i] < 0, pv[i] >= n), f"{msg}: previous row of the group")


def keys(S, n, kinds):
    ks = [col(S, f"k{i}", n, k, inv=True, hi=1 if len(kinds) > 1 else 2) for i, k in enumerate(kinds)]
    return ks, [S.L(k) for k in ks]


@scenario(quick=[dict(n=3, kinds=[k], how=h) for k in ("i4", "i8", "i1", "f8", "S1") for h in ("hash", "cat", "ordcat")] + [dict(n=3, kinds=["i4", "S1"], how=h) for h in ("hash", "cat", "ordcat")]
          + [dict(n=4, kinds=["i2"], how="hash"), dict(n=1, kinds=["f8"], how="cat"), dict(n=3, kinds=["f4", "i2"], how="ordcat")],
          thorough=[dict(n=4, kinds=k, how=h) for k in (["i4"], ["f8"], ["S2"], ["i4", "S1"]) for h in ("hash", "cat", "ordcat")], budget=90)
def partition(S, n, kinds, how):
    """rows share a bin exactly when their keys are equal; the unique keys describe the bins in the promised order."""
    rt = S.rt
    ks, K = keys(S, n, kinds)
    g = rt.Grouping(ks if len(ks) > 1 else ks[0], categorical=how != "hash", ordered=how == "ordcat")
    gs = groups(S, K, n, ordered=how == "ordcat")
    want = [None] * n
    for b, r in enumerate(gs):
        for i in r:
            want[i] = b + 1
    S.check(g.unique_count == len(gs), "number of groups")
    S.eq_list(S.L(g.ikey), want, "bin of every row")
    for u, k in zip(g.uniquelist, K):
        S.eq_list(S.L(u), [k[r[0]] for r in gs], "unique keys")
    derived(S, g, n, want, len(gs), how)


@scenario(quick=[dict(n=3, kinds=k, how=h) for k in (["i4"], ["S1"], ["i4", "f8"]) for h in ("hash", "cat", "ordcat")], thorough=[dict(n=4, kinds=k, how=h) for k in (["i4"], ["i4", "S1"]) for h in ("hash", "cat", "ordcat")], budget=90)
def filtered(S, n, kinds, how):
    rt = S.rt
    ks, K = keys(S, n, kinds)
    m = S.bools("m", n)
    keep = [i for i, x in enumerate(S.L(m)) if bool(x)]
    if not keep:
        return
    g = rt.Grouping(ks if len(ks) > 1 else ks[0], categorical=how != "hash", ordered=how == "ordcat", filter=m)
    gs = groups(S, K, n, ordered=how == "ordcat", rows=keep)
    want = [0] * n
    for b, r in enumerate(gs):
        for i in r:
            want[i] = b + 1
    S.check(g.unique_count == len(gs), "number of groups")
    S.eq_list(S.L(g.ikey), want, "bin of every row, none for filtered rows")
    for u, k in zip(g.uniquelist, K):
        S.eq_list(S.L(u), [k[r[0]] for r in gs], "unique keys")
    derived(S, g, n, want, len(gs), "filtered")


@scenario(quick=[dict(n=4, nc=2, flt=f) for f in (False, True)] + [dict(n=3, nc=3, flt=True)], thorough=[dict(n=5, nc=3, flt=f) for f in (False, True)], budget=90)
def regroup(S, n, nc, flt):
    """dropping unused groups (optionally after a filter) keeps every row's key and leaves no unused group."""
    rt = S.rt
    c = S.ints("c", n, np.int8, 0, nc)
    C = S.L(c)
    cat = rt.Categorical(c, ["a", "b", "z"][:nc], base_index=1)
    names = [b"a", b"b", b"z"][:nc]
    ok = [True] * n
    m = None
    if flt:
        m = S.bools("m", n)
        ok = [bool(x) for x in S.L(m)]
    cc = [int(S.concrete(x)) for x in C]
    want = [names[cc[i] - 1] if ok[i] and cc[i] else None for i in range(n)]
    if not any(want):
        return
    r = cat.grouping.regroup(filter=m)
    used = [x for x in names if x in want]
    S.eq_list(S.L(r.uniquelist[0]), used, "groups left")
    S.check(r.unique_count == len(used), "unique count")
    ik = [used.index(w) + 1 if w else 0 for w in want]
    S.eq_list(S.L(r.ikey), ik, "bins")
    derived(S, r, n, ik, len(used), "regrouped")
    S.eq_list(S.L(cat.grouping.ikey), cc, "source grouping unchanged")


@scenario(quick=[dict(n=3, base=b, how=h) for b in (0, 1) for h in ("slice", "mask", "fancy", "list")], thorough=[dict(n=4, base=b, how=h) for b in (0, 1) for h in ("slice", "mask", "fancy", "list")], budget=60)
def select(S, n, base, how):
    """indexing a grouping keeps the keys of the selected rows and leaves the source alone."""
    rt = S.rt
    c = S.ints("c", n, np.int8, 0, 2 - (base == 0))
    C = [int(S.concrete(x)) for x in S.L(c)]
    cat = rt.Categorical(c, ["a", "b"], base_index=base)
    g = cat.grouping
    S.L(g.ifirstkey), S.L(g.ilastkey), S.L(g.inextkey), S.L(g.iprevkey), S.L(g.ncountgroup), S.L(g.igroup), S.L(g.igroupreverse)  # cached indices of the source must not leak
    if how == "slice":
        a, b = S.choose("a", 0, n), S.choose("b", 0, n)
        r, rows = g[a:b], list(range(n))[a:b]
    elif how == "mask":
        m = S.bools("m", n)
        r = g[m]
        rows = [i for i, x in enumerate(S.L(m)) if bool(x)]
    else:
        rows = [S.choose("a", 0, n - 1), S.choose("b", 0, n - 1)]
        r = g[rows if how == "list" else np.array(rows)]
    if not rows:
        return
    ik = [C[i] + (base == 0) for i in rows]
    S.eq_list(S.L(r.ikey), ik, "bins of the selected rows")
    derived(S, r, len(rows), ik, 2, "selected")
    S.eq_list(S.L(g.ikey), [x + (base == 0) for x in C], "source unchanged")
    S.eq_list(S.L(r.uniquelist[0]), [b"a", b"b"], "categories kept")


@scenario(quick=[dict(n=3, base=b, vals=v) for b in (0, 1) for v in (["a"], ["b"], ["b", "q"], [])], budget=60)
def isin(S, n, base, vals):
    rt = S.rt
    c = S.ints("c", n, np.int8, 0, 2 - (base == 0))
    C = S.L(c)
    g = rt.Categorical(c, ["a", "b"], base_index=base).grouping
    codes = [i + base for i, x in enumerate("ab") if x in vals]
    r = g.isin(vals)
    S.eq_list(S.L(r), [S.Or(False, *[x == k for k in codes]) for x in C], "membership of each row's key")


@scenario(quick=[dict(n=2, m=2, base=b, ordered=o) for b in (0, 1) for o in (False, True)] + [dict(n=3, m=1, base=1, ordered=False), dict(n=2, m=2, base=1, ordered=False, same=True)], thorough=[dict(n=3, m=3, base=b, ordered=o) for b in (0, 1) for o in (False, True)], budget=90)
def stacked(S, n, m, base, ordered, same=False):
    """joining groupings with different keys maps every row to its own key in the merged key list."""
    rt = S.rt
    lo = base and 0
    A = S.ints("a", n, np.int8, lo, 2 - (base == 0))
    B = S.ints("b", m, np.int8, lo, 2 - (base == 0))
    na, nb = [b"x", b"m"], ([b"x", b"m"] if same else [b"m", b"b"])
    ca, cb = rt.Categorical(A, np.array(na), base_index=base), rt.Categorical(B, np.array(nb), base_index=base)
    g = rt.Grouping._hstack([ca.grouping, cb.grouping], _trusted=True, base_index=base, ordered=ordered)
    u = S.L(g.uniquelist[0])
    if same:
        S.eq_list(u, na, "merged keys")
    elif ordered:
        S.eq_list(u, [b"b", b"m", b"x"], "merged keys")
    else:
        S.eq_list(u, [b"x", b"m", b"b"], "merged keys")
    names = [S.concrete(x) if isinstance(x, bytes) else x for x in u]
    ik = S.L(g.ikey)
    want = []
    for X, nm in ((S.L(A), na), (S.L(B), nb)):
        for x in X:
            x = int(S.concrete(x)) - base
            want.append(0 if x < 0 else names.index(nm[x]) + 1)
    S.eq_list(ik, want, "bins of the joined rows")


@scenario(quick=[dict(n=3, nr=2, nc=2, flt=f) for f in (False, True)], thorough=[dict(n=4, nr=2, nc=3, flt=f) for f in (False, True)], budget=90)
def two_way(S, n, nr, nc, flt):
    """combining two groupings numbers each pair of bins distinctly and counts its rows."""
    rt = S.rt
    from riptable.rt_grouping import combine2groups
    a, b = S.ints("a", n, np.int8, 0, nr), S.ints("b", n, np.int8, 0, nc)
    ca, cb = rt.Categorical(a, ["a", "b"][:nr]), rt.Categorical(b, ["p", "q", "r"][:nc])
    m = S.bools("m", n) if flt else None
    ok = [bool(x) for x in S.L(m)] if flt else [True] * n
    g = combine2groups(ca.grouping, cb.grouping, filter=m)
    ik = [int(S.concrete(x)) for x in S.L(g.ikey)]
    A, B = [int(S.concrete(x)) for x in S.L(a)], [int(S.concrete(x)) for x in S.L(b)]
    cnt = [0] * ((nr + 1) * (nc + 1))
    for i in range(n):
        e = (A[i] + B[i] * (nr + 1)) if ok[i] else 0
        S.check(ik[i] == e, f"combined bin of row {i}")
        cnt[e] += 1
    S.eq_list(S.L(g.ncountgroup)[:len(cnt)], cnt, "rows per combined bin")


@scenario(quick=[dict(n=4)], thorough=[dict(n=5)], budget=60)
def extract(S, n):
    """selecting whole groups of packed data."""
    rt = S.rt
    from riptable.rt_grouping import Grouping
    k = S.ints("k", n, np.int32, 0, 2)
    g = rt.Grouping(k)
    gs = groups(S, [S.L(k)], n, ordered=False)
    data = rt.FastArray(np.arange(n))[g.igroup]
    if len(gs) < 2:
        return
    idx = [S.choose("i", 1, len(gs)), S.choose("j", 1, len(gs))]
    r = Grouping.take_groups(data, np.array(idx), g.ncountgroup, g.ifirstgroup)
    S.eq_list(S.L(r), gs[idx[0] - 1] + gs[idx[1] - 1], "rows of the taken groups")
    cond = np.array([False] + [b + 1 in idx for b in range(len(gs))])
    r = Grouping.extract_groups(cond, data, g.ncountgroup, g.ifirstgroup)
    S.eq_list(S.L(r), sum([gs[b] for b in range(len(gs)) if cond[b + 1]], []), "rows of the extracted groups")


@scenario(quick=[dict(u=u, how=h) for u in (126, 127, 128) for h in ("hash", "ordcat")] + [dict(u=u, how="cat") for u in (128, 257)], budget=120)
def many_groups(S, u, how):
    """group counts around the limits of the compact bin types."""
    rt = S.rt
    k = S.ints_at("k", list(range(u)), [0, u - 1], np.int32, u - 2, u)
    K = [int(S.concrete(x)) for x in S.L(k)]
    g = rt.Grouping(rt.FastArray(np.array(K, dtype=np.int32)) if False else k, categorical=how != "hash", ordered=how == "ordcat")
    order = sorted(set(K)) if how == "ordcat" else list(dict.fromkeys(K))
    pos = {x: i + 1 for i, x in enumerate(order)}
    S.eq_list(S.L(g.ikey), [pos[x] for x in K], "bins")
    S.eq_list(S.L(g.uniquelist[0]), order, "unique keys")
    fr = {}
    for i, x in enumerate(K):
        fr.setdefault(x, i)
    S.eq_list(S.L(g.ifirstkey), [fr[x] for x in order], "first rows")
    S.eq_list(S.L(g.ncountgroup), [0] + [K.count(x) for x in order], "counts")


OPS = ["apply_reduce", "apply_nonreduce", "apply", "median", "rolling_sum", "cumsum", "get_groupings", "sum", "count", "numba"]


@scenario(quick=[dict(kind=k, op=o) for k in ("gb", "cat", "cat0", "map") for o in OPS if (k, o) not in (("gb", "apply"), ("gb", "numba"))], thorough=[dict(kind=k, op=o, n=4) for k in ("gb", "cat", "map") for o in OPS[:5] if (k, o) != ("gb", "apply")], budget=60)
def after_operation(S, kind, op, n=3):
    """the row lists of a grouping are the same before and after any aggregation, filtered or not."""
    rt = S.rt
    k, m = S.ints("k", n, np.int32, 1, 2), S.bools("m", n)
    K, M = S.L(k), S.L(m)
    x = rt.FastArray(np.arange(n) + 1.5)
    if kind == "gb":
        c = rt.Dataset({"k": k, "x": x}).groupby("k")
    elif kind == "map":
        c = rt.Categorical(k, {1: "a", 2: "b"})
    elif kind == "cat0":
        c = rt.Categorical(k - 1, ["a", "b"], base_index=0)
    else:
        c = rt.Categorical(k, ["a", "b"])
    g = c.grouping
    uc = int(g.unique_count)
    ik = S.L(g.ikey)
    S.check(S.And(*[S.eq(S.eq(ik[i], ik[j]), S.eq(K[i], K[j])) for i in range(n) for j in range(i)]), "partition")
    touched = S.choose("touched", 0, 1)
    if touched:
        derived(S, g, n, ik, uc, "before")
    args = () if kind == "gb" else (x,)
    try:
        if op == "apply_reduce":
            c.apply_reduce(lambda v: v[0], *args, filter=m)
        elif op == "apply_nonreduce":
            c.apply_nonreduce(lambda v: v + 1, *args, filter=m)
        elif op == "apply":
            c.apply(lambda d: d, dataset=rt.Dataset({"x": x}), filter=m)
        elif op == "numba":
            c.numba_apply(lambda v: v[:1].sum(), x, filter=m)
        elif op == "get_groupings":
            c.get_groupings(filter=m)
        elif op == "count":
            c.count(filter=m)
        else:
            getattr(c, op)(*args, filter=m)
    except Exception as e:
        # not this property's concern as long as the grouping is intact
        if type(e).__module__.startswith("sx"):
            raise
    derived(S, g, n, ik, uc, "afterwards")
    first = {}
    for i in range(n):
        first.setdefault(int(S.concrete(ik[i])), i)
    if len(first) == uc:
        S.eq_list(S.L(c.first_fancy), [first[b] for b in range(1, uc + 1)], "first rows afterwards")
    cnt = S.L(c.count().Count)
    S.check(S.eq(sum(int(S.concrete(v)) for v in cnt), n), "counts afterwards")
    S.eq_list(S.L(m), M, "filter unchanged")
