"""Reshaping: rows to columns, columns to rows, pivots and matrices keep every cell in its row and column."""
import warnings
import numpy as np
from sx.registry import scenario
from props.common import *

BOUNDS = "tables of 1-3 rows and 2-4 columns with symbolic cells incl. invalids, symbolic row and column labels (2-3 names), ragged rows of up to 3 entries; selected instances also with every input a stepped or reversed view"


def table(S, n):
    d = {"a": col(S, "a", n, "i4", inv=True, lo=-3, hi=3), "s": S.strs("s", n, 2, b"xy"), "f": col(S, "f", n, "f8", inv=True, lo=-3, hi=3)}
    return d, {k: S.L(v) for k, v in d.items()}


def cell(S, x):
    """the value of a cell given as a scalar or as a one-element column"""
    if isinstance(x, np.ndarray):
        x = S.L(x.reshape(1) if x.ndim == 0 else x)
        S.check(len(x) == 1, "one cell per row and column")
        return x[0]
    return x


@scenario(quick=[dict(n=1), dict(n=2), dict(n=0)], thorough=[dict(n=3)], budget=40)
def as_rows(S, n):
    """every row form of a table lists each row's cells, and building a table from those rows gives it back."""
    rt = S.rt
    d, V = table(S, n)
    ds = rt.Dataset(d)
    row = lambda i: [V[c][i] for c in V]
    for kind in ("tuple", "list", "dict", "namedtuple", "Struct"):
        rows = list(ds.asrows(kind))
        S.check(len(rows) == n, "one per row")
        for i, r in enumerate(rows):
            cells = list(r) if kind in ("tuple", "list", "namedtuple") else [r[c] for c in V]
            S.eq_list([cell(S, x) for x in cells], row(i), f"asrows({kind})")
    for i, (k, r) in enumerate(ds.iterrows()):
        S.check(k == i, "iterrows numbers rows")
        S.eq_list([cell(S, r[c]) for c in V], row(i), "iterrows")
    for i, r in enumerate(ds.tolist()):
        S.eq_list(r, row(i), "tolist")
    for i, r in enumerate(ds.asrows("Dataset")):
        S.eq_list([cell(S, r[c]) for c in V], row(i), "asrows(Dataset)")
    st = ds.as_struct()
    for c in V:
        S.eq_list(S.L(st[c]) if n != 1 else [st[c]], V[c], "as_struct")


@scenario(quick=[dict(n=2), dict(n=1)], thorough=[dict(n=3)], budget=40)
def from_rows(S, n):
    rt = S.rt
    a, f = col(S, "a", n, "i8", lo=-3, hi=3), col(S, "f", n, "f8", lo=-3, hi=3)
    A, F = S.L(a), S.L(f)
    r = rt.Dataset.from_rows([[A[i], F[i]] for i in range(n)], ["p", "q"])
    S.check(list(r.keys()) == ["p", "q"], "names")
    S.eq_list(S.L(r["p"]), A, "first entries")
    S.eq_list(S.L(r["q"]), F, "second entries")
    r = rt.Dataset.from_tagged_rows([{"q": F[i], "p": A[i]} if i % 2 else {"p": A[i], "q": F[i]} for i in range(n)])
    S.eq_list(S.L(r["p"]), A, "tagged p")
    S.eq_list(S.L(r["q"]), F, "tagged q")
    r = rt.Dataset.from_tagged_rows([rt.Struct({"p": A[i], "q": F[i]}) for i in range(n)])
    S.eq_list(S.L(r["q"]), F, "tagged structs")
    for bad in (lambda: rt.Dataset.from_rows([[1, 2], [3]], ["p", "q"]), lambda: rt.Dataset.from_tagged_rows([{"p": 1}, {"q": 2}]), lambda: rt.Dataset.from_tagged_rows([{"p": 1, "q": 3}, {"q": 2}])):
        try:
            bad()
            S.check(False, "ragged rows are rejected")
        except (ValueError, NotImplementedError):
            pass


FILLS = [None, "zz", b"zz", "longer fill", 5]


@scenario(quick=[dict(lens=l, kinds=k) for l in ([2, 1], [1, 2], [1, 3]) for k in ("SS", "UU", "US", "SU")], thorough=[dict(lens=[0, 2, 1], kinds="SSU")], budget=40)
def jagged(S, lens, kinds):
    """ragged rows of text: each entry in its row and column, the rest filled; the caller's list is left alone."""
    rt = S.rt
    rows, V = [], []
    for i, (n, k) in enumerate(zip(lens, kinds)):
        v = S.strs(f"r{i}", n, 1 + i, b"xy", kind=k)
        rows.append(v)
        V.append([list(x.c) if hasattr(x, "c") else ([ord(c) for c in x] if isinstance(x, str) else list(bytes(x))) for x in S.L(v)])
    fill = S.pick("fill", FILLS)
    keep = list(rows)
    ds = rt.Dataset.from_jagged_rows(rows, fill_value=fill)
    S.check(len(rows) == len(keep) and all(p is q for p, q in zip(rows, keep)), "the caller's rows are unchanged")
    ft = b"" if fill is None else fill if isinstance(fill, bytes) else str(fill).encode()
    S.check(list(ds.keys()) == [f"C{j}" for j in range(max(lens))], "columns")
    for j in range(max(lens)):
        got = S.L(ds[f"C{j}"])
        S.check(len(got) == len(lens), "rows")
        for i, g in enumerate(got):
            g = list(g.c) if hasattr(g, "c") else ([ord(c) for c in g] if isinstance(g, str) else list(bytes(g)))
            w = V[i][j] if j < lens[i] else list(ft)
            for t in range(max(len(g), len(w))):
                S.check(S.eq(asint(S, g[t]) if t < len(g) else 0, asint(S, w[t]) if t < len(w) else 0), "cell")


@scenario(quick=[dict(la=[2, 1], lb=[1, 2]), dict(la=[1, 2], lb=[2, 2]), dict(la=[1, 1], lb=[2, 3]), dict(la=[1, 1], lb=[0, 2]), dict(la=[2, 0], lb=[1, 3]), dict(la=[0, 2, 1], lb=[1, 1, 2])], budget=40)
def jagged_product(S, la, lb):
    """stacked ragged dictionary: per row, every combination of its entries once."""
    rt = S.rt
    A = [S.L(S.ints(f"a{i}", n, np.int64, 0, 5)) for i, n in enumerate(la)]
    B = [S.L(S.ints(f"b{i}", n, np.int64, 0, 5)) for i, n in enumerate(lb)]
    k = S.pick("single", [False, True])
    ds = rt.Dataset.from_jagged_dict({"A": [x[0] if k and len(x) == 1 else x for x in A], "B": B}, stacked=True)
    want = [(x, y) for p, q in zip(A, B) for y in q for x in p]
    S.eq_list(S.L(ds["A"]), [x for x, _ in want], "first column")
    S.eq_list(S.L(ds["B"]), [y for _, y in want], "second column")


@scenario(quick=[dict(n=2), dict(n=1)], thorough=[dict(n=3)], budget=40)
def melt(S, n):
    """melt: one row per (row, value column) with the identifiers repeated."""
    rt = S.rt
    d = {"k": S.strs("k", n, 1, b"xy"), "p": col(S, "p", n, "i4", inv=True, lo=-3, hi=3), "q": col(S, "q", n, "i4", inv=True, lo=-3, hi=3), "c": rt.Categorical(S.strs("c", n, 1, b"uv", minlen=1))}
    V = {k: S.L(v) for k, v in d.items() if k != "c"}
    C = S.L(d["c"].expand_array)
    ds = rt.Dataset(d)
    for vv in (["p", "q"], ["q", "p"], ["q"]):
        r = ds.melt(id_vars=["k", "c"], value_vars=vv)
        S.check(list(r.keys()) == ["k", "c", "variable", "value"], "columns")
        S.eq_list(S.L(r["value"]), [x for v in vv for x in V[v]], "values")
        S.eq_list(S.L(r["variable"]), [v.encode() for v in vv for _ in range(n)], "variable names")
        S.eq_list(S.L(r["k"]), V["k"] * len(vv), "identifier")
        S.eq_list(S.L(r["c"]), C * len(vv), "categorical identifier")
    r = rt.Dataset({"k": d["k"], "p": d["p"], "q": d["q"]}).melt(id_vars="k", trim=True, var_name="n", value_name="v")
    keep = [(v, i) for v in ("p", "q") for i in range(n) if not bool(S.Or(V[v][i] == 0, V[v][i] == inv_val("i4")))]
    S.eq_list(S.L(r["v"]), [V[v][i] for v, i in keep], "trimmed values")
    S.eq_list(S.L(r["k"]), [V["k"][i] for v, i in keep], "trimmed identifiers")
    S.eq_list(S.L(r["n"]), [v.encode() for v, i in keep], "trimmed names")


@scenario(quick=[dict(n=2, filt=False), dict(n=3, filt=False), dict(n=2, filt=True), dict(n=3, filt=True)], thorough=[dict(n=4, filt=False)], budget=60)
def pivot(S, n, filt):
    """pivot: the cell of row label r and column label c is the value of the row with (r, c); duplicates are rejected, the rest invalid."""
    rt = S.rt
    k, c = S.ints("k", n, np.int32, 0, 1), S.ints("c", n, np.int32, 0, 2)
    v, w = col(S, "v", n, "i4", lo=-3, hi=3), col(S, "w", n, "f8", lo=-3, hi=3)
    K, C, V, W = map(S.L, (k, c, v, w))
    kk = [int(S.concrete(x)) for x in K]
    cc = [int(S.concrete(x)) for x in C]
    m = S.bools("m", n) if filt else None
    M = [bool(x) for x in S.L(m)] if filt else [True] * n
    ds = rt.Dataset({"k": k, "c": rt.Categorical(c, ["red", "green", "blue"], base_index=0), "v": v, "w": w})
    names = ["red", "green", "blue"]
    dup = len({(a, b) for a, b, q in zip(kk, cc, M) if q}) < sum(M)
    kw = dict(filter=m) if filt else {}
    try:
        r = ds.pivot("k", "c", "v", **kw)
    except ValueError as ex:
        S.check(dup and "Duplicates" in str(ex), "only duplicates are rejected")
        return
    S.check(not dup, "duplicates are rejected")
    lab = [int(S.concrete(x)) for x in S.L(r["k"])]
    S.check(lab == sorted(set(kk)), "row labels")
    S.check([x for x in r.keys() if x != "k"] == names, "column labels")
    for j, nm in enumerate(names):
        g = S.L(r[nm])
        for i, kv in enumerate(lab):
            src = [t for t in range(n) if M[t] and kk[t] == kv and cc[t] == j]
            S.check(S.eq(g[i], V[src[0]] if src else inv_val("i4")), "cell")
    r2 = ds.pivot("k", "c", **kw)
    for j, nm in enumerate(names):
        g = S.L(r2["w"][nm])
        for i, kv in enumerate(lab):
            src = [t for t in range(n) if M[t] and kk[t] == kv and cc[t] == j]
            S.check(S.eq(g[i], W[src[0]] if src else NAN), "cell of the second value column")


@scenario(quick=[dict(n=2), dict(n=3)], budget=40)
def matrix(S, n):
    """matrix and transposed forms."""
    rt = S.rt
    d = {"p": col(S, "p", n, "f8", inv=True, lo=-3, hi=3), "s": S.strs("s", n, 1, b"xy", minlen=1), "q": col(S, "q", n, "f8", inv=True, lo=-3, hi=3)}
    P, Q = S.L(d["p"]), S.L(d["q"])
    ds = rt.Dataset(d)
    t = ds.transpose()
    S.check([x.decode() if isinstance(x, bytes) else str(x) for x in S.L(t["Col"])] == ["p", "q"], "transposed labels")
    for i in range(n):
        S.eq_list(S.L(t[f"C{i}"]), [P[i], Q[i]], "transposed column")
    m = ds.imatrix_make(inplace=False)
    S.check(m.shape == (n, 2), "matrix shape")
    S.eq_list(S.L(m[:, 0]), P, "first matrix column")
    S.eq_list(S.L(m[:, 1]), Q, "second matrix column")
    for c, V in (("p", P), ("q", Q)):
        S.eq_list(S.L(ds[c]), V, "source unchanged")
    e = rt.Dataset({"z": d["p"]})
    e.add_matrix(m, ["u", "v"])
    S.eq_list(S.L(e["u"]), P, "add_matrix first")
    S.eq_list(S.L(e["v"]), Q, "add_matrix second")
    mm = ds.imatrix_make()
    S.eq_list(S.L(mm[:, 1]), Q, "in-place matrix")
    S.eq_list(S.L(ds["q"]), Q, "columns keep their values")
    S.eq_list(S.L(ds["p"]), P, "columns keep their values")
    S.check(list(ds.keys()) == ["p", "s", "q"], "columns keep their order")


@scenario(quick=[dict(n=3)], thorough=[dict(n=4)], budget=40)
def one_hot(S, n):
    rt = S.rt
    c = S.ints("c", n, np.int32, 0, 2)
    C = S.L(c)
    ds = rt.Dataset({"c": rt.Categorical(c, ["red", "blue"]), "v": S.ints("v", n, np.int32, 0, 3)})
    V = S.L(ds["v"])
    ds.one_hot_encode()
    S.check(list(ds.keys()) == ["v", "c__red", "c__blue"], "columns")
    S.eq_list([x != 0 for x in S.L(ds["c__red"])], [x == 1 for x in C], "red rows")
    S.eq_list([x != 0 for x in S.L(ds["c__blue"])], [x == 2 for x in C], "blue rows")
    S.eq_list(S.L(ds["v"]), V, "other column")


@scenario(quick=[dict(k=k) for k in (1, 2)], budget=40)
def transpose_labels(S, k, n=2):
    """the columns of a transposed table are named after the label columns, in label order."""
    rt = S.rt
    x, y = S.pick("x", [("p", "q"), ("q", "p")]), S.pick("y", [("u", "v"), ("v", "w")])
    d = {"a": col(S, "a", n, "f8", inv=True, lo=-3, hi=3), "k1": rt.FastArray(list(x)), "b": col(S, "b", n, "f8", inv=True, lo=-3, hi=3), "k2": rt.FastArray(list(y))}
    V = {c: S.L(d[c]) for c in ("a", "b")}
    ds = rt.Dataset(d)
    lab = ["k1"] if k == 1 else list(S.pick("lab", [("k1", "k2"), ("k2", "k1")]))
    ds.label_set_names(lab)
    src = {"k1": x, "k2": y}
    t = ds.transpose()
    names = ["_".join(src[c][i] for c in lab) for i in range(n)]
    S.check(list(t.keys()) == ["Col"] + names, f"names {list(t.keys())}")
    for i, nm in enumerate(names):
        S.eq_list(S.L(t[nm]), [V["a"][i], V["b"][i]], "transposed row")
