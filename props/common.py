"""Oracle helpers shared by the property modules (plain Python; forks on symbolic conditions)."""
import math
import numpy as np

NAN = float("nan")


def col(S, name, n, kind, inv=False, lo=0, hi=2):
    if kind in ("f8", "f4"):
        return S.floats(name, n, lo, hi, q=0, nan=inv, dtype=np.dtype(kind))
    if kind[0] in "SU":
        return S.strs(name, n, int(kind[1:]), b"xy", kind=kind[0])
    if kind == "b1":
        return S.bools(name, n)
    return S.ints(name, n, np.dtype(kind), lo, hi, inv=inv)


def inv_val(dt):
    dt = np.dtype(dt)
    if dt.kind == "f":
        return NAN
    if dt.kind == "S":
        return b""
    if dt.kind == "U":
        return ""
    if dt.kind == "b":
        return False
    return -(2 ** (8 * dt.itemsize - 1)) if dt.kind == "i" else 2 ** (8 * dt.itemsize) - 1


def is_inv(S, x, dt):
    dt = np.dtype(dt)
    if dt.kind == "f":
        return S.isnan(x)
    if dt.kind in "SU":
        return S.eq(x, b"" if dt.kind == "S" else "")
    if dt.kind == "b":
        return False
    return x == inv_val(dt)


def before(S, a, b):
    """a sorts strictly before b (NaN last)."""
    if bool(S.eq(a, b)):
        return False
    na, nb = bool(S.isnan(a)), bool(S.isnan(b))
    if na or nb:
        return nb and not na
    return bool(a < b)


def groups(S, keys, n, ordered=True, rows=None):
    """[(row indices)] of equal key tuples; keys: list of value lists; ordered: by key, else by first appearance."""
    out = []
    for i in (range(n) if rows is None else rows):
        for g in out:
            if all(bool(S.eq(k[i], k[g[0]])) for k in keys):
                g.append(i)
                break
        else:
            out.append([i])
    if not ordered:
        return out

    def lt(g, h):
        for k in keys:
            if bool(S.eq(k[g[0]], k[h[0]])):
                continue
            return before(S, k[g[0]], k[h[0]])
        return False
    res = []
    for g in out:
        p = len(res)
        while p > 0 and lt(g, res[p - 1]):
            p -= 1
        res.insert(p, g)
    return res


def asint(S, x):
    """value as an unbounded/int64 integer (avoid narrow wrap in oracles)."""
    if S.symbolic:
        from sx.engine import Sym, s_cast
        return s_cast(x, np.dtype(np.int64)) if isinstance(x, Sym) else int(x)
    return int(x)


def isum(S, xs):
    r = 0
    for x in xs:
        r = asint(S, x) + r
    return r


def fsum(S, xs):
    r = 0.0
    for x in xs:
        r = x + r
    return r


def fmin(S, xs, big=False):
    """min (or max) of non-empty xs by forking."""
    best = xs[0]
    for x in xs[1:]:
        if bool(x > best if big else x < best):
            best = x
    return best


def stacked_many(S, u, w, order, via="hstack"):
    """stacking categoricals whose combined categories outgrow the compact code type of each."""
    rt = S.rt
    c1 = S.ints_at("c1", [0] + list(range(1, u + 1)), [u // 2], np.int8 if u < 128 else np.int16, 0, 2)
    c2 = S.ints_at("c2", [0, w, 1], [2], np.int8, 0, 2)
    n1 = [f"a{i:04d}" for i in range(u)]
    n2 = [f"b{i:04d}" for i in range(w - 1)] + [n1[1]]
    if order == "unsorted":
        n1, n2 = n1[::-1], n2[::-1]
    A = rt.Categorical(c1.copy(), rt.FastArray(n1), ordered=order == "sorted" or None)
    B = rt.Categorical(c2.copy(), rt.FastArray(n2), ordered=order == "sorted" or None)
    val = lambda c, names: [b"Filtered" if x == 0 else names[x - 1].encode() for x in (int(S.concrete(y)) for y in S.L(c))]
    V = val(c1, n1) + val(c2, n2)
    if via == "hstack":
        h = rt.hstack([A, B])
    elif via == "dataset":
        h = rt.hstack([rt.Dataset({"c": A}), rt.Dataset({"c": B})])["c"]
    else:
        x, y = rt.Categorical.align([A, B])
        S.eq_list(S.L(x.expand_array) + S.L(y.expand_array), V, "aligned values")
        S.eq_list(S.L(x.category_array), S.L(y.category_array), "aligned categories agree")
        return
    S.eq_list(S.L(h.expand_array), V, "stacked values")
    S.check(len(h.category_array) == u + w - 1, "stacked categories")


def arr(S, name, n, dt, inv=True, lo=-3, hi=3):
    dt = np.dtype(dt)
    if dt.kind == "f":
        return S.floats(name, n, lo, hi, q=1, nan=inv, dtype=dt)
    return S.ints(name, n, dt, 0 if dt.kind == "u" else lo, hi, inv=inv)


DTS = ["i1", "u1", "i4", "i8", "u4", "f4", "f8"]


def fill_oracle(S, X, dt, rows, fv, limit, back):
    """expected list after filling rows (in order) of X."""
    out = list(X)
    last, run = fv, 0
    for i in (rows[::-1] if back else rows):
        if bool(is_inv(S, X[i], dt)):
            run += 1
            if not limit or run <= limit:
                out[i] = last
        else:
            last, run = X[i], 0
    return out


def group_fill(S, n, dt, limit, fv, back, via):
    rt = S.rt
    c = S.ints("c", n, np.int8, 0 if via == "cat" else 1, 2)
    a = arr(S, "a", n, dt)
    C, X = S.L(c), S.L(a)
    want = list(X)
    for g in (1, 2):
        rows = [i for i in range(n) if bool(C[i] == g)]
        w = fill_oracle(S, X, dt, rows, inv_val(dt) if fv is None else fv, limit, back)
        for i in rows:
            want[i] = w[i]
    name = "fill_backward" if back else "fill_forward"
    if via == "gb":
        r = getattr(rt.Dataset({"c": c, "a": a}).gb("c"), name)(limit=limit, fill_val=fv)
    else:
        cat = rt.Categorical(c, ["a", "b"], base_index=1)
        r = getattr(cat, name)(a, limit=limit, fill_val=fv, inplace=via == "inplace")
    if via == "inplace":
        S.eq_list(S.L(a), want, "filled in place per group")
    else:
        S.eq_list(S.L(a), X, "source unchanged")
        x = r[[k for k in r.keys() if "key" not in k and k != "c"][0]]
        S.eq_list(S.L(x), want, "filled per group")
        S.check(x.dtype == np.dtype(dt), "dtype kept")
