"""Column operations on structs and datasets: an ordered map of names to columns through any history."""
import warnings
import numpy as np
from sx.registry import scenario
from props.common import *

BOUNDS = "histories of up to 3 column operations (set, replace, delete, rename, map, move, swap, pop, select, prefix/suffix, text replace) over up to 4 names, columns of 2 symbolic rows; labels, footers and sort settings of tables of up to 4 columns; selected instances also with every input a stepped or reversed view"

NAMES = ["bba", "ab", "ba", "bb"]
OPS = ["set", "del", "rename", "front", "back", "swap", "map", "prefix", "suffix", "replace", "pop", "remove", "setlist", "front2", "attr", "merge"]


class Missing(Exception):
    pass


def apply_oracle(M, op, x, y, val):
    """M: list of (name, values); returns the new list, or raises Missing when the operation must be rejected."""
    names = [n for n, _ in M]
    d = dict(M)
    if op in ("set", "attr"):
        return [(n, val if n == x else v) for n, v in M] if x in d else M + [(x, val)]
    if op in ("del", "pop"):
        if x not in d:
            raise Missing
        return [(n, v) for n, v in M if n != x]
    if op == "remove":  # missing names are only warned about
        return [(n, v) for n, v in M if n not in (x, y)]
    if op == "rename":
        if x == y:
            return M
        if x not in d or y in d:
            raise Missing
        return [(y if n == x else n, v) for n, v in M]
    if op == "front":
        return [(n, v) for n, v in M if n == x] + [(n, v) for n, v in M if n != x]
    if op == "back":
        return [(n, v) for n, v in M if n != x] + [(n, v) for n, v in M if n == x]
    if op == "front2":
        if x != y and len(M) < 2:
            return None
        if x == y:
            return apply_oracle(M, "front", x, y, val)
        return [(n, d[n]) for n in (x, y) if n in d] + [(n, v) for n, v in M if n not in (x, y)]
    if op == "swap":
        if x == y:
            return M
        if x not in d or y not in d:
            raise Missing
        return [(n, d[y] if n == x else d[x] if n == y else v) for n, v in M]
    if op == "map":  # x -> y, y -> x+y
        ren = {x: y, y: x + y}
        if x == y or x not in d or y not in d:
            return None  # not exercised
        return [(ren.get(n, n), v) for n, v in M]
    if op == "prefix":
        return [("P" + n, v) for n, v in M]
    if op == "suffix":
        return [(n + "S", v) for n, v in M]
    if op == "replace":  # 'a' -> 'c'
        new = [n.replace("a", "c") for n in names]
        return replaced(M, new)
    if op == "merge":  # 'a' -> ''
        new = [n.replace("a", "") for n in names]
        if "" in new:
            return None
        return replaced(M, new)
    if op == "setlist":
        if x == y or x not in d or y not in d:
            return None
        return [(n, d[y] if n == x else d[x] if n == y else v) for n, v in M]
    raise KeyError(op)


def replaced(M, new):
    d, names = dict(M), [n for n, _ in M]
    if True:
        if len(set(new)) < len(new) or any(r != n and r in d for n, r in zip(names, new)):
            raise Missing
        return [(r, v) for r, (n, v) in zip(new, M)]


def do(S, s, op, x, y, val):
    """the operation on the real container; returns popped column or None."""
    if op == "set":
        s[x] = val
    elif op == "attr":
        setattr(s, x, val)
    elif op == "del":
        del s[x]
    elif op == "rename":
        s.col_rename(x, y)
    elif op == "front":
        s.col_move_to_front([x])
    elif op == "front2":
        s.col_move_to_front([x, y] if x != y else [x])
    elif op == "back":
        s.col_move_to_back(x)
    elif op == "swap":
        s.col_swap([x, y], [y, x])
    elif op == "map":
        s.col_map({x: y, y: x + y})
    elif op == "prefix":
        s.col_add_prefix("P")
    elif op == "suffix":
        s.col_add_suffix("S")
    elif op == "replace":
        s.col_str_replace("a", "c")
    elif op == "merge":
        s.col_str_replace("a", "")
    elif op == "pop":
        return s.col_pop(x)
    elif op == "remove":
        s.col_remove([x, y] if x != y else [x])
    elif op == "setlist":
        if type(s) is S.rt.Struct:
            s[[x, y]] = [s[y], s[x]]
        else:
            s[[x, y]] = s[[y, x]]


def agree(S, s, M, what):
    S.check(list(s.keys()) == [n for n, _ in M], f"{what}: names and order")
    S.check(s.get_ncols() == len(M) and len(list(s)) == len(M), f"{what}: column count")
    for i, (n, v) in enumerate(M):
        S.check(n in s, f"{what}: membership")
        S.eq_list(S.L(s[n]), S.L(v), f"{what}: column {n}")
        S.eq_list(S.L(getattr(s, n)), S.L(v), f"{what}: attribute {n}")
        S.eq_list(S.L(s[i]), S.L(v), f"{what}: column number {i}")
    for n in NAMES:
        if n not in dict(M):
            S.check(n not in s and not hasattr(s, n), f"{what}: removed names are gone")


@scenario(quick=[dict(cls=c, k=1, op0=o) for c in ("Struct", "Dataset") for o in OPS] + [dict(cls="Dataset", k=2, op0=o) for o in OPS] + [dict(cls="Dataset", k=1, op0=o, view=1) for o in OPS],
          thorough=[dict(cls=c, k=2, op0=o) for c in ("Struct",) for o in OPS] + [dict(cls="Dataset", k=3, op0=o) for o in ("set", "del", "rename", "map", "pop")], budget=60)
def history(S, cls, k, op0, view=0):
    rt = S.rt
    warnings.simplefilter("ignore")
    n0 = S.choose("n0", 2, 3)
    cols = [S.ints(f"v{i}", 2, np.int32, 0, 9) for i in range(n0)]
    s = getattr(rt, cls)({NAMES[i]: c for i, c in enumerate(cols)})
    M = [(NAMES[i], c.copy()) for i, c in enumerate(cols)]
    if view:
        s.sort_view(NAMES[0])
    for step in range(k):
        op = op0 if step == 0 else OPS[S.choose(f"op{step}", 0, len(OPS) - 1)]
        two = op in ("rename", "swap", "map", "remove", "setlist", "front2")
        x = NAMES[S.choose(f"x{step}", 0, 3)] if op not in ("prefix", "suffix", "replace", "merge") else NAMES[0]
        y = NAMES[S.choose(f"y{step}", 0, 3)] if two else NAMES[0]
        val = S.ints(f"w{step}", 2, np.int32, 0, 9)
        try:
            want = apply_oracle(M, op, x, y, val.copy())
            bad = False
        except Missing:
            want, bad = M, True
        S.assume(want is not None and len(want) > 0)
        before = dict(M)
        raised, r = S.raises((IndexError, ValueError, KeyError, AttributeError), lambda: do(S, s, op, x, y, val))
        S.check(raised == bad, f"{op} is rejected exactly when a name is missing or taken")
        if op == "pop" and not bad:
            S.eq_list(S.L(r), S.L(before[x]), "popped column")
        M = want
        agree(S, s, M, op)


@scenario(quick=[dict(cls=c, how=h) for c in ("Struct", "Dataset") for h in ("list", "mask", "index", "slice", "filter", "regex", "copy", "shallow")] + [dict(cls="Dataset", how=h, view=1) for h in ("list", "mask", "copy")], budget=40)
def select(S, cls, how, view=0):
    """column selection and copies give the chosen columns and leave the source alone."""
    rt = S.rt
    cols = [S.ints(f"v{i}", 2, np.int32, 0, 9) for i in range(4)]
    s = getattr(rt, cls)({NAMES[i]: c for i, c in enumerate(cols)})
    M = [(NAMES[i], c.copy()) for i, c in enumerate(cols)]
    if view:
        s.sort_view(NAMES[:2], ascending=S.pick("asc", [True, False, [True, False]]))
    if how in ("list", "index", "filter"):
        i, j = S.choose("i", 0, 3), S.choose("j", 0, 3)
        S.assume(i != j)
        pick = [i, j]
        if how == "list":
            r = s[[NAMES[i], NAMES[j]]]
        elif how == "index":
            r = s[[i, j]]
        else:
            r = s.col_filter([i, NAMES[j]])
    elif how == "mask":
        m = S.bools("m", 4)
        pick = [i for i in range(4) if bool(S.L(m)[i])]
        S.assume(len(pick) > 0)
        r = s[m]
    elif how == "slice":
        i, j = S.choose("i", -5, 5), S.choose("j", -5, 5)
        pick = list(range(4))[i:j]
        S.assume(len(pick) > 0)
        r = s[i:j]
    elif how == "regex":
        rx = S.pick("rx", ["^a", "b$", "a", "bb|ab"])
        import re
        pick = [i for i in range(4) if re.search(rx, NAMES[i])]
        r = s.col_filter(regex=rx)
    else:
        pick = list(range(4))
        r = s.copy(deep=how == "copy")
    S.check(type(r) is type(s), "same container type")
    agree(S, r, [M[i] for i in pick], "selection")
    # later column changes in the result do not reach the source
    r.zz = S.ints("z", 2, np.int32, 0, 9)
    r.col_rename(NAMES[pick[0]], "q0")
    agree(S, s, M, "source after the copy changed")
    if how == "copy":
        r["q0"][0] = 77
        agree(S, s, M, "source after a copied column changed")


@scenario(quick=[dict(how=h) for h in ("scalar", "short", "one", "empty", "dict")], budget=30)
def shape(S, how):
    """all columns of a dataset keep one length."""
    rt = S.rt
    n = S.choose("n", 1, 3)
    a = S.ints("a", n, np.int32, 0, 9)
    d = rt.Dataset({"aa": a})
    if how == "scalar":
        d.ab = 5
        S.eq_list(S.L(d.ab), [5] * n, "a scalar fills the column")
    elif how == "one":
        d.ab = [7]
        S.eq_list(S.L(d.ab), [7] * n, "a single-element list fills the column")
    elif how == "short":
        m = S.choose("m", 0, 4)
        b = S.ints("b", m, np.int32, 0, 9)
        raised, _ = S.raises(ValueError, lambda: setattr(d, "ab", b))
        S.check(raised == (m not in (1, n)), "a column of another length is rejected (one element fills the column)")
        if not raised:
            S.eq_list(S.L(d.ab), S.L(b) * (n if m == 1 else 1), "column")
        else:
            S.check("ab" not in d, "nothing added")
    elif how == "dict":
        m = S.choose("m", 0, 4)
        b = S.ints("b", m, np.int32, 0, 9)
        raised, r = S.raises(ValueError, lambda: rt.Dataset({"aa": a, "ab": b}))
        S.check(raised == (m != n), "columns of different lengths are rejected")
    else:
        del d["aa"]
        b = S.ints("b", 2, np.int32, 0, 9)
        d.ab = b
        S.check(d.shape == (2, 1), "an emptied dataset takes the next column's length")
    if how in ("scalar", "one"):
        S.check(d.shape == (n, 2), "shape")
    S.eq_list(S.L(a), S.L(a), "input")


@scenario(quick=[dict(lock=1)], budget=30)
def locked(S, lock):
    """a locked struct rejects every change."""
    rt = S.rt
    warnings.simplefilter("ignore")
    cols = [S.ints(f"v{i}", 2, np.int32, 0, 9) for i in range(3)]
    s = rt.Struct({NAMES[i]: c for i, c in enumerate(cols)})
    M = [(NAMES[i], c.copy()) for i, c in enumerate(cols)]
    s._lock()
    op = OPS[S.choose("op", 0, len(OPS) - 1)]
    S.assume(op not in ("prefix", "suffix", "replace", "merge"))
    x, y = NAMES[S.choose("x", 0, 3)], NAMES[S.choose("y", 0, 3)]
    S.assume(not (op in ("rename", "swap", "setlist", "map") and x == y))
    S.assume(op not in ("swap", "map", "setlist", "pop", "remove", "del", "rename", "front", "back", "front2") or (x != "bb" and y != "bb"))
    raised, _ = S.raises(Exception, lambda: do(S, s, op, x, y, S.ints("w", 2, np.int32, 0, 9)))
    S.check(raised, f"{op} rejected while locked")
    agree(S, s, M, "locked")
    s._unlock()
    s[NAMES[0]] = cols[1]
    S.eq_list(S.L(s[NAMES[0]]), S.L(cols[1]), "changes work after unlocking")


def settings_of(d):
    info = d.get_row_sort_info()[2]
    return d.label_get_names(), d.summary_get_names(), list(info) if info else []


@scenario(quick=[dict(op0=o, k=1) for o in OPS] + [dict(op0=o, k=2) for o in ("rename", "map", "swap", "del", "set", "prefix")],
          thorough=[dict(op0=o, k=2) for o in OPS], budget=40)
def settings(S, op0, k):
    """labels, summary columns and the display order follow the columns they were set for."""
    rt = S.rt
    warnings.simplefilter("ignore")
    cols = [S.ints(f"v{i}", 2, np.int32, 0, 9) for i in range(3)]
    s = rt.Dataset({NAMES[i]: c for i, c in enumerate(cols)})
    M = [(NAMES[i], c.copy()) for i, c in enumerate(cols)]
    lab = list(S.pick("lab", [(0,), (2, 0), (1, 2)]))
    labels, summ, sort = [NAMES[i] for i in lab], [NAMES[i] for i in range(3) if i not in lab][:1], [NAMES[lab[0]], NAMES[1 if lab[0] != 1 else 0]]
    s.label_set_names(labels)
    s.summary_set_names(summ)
    keys, want_keys = list(sort), list(sort)
    s.sort_view(keys)
    for step in range(k):
        op = op0 if step == 0 else S.pick(f"op{step}", ["rename", "del", "set", "suffix", "swap", "replace"])
        two = op in ("rename", "swap", "map", "remove", "setlist", "front2")
        x = NAMES[S.choose(f"x{step}", 0, 3)] if op not in ("prefix", "suffix", "replace", "merge") else NAMES[0]
        y = NAMES[S.choose(f"y{step}", 0, 3)] if two else NAMES[0]
        val = S.ints(f"w{step}", 2, np.int32, 0, 9)
        try:
            want = apply_oracle(M, op, x, y, val.copy())
        except Missing:
            want = None
        S.assume(want is not None and len(want) > 0)
        do(S, s, op, x, y, val)
        old, new = [n for n, _ in M], [n for n, _ in want]
        if op in ("rename", "map", "prefix", "suffix", "replace", "merge"):  # position by position
            ren = dict(zip(old, new))
        else:
            ren = {n: n for n in new if n in old}
        labels, summ = [ren[n] for n in labels if n in ren], [ren[n] for n in summ if n in ren]
        touched = {x, y} if op in ("swap", "setlist") and x != y else {x} if op in ("set", "attr") else {n for n in old if n not in ren}
        sort = [] if touched & set(sort) else [ren[n] for n in sort]
        M = want
        S.check(keys == want_keys, "the caller's list of sort columns is unchanged")
        gl, gs, go = settings_of(s)
        S.check(gl == labels, f"{op}: labels follow their columns, {gl} / {labels}")
        S.check(gs == summ, f"{op}: summary columns follow their columns, {gs} / {summ}")
        S.check(go == sort, f"{op}: the display order follows its columns, {go} / {sort}")
        d = s.label_as_dict() or {}
        S.check(list(d) == labels, f"{op}: label columns")
        for n in labels:
            S.eq_list(S.L(d[n]), S.L(dict(M)[n]), f"{op}: label column {n}")


@scenario(quick=[dict(how=h) for h in ("copy", "shallow", "list", "mask", "rows", "filter", "head", "sort", "ctor")], budget=40)
def settings_copy(S, how):
    """copies and selections carry the labels of the columns they keep and change them on their own."""
    rt = S.rt
    warnings.simplefilter("ignore")
    cols = [S.ints(f"v{i}", 3, np.int32, 0, 9) for i in range(3)]
    s = rt.Dataset({NAMES[i]: c for i, c in enumerate(cols)})
    lab = [NAMES[i] for i in S.pick("lab", [(0,), (2, 0), (1,), (0, 2)])]
    s.label_set_names(lab)
    s.sort_view(NAMES[1])
    keep = NAMES[:3]
    if how == "copy":
        r = s.copy()
    elif how == "shallow":
        r = s.copy(False)
    elif how == "list":
        keep = [NAMES[i] for i in S.pick("keep", [(0, 1), (1, 2), (2, 0, 1)])]
        r = s[keep]
    elif how == "mask":
        keep = [NAMES[0], NAMES[2]]
        r = s[np.array([True, False, True])]
    elif how == "rows":
        r = s[[0, 2], :]
    elif how == "filter":
        r = s.filter(S.bools("m", 3))
    elif how == "head":
        r = s.head(2)
    elif how == "sort":
        r = s.sort_copy(NAMES[0])
    else:
        r = rt.Dataset(s)
    if how != "ctor":
        S.check(r.label_get_names() == [n for n in lab if n in keep], f"labels of the result, {r.label_get_names()}")
    ch = S.pick("ch", ["set", "remove", "rename", "summary", "sort"])
    if ch == "set":
        r.label_set_names([keep[-1]])
        S.check(r.label_get_names() == [keep[-1]], "new label")
    elif ch == "remove":
        r.label_remove()
        S.check(r.label_get_names() == [], "no label")
    elif ch == "rename":
        r.col_rename(keep[0], "q0")
    elif ch == "summary":
        r.summary_set_names([keep[0]])
    else:
        r.sort_view(keep[0])
    gl, gs, go = settings_of(s)
    S.check(gl == lab and gs == [] and go == [NAMES[1]], f"the source keeps its settings, {gl} {gs} {go}")


@scenario(quick=[dict(cls=c, ncols=n) for c in ("Struct", "Dataset") for n in (2, 3)] + [dict(cls="Dataset", ncols=3, view=1)], thorough=[dict(cls="Dataset", ncols=4)], budget=60)
def remap(S, cls, ncols, view=0):
    """renaming several columns at once: chains, cycles and collisions."""
    rt = S.rt
    warnings.simplefilter("ignore")
    cols = [S.ints(f"v{i}", 2, np.int32, 0, 9) for i in range(ncols)]
    s = getattr(rt, cls)({NAMES[i]: c for i, c in enumerate(cols)})
    M = [(NAMES[i], c.copy()) for i, c in enumerate(cols)]
    if view:
        s.sort_view(NAMES[2])
    ren = {}
    order = S.pick("order", [0, 1])
    for i in (range(ncols) if order == 0 else reversed(range(ncols))):
        t = S.choose(f"t{i}", 0, ncols + 1)
        if t < ncols:
            ren[NAMES[i]] = NAMES[t]
        elif t == ncols:
            ren[NAMES[i]] = "new"
    S.assume(len(ren) > 0)
    new = [ren.get(n, n) for n, _ in M]
    raised, _ = S.raises((ValueError, IndexError, KeyError), lambda: s.col_map(dict(ren)))
    S.check(raised == (len(set(new)) < len(new)), f"rejected exactly when two columns would share a name: {ren}")
    agree_set = M if raised else [(r, v) for r, (_, v) in zip(new, M)]
    S.check(sorted(s.keys()) == sorted(n for n, _ in agree_set), f"names after {ren}")
    for n, v in agree_set:
        S.eq_list(S.L(s[n]), S.L(v), f"column {n} after {ren}")


@scenario(quick=[dict(how=h) for h in ("swap3", "move", "move_idx", "remove_mixed", "on_missing", "short")], budget=40)
def many(S, how):
    """operations naming several columns."""
    rt = S.rt
    warnings.simplefilter("ignore")
    cols = [S.ints(f"v{i}", 2, np.int32, 0, 9) for i in range(4)]
    s = rt.Dataset({NAMES[i]: c for i, c in enumerate(cols)})
    M = [(NAMES[i], c.copy()) for i, c in enumerate(cols)]
    d = dict(M)
    if how == "swap3":
        perm = S.pick("perm", [(0, 1, 2), (1, 2, 0), (2, 0, 1), (0, 2, 1), (2, 1, 0)])
        fr = [NAMES[1], NAMES[3], NAMES[0]]
        to = [fr[i] for i in perm]
        s.col_swap(fr, to)
        newv = {t: d[f] for f, t in zip(fr, to)}
        M = [(n, newv.get(n, v)) for n, v in M]
    elif how == "move":
        f, b = [NAMES[i] for i in S.pick("f", [(2,), (3, 1), (1, 0, 2)])], [NAMES[i] for i in S.pick("b", [(0,), (1, 3), (2, 1, 0)])]
        s.col_move(f, b)
        M = [(n, d[n]) for n in f] + [(n, v) for n, v in M if n not in f]
        M = [(n, v) for n, v in M if n not in b] + [(n, d[n]) for n in b]
    elif how == "move_idx":
        i = S.choose("i", -4, 3)
        if S.pick("end", ["front", "back"]) == "front":
            s.col_move_to_front(i)
            M = [M[i]] + [m for m in M if m is not M[i]]
        else:
            s.col_move_to_back(i)
            M = [m for m in M if m is not M[i]] + [M[i]]
    elif how == "remove_mixed":
        i, j = S.choose("i", 0, 3), S.choose("j", 0, 3)
        S.assume(i != j)
        s.col_remove([NAMES[i], j] if S.pick("mix", [0, 1]) else [i, NAMES[j]])
        M = [m for q, m in enumerate(M) if q not in (i, j)]
    elif how == "on_missing":
        om = S.pick("om", ["raise", "warn", "ignore"])
        op = S.pick("op", ["remove", "filter"])
        i = S.choose("i", 0, 3)
        f = s.col_remove if op == "remove" else s.col_filter
        raised, r = S.raises((IndexError, ValueError), lambda: f([NAMES[i], "zz"], on_missing=om))
        S.check(raised == (om == "raise"), "a missing name is rejected exactly when asked")
        if not raised and op == "remove":
            M = [m for q, m in enumerate(M) if q != i]
        elif not raised:
            agree(S, r, [M[i]], "filtered")
    else:
        i = S.choose("i", 0, 3)
        bad = [S.ints("w", 3, np.int32, 0, 9), S.ints("u", 2, np.int32, 0, 9)]
        names = [NAMES[i], NAMES[(i + 1) % 4]]
        raised, _ = S.raises((ValueError, IndexError), lambda: setattr(s, names[0], bad[0]))
        S.check(raised, "a column of another length is rejected")
    agree(S, s, M, how)


@scenario(quick=[dict(how=h) for h in ("values", "names", "nested", "kind")], budget=40)
def equals(S, how):
    """two structs are equal exactly when they have the same names in the same order and the same contents."""
    rt = S.rt
    v, w = S.ints("v", 2, np.int32, 0, 2), S.ints("w", 2, np.int32, 0, 2)
    f, g = S.ints("f", 2, np.int16, 0, 2), S.ints("g", 2, np.int16, 0, 2)
    sv = bool(S.L(v)[0] == S.L(w)[0]) and bool(S.L(v)[1] == S.L(w)[1])
    sf = bool(S.L(f)[0] == S.L(g)[0]) and bool(S.L(f)[1] == S.L(g)[1])
    x = rt.Struct({"ab": v, "ba": f})
    if how == "values":
        y, same = rt.Struct({"ab": w, "ba": g}), sv and sf
    elif how == "names":
        if bool(S.bool("sw")):
            y, same = rt.Struct({"ba": f, "ab": v}), False
        elif bool(S.bool("more")):
            y, same = rt.Struct({"ab": v, "ba": f, "bb": f}), False
        else:
            y, same = rt.Struct({"ab": w, "ba": f}), sv
    elif how == "nested":
        x, y, same = rt.Struct({"q": x, "n": 3}), rt.Struct({"q": rt.Struct({"ab": w, "ba": g}), "n": S.pick("n", [3, 4])}), sv and sf
        same = same and y.n == 3
    else:
        y, same = rt.Struct({"ab": v, "ba": 5 if bool(S.bool("sc")) else rt.Struct({})}), False
    import io, contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        r = x.equals(y)
    S.check(bool(r) == same, f"equal exactly when names and contents agree: {same}")


@scenario(quick=[dict(how=h) for h in ("set", "rename", "copy", "remove", "select")], budget=40)
def footers(S, how):
    """footer values stay with their column and label."""
    rt = S.rt
    cols = [S.ints(f"v{i}", 2, np.int32, 0, 9) for i in range(3)]
    s = rt.Dataset({NAMES[i]: c for i, c in enumerate(cols)})
    x, y = S.choose("x", 0, 2), S.choose("y", 0, 2)
    s.footer_set_values("T", {NAMES[x]: 0, NAMES[y]: 5})
    s.footer_set_values("U", {NAMES[y]: 7})
    T = {NAMES[x]: 0}
    T[NAMES[y]] = 5
    U = {NAMES[y]: 7}

    def agrees(d, T, U, what):
        r = d.footer_get_values(fill_value=-1)
        S.check(set(r) == {k for k, v in (("T", T), ("U", U)) if v is not None}, f"{what}: footer names {sorted(r)}")
        for k, W in (("T", T), ("U", U)):
            if W is not None:
                S.check(list(r[k]) == [W.get(n, -1) for n in d.keys()], f"{what}: {k} {r[k]} {W}")
                S.check(d.footer_get_dict()[k] == {n: W[n] for n in d.keys() if n in W}, f"{what}: {k} as a mapping")
    agrees(s, T, U, "set")
    if how == "rename":
        s.col_rename(NAMES[x], "q0")
        ren = lambda W: {"q0" if n == NAMES[x] else n: v for n, v in W.items()}
        agrees(s, ren(T), ren(U), "renamed")
        s.col_move_to_front("q0")
        agrees(s, ren(T), ren(U), "moved")
    elif how == "copy":
        r = s.copy() if bool(S.bool("deep")) else s[[0, 1], :]
        agrees(r, T, U, "copy")
        r.footer_set_values("T", {NAMES[x]: 9})
        agrees(s, T, U, "source after the copy's footer changed")
        r.footer_remove("U")
        agrees(s, T, U, "source after the copy's footer was removed")
        agrees(r, {**T, NAMES[x]: 9}, None, "copy after removal")
    elif how == "remove":
        if bool(S.bool("one")):
            s.footer_remove("T", columns=[NAMES[y]])
            agrees(s, {n: v for n, v in T.items() if n != NAMES[y]}, U, "removed from one column")
        else:
            s.footer_remove("T")
            agrees(s, None, U, "removed")
            s.footer_remove()
            S.check(s.footer_get_values() == {}, "all removed")
    elif how == "select":
        keep = [NAMES[i] for i in S.pick("keep", [(0, 1), (2, 0), (1, 2)])]
        agrees(s[keep], T, U, "selection")
