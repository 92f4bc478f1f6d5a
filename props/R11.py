"""String columns: case, search, replace, substring, trimming; plain and categorical."""
import numpy as np
from sx.registry import scenario
from props.common import *

BOUNDS = "1-3 strings of capacity up to 5 (byte and unicode) over small alphabets or all ASCII codes, search patterns up to 3 characters (symbolic or fixed), slice bounds -6..6; selected instances also with every input a stepped or reversed view"


def codes(x, w=None):
    """character codes of a (symbolic) string element, zero padded to w."""
    c = list(x.c) if hasattr(x, "c") else ([ord(ch) for ch in x] if isinstance(x, str) else list(bytes(x)))
    if w is not None:
        c = (c + [0] * w)[:w] if len(c) < w or all(not hasattr(v, "e") and v == 0 for v in c[w:]) else c
    return c


def txt(S, x):
    """codes up to the terminator (forks on the length)."""
    c = codes(x)
    out = []
    for v in c:
        if bool(S.eq(v, 0)):
            break
        out.append(v)
    return out


def same(S, x, want, msg):
    """string element x equals the list of codes want."""
    c = codes(x)
    S.check(len(c) >= len(want) or all(not hasattr(v, "e") and v == 0 for v in want[len(c):]), msg + ": fits")
    for j in range(max(len(c), len(want))):
        S.check(S.eq(asint(S, c[j]) if j < len(c) else 0, asint(S, want[j]) if j < len(want) else 0), msg)


def at(S, t, p, j):
    return S.And(*[S.eq(asint(S, t[j + k]), asint(S, p[k])) for k in range(len(p))]) if j + len(p) <= len(t) else False


ALL = bytes(range(1, 128))


def mkstr(S, name, n, kind, w, alphabet):
    return S.strs(name, n, w, alphabet, kind=kind)


def par(S, on):
    """route through the large-array kernels."""
    S.rt.FAString._APPLY_PARALLEL_THRESHOLD = 0 if on else 10_000


KP = [("S", 0), ("U", 0), ("S", 1)]


@scenario(quick=[dict(kind=k, n=n, w=w, p=p) for k, p in KP for n, w in ((1, 3), (2, 2), (1, 1))], thorough=[dict(kind=k, n=2, w=3, p=0) for k in "SU"] + [dict(kind=k, n=1, w=5, p=0) for k in "SU"], budget=60)
def case_len(S, kind, n, w, p):
    a = mkstr(S, "a", n, kind, w, ALL)
    X = S.L(a)
    par(S, p)
    try:
        up, lo = S.L(a.str.upper), S.L(a.str.lower)
        ln = a.str.strlen
        rev = S.L(a.str.reverse)
        rt_ = S.L(a.str.removetrailing())
        rx = S.L(a.str.removetrailing(120))
    finally:
        par(S, 0)
    L = S.L(ln)
    for v in (up, lo, L, rev, rt_, rx):
        S.check(len(v) == n, "one result per row")
    for i, x in enumerate(X):
        t = txt(S, x)
        S.check(S.eq(L[i], len(t)), "strlen")
        t = [asint(S, v) for v in t]
        same(S, up[i], [S.If(S.And(v >= 97, v <= 122), v - 32, v) for v in t], "upper")
        same(S, lo[i], [S.If(S.And(v >= 65, v <= 90), v + 32, v) for v in t], "lower")
        same(S, rev[i], t[::-1], "reverse")
        for got, ch in ((rt_, 32), (rx, 120)):
            u = list(t)
            while u and bool(S.eq(u[-1], ch)):
                u.pop()
            same(S, got[i], u, "removetrailing")
    S.eq_list(S.L(a), X, "source unchanged")


@scenario(quick=[dict(kind=k, n=n, w=w) for k in "SU" for n, w in ((1, 3), (2, 2))], thorough=[dict(kind=k, n=2, w=3) for k in "SU"], budget=60)
def inplace(S, kind, n, w):
    a = mkstr(S, "a", n, kind, w, ALL)
    X = S.L(a)
    T = [[asint(S, v) for v in txt(S, x)] for x in X]
    up = S.L(a.copy().str.upper_inplace)
    rv = S.L(a.copy().str.reverse_inplace)
    for i, t in enumerate(T):
        same(S, up[i], [S.If(S.And(v >= 97, v <= 122), v - 32, v) for v in t], "upper in place")
        same(S, rv[i], t[::-1], "reverse in place")
    S.eq_list(S.L(a), X, "copy independent of the source")


@scenario(quick=[dict(kind=k, n=n, w=w, m=m, p=p) for k, p in KP for n, w, m in ((2, 3, 1), (2, 3, 2), (1, 4, 2), (1, 2, 3))], thorough=[dict(kind=k, n=n, w=w, m=m, p=0) for k in "SU" for n, w, m in ((1, 5, 2), (1, 5, 3), (3, 3, 2))], budget=60)
def search(S, kind, n, w, m, p):
    a = mkstr(S, "a", n, kind, w, b"ab")
    q = S.strs("q", 1, m, b"ab", kind=kind, minlen=m)
    P = codes(S.L(q)[0])
    pat = S.rt.FAString(q)
    par(S, p)
    try:
        R = dict(contains=a.str.contains(pat), index=a.str.index(pat), startswith=a.str.startswith(pat), endswith=a.str.endswith(pat), any=a.str.index_any_of(pat))
    finally:
        par(S, 0)
    R = {k: S.L(v) for k, v in R.items()}
    X = S.L(a)
    for i, x in enumerate(X):
        t = txt(S, x)
        hits = [at(S, t, P, j) for j in range(len(t))]
        S.check(S.eq(R["contains"][i], S.Or(*hits) if hits else False), "contains")
        S.check(S.eq(R["startswith"][i], at(S, t, P, 0)), "startswith")
        S.check(S.eq(R["endswith"][i], at(S, t, P, len(t) - m) if len(t) >= m else False), "endswith")
        first = -1
        for j in reversed(range(len(t))):
            first = S.If(hits[j], j, first)
        S.check(S.eq(R["index"][i], first), "index")
        first = -1
        for j in reversed(range(len(t))):
            first = S.If(S.Or(*[S.eq(asint(S, t[j]), asint(S, c)) for c in P]), j, first)
        S.check(S.eq(R["any"][i], first), "index_any_of")
    S.eq_list(S.L(a), X, "source unchanged")


@scenario(quick=[dict(kind=k, pat=p) for k in "SU" for p in ("a", "ba", "abb", "")], budget=40)
def search_text(S, kind, pat):
    """pattern given as text, including the empty one."""
    a = mkstr(S, "a", 2, kind, 3, b"ab")
    P = [ord(c) for c in pat]
    R = dict(contains=a.str.contains(pat), index=a.str.index(pat), startswith=a.str.startswith(pat), endswith=a.str.endswith(pat))
    R = {k: S.L(v) for k, v in R.items()}
    for i, x in enumerate(S.L(a)):
        t = txt(S, x)
        hits = [at(S, t, P, j) for j in range(len(t) + 1)]
        S.check(S.eq(R["contains"][i], S.Or(*hits)), "contains")
        S.check(S.eq(R["startswith"][i], at(S, t, P, 0)), "startswith")
        S.check(S.eq(R["endswith"][i], at(S, t, P, len(t) - len(P)) if len(t) >= len(P) else False), "endswith")
        first = -1
        for j in reversed(range(len(hits))):
            first = S.If(hits[j], j, first)
        S.check(S.eq(R["index"][i], first), "index")


@scenario(quick=[dict(kind=k, n=n, w=w, old=o, new=r) for k in "SU" for n, w in ((2, 3), (1, 4)) for o, r in (("a", "bbb"), ("a", ""), ("ab", "c"), ("aa", "b"), ("b", "a"), ("a", "aa"), ("aab", "x"))],
          thorough=[dict(kind="S", n=n, w=w, old=o, new=r) for n, w in ((3, 3), (2, 4), (1, 6)) for o, r in (("a", "bb"), ("ab", ""), ("aa", "b"), ("aa", "aaa"))], budget=60)
def replace(S, kind, n, w, old, new):
    a = mkstr(S, "a", n, kind, w, b"ab")
    X = S.L(a)
    r = S.L(a.str.replace(old, new))
    S.check(len(r) == n, "one result per row")
    P, Q = [ord(c) for c in old], [ord(c) for c in new]
    for i, x in enumerate(X):
        t = txt(S, x)
        out, j = [], 0
        while j < len(t):
            if bool(at(S, t, P, j)):
                out += Q
                j += len(P)
            else:
                out.append(t[j])
                j += 1
        same(S, r[i], out, "every occurrence replaced, left to right")
    S.eq_list(S.L(a), X, "source unchanged")


def pyslice(t, a, b):
    return t[slice(a, b)]


@scenario(quick=[dict(kind=k, form=f) for k in "SU" for f in ("stop", "both", "[a:b]", "[a:]", "[:b]", "starts", "stops", "char", "chars")], budget=60)
def substr(S, kind, form):
    n, w = (2, 3) if form not in ("starts", "stops", "chars") else (2, 2)
    a = mkstr(S, "a", n, kind, w, b"b" if form in ("starts", "stops", "chars") else b"ab")
    X = S.L(a)
    T = [txt(S, x) for x in X]
    if form in ("starts", "stops", "chars"):
        A = S.ints("i", n, np.int64, -3, 3)
        ia = [int(S.concrete(v)) for v in S.L(A)]
        ib = ia
    else:
        x, y = S.choose("i", -5, 5), S.choose("j", -5, 5)
        ia, ib = [x] * n, [y] * n
    s = a.str
    if form in ("char", "chars"):
        pos = [i if i >= 0 else i + len(t) for i, t in zip(ia, T)]
        ok = all(0 <= p < w for p in pos)
        raised, r = S.raises(ValueError, lambda: s.char(ia[0] if form == "char" else A))
        S.check(raised == (not ok), "a position outside the string capacity is rejected")
        if ok:
            for g, p, t in zip(S.L(r), pos, T):
                same(S, g, t[p:p + 1], "character")
        return
    if form == "stop":
        r, want = s.substr(ib[0]), [pyslice(t, 0, ib[0]) for t in T]
    elif form == "both":
        r, want = s.substr(ia[0], ib[0]), [pyslice(t, ia[0], ib[0]) for t in T]
    elif form == "[a:b]":
        r, want = s.substr[ia[0]:ib[0]], [pyslice(t, ia[0], ib[0]) for t in T]
    elif form == "[a:]":
        r, want = s.substr[ia[0]:], [pyslice(t, ia[0], None) for t in T]
    elif form == "[:b]":
        r, want = s.substr[:ib[0]], [pyslice(t, None, ib[0]) for t in T]
    elif form == "starts":
        r, want = s.substr(A, w), [pyslice(t, i, w) for t, i in zip(T, ia)]
    else:
        r, want = s.substr(A), [pyslice(t, 0, i) for t, i in zip(T, ia)]
    S.check(len(r) == n, "one result per row")
    for g, t in zip(S.L(r), want):
        same(S, g, t, "slice of each string")
    S.eq_list(S.L(a), X, "source unchanged")


@scenario(quick=[dict(kind=k, stop=t, inc=i) for k in "SU" for t in ("b", "ab", "bb") for i in (0, 1)], budget=40)
def substr_until(S, kind, stop, inc):
    a = mkstr(S, "a", 2, kind, 4, b"ab")
    P = [ord(c) for c in stop]
    r = S.L(a.str.substr_char_stop(stop, inclusive=bool(inc)))
    for g, x in zip(r, S.L(a)):
        t = txt(S, x)
        cut = next((j for j in range(len(t)) if bool(at(S, t, P, j))), None)
        same(S, g, t if cut is None else t[:cut + (len(P) if inc else 0)], "text up to the stop")


import re as _re
REGEX = ["a$", "^b|aa", "(a)b", "[ab]b"]


@scenario(quick=[dict(kind=k, rx=r, uniq=u) for k in "SU" for r in REGEX for u in (0, 1)], budget=60)
def regex(S, kind, rx, uniq):
    """regular expressions act on each row's own string."""
    n = 2
    a = mkstr(S, "a", n, kind, 2, b"ab")
    T = ["".join(chr(int(S.concrete(c))) for c in txt(S, x)) for x in S.L(a)]
    m = S.L(a.str.regex_match(rx, apply_unique=bool(uniq)))
    S.eq_list(m, [bool(_re.search(rx, t)) for t in T], "match")
    r = S.L(a.str.regex_replace(rx, "zz", apply_unique=bool(uniq)))
    for g, t in zip(r, T):
        same(S, g, [ord(c) for c in _re.sub(rx, "zz", t)], "replace")
    rg = rx if "(" in rx else f"({rx})"
    e = S.L(a.str.extract(rx, expand=False, apply_unique=bool(uniq)))
    for g, t in zip(e, T):
        h = _re.search(rg, t)
        same(S, g, [ord(c) for c in (h.group(1) or "")] if h else [], "extract")


@scenario(quick=[dict(kind=k) for k in "SU"], budget=40)
def regex_groups(S, kind):
    n = 2
    a = mkstr(S, "a", n, kind, 2, b"ab")
    T = ["".join(chr(int(S.concrete(c))) for c in txt(S, x)) for x in S.L(a)]
    for rx, names in (("(a)(b?)", None), ("(a)|(b)", None), ("(?P<u>b)(a)", None), ("(.)(.)", ["p", "q"]), ("(a)(?P<w>b)", None), ("(?P<u>b)?(?P<w>a)", None)):
        fill = {} if names or "|" not in rx else dict(fillna="zz")
        d = a.str.extract(rx, names=names, **fill)
        ix = {v: k for k, v in _re.compile(rx).groupindex.items()}
        nm = names or [ix.get(g, f"group_{g - 1}") for g in (1, 2)]
        S.check(list(d.keys()) == nm, "column names")
        for g in (1, 2):
            for got, t in zip(S.L(d[nm[g - 1]]), T):
                h = _re.search(rx, t)
                same(S, got, [ord(c) for c in (h.groups(fill.get("fillna", ""))[g - 1] if h else fill.get("fillna", ""))], "group")


@scenario(quick=[dict(op=o, base=b, filt=f) for o in ("upper", "strlen", "contains", "index", "startswith", "endswith", "replace", "substr(a)", "substr[a:]", "substr[:a]", "char", "reverse", "removetrailing", "regex_match", "extract") for b in (0, 1) for f in (0, 1) if not (f and not b)],
          thorough=[dict(op=o, base=1, filt=1, n=4) for o in ("upper", "substr[a:]", "strlen")], budget=60)
def categorical(S, op, base, filt, n=3):
    """string functions of a categorical equal those of each row's own string."""
    rt = S.rt
    cats = ["ba", "a", "bcb"]
    code = S.ints("c", n, np.int8, 0 if (filt or not base) else 1, 3 if base else 2)
    c = rt.Categorical(code, cats, base_index=base)
    rows = [int(S.concrete(v)) - base for v in S.L(code)]
    V = [cats[r] if r >= 0 else None for r in rows]
    k = S.choose("k", -3, 3) if "a" in op and "substr" in op else 1
    s = c.str
    call = {"upper": lambda: s.upper, "strlen": lambda: s.strlen, "contains": lambda: s.contains("b"), "index": lambda: s.index("b"), "startswith": lambda: s.startswith("b"), "endswith": lambda: s.endswith("a"),
            "replace": lambda: s.replace("b", "xx"), "substr(a)": lambda: s.substr(k), "substr[a:]": lambda: s.substr[k:], "substr[:a]": lambda: s.substr[:k], "char": lambda: s.char(0), "reverse": lambda: s.reverse,
            "removetrailing": lambda: s.removetrailing(97), "regex_match": lambda: s.regex_match("b.b|^a"), "extract": lambda: s.extract("b(.)")}[op]
    want = {"upper": lambda t: t.upper(), "strlen": len, "contains": lambda t: "b" in t, "index": lambda t: t.find("b"), "startswith": lambda t: t.startswith("b"), "endswith": lambda t: t.endswith("a"),
            "replace": lambda t: t.replace("b", "xx"), "substr(a)": lambda t: t[:k], "substr[a:]": lambda t: t[k:], "substr[:a]": lambda t: t[:k], "char": lambda t: t[0], "reverse": lambda t: t[::-1],
            "removetrailing": lambda t: t.rstrip("a"), "regex_match": lambda t: bool(_re.search("b.b|^a", t)), "extract": lambda t: (_re.search("b(.)", t) or [None, ""])[1]}[op]
    r = call()
    S.check(len(r) == n, "one result per row")
    if isinstance(r, rt.Categorical):
        got = S.L(r.expand_array)
        bad = S.L(r.isfiltered())
        for g, f, v in zip(got, bad, V):
            S.check(S.eq(f, v is None), "filtered rows stay filtered, others do not become filtered")
            if v is not None:
                same(S, g, [ord(ch) for ch in want(v)], op)
    else:
        for g, v in zip(S.L(r), V):
            S.check(S.eq(g, inv_val(r.dtype) if v is None else want(v)), op)
    S.eq_list(S.L(c._fa), S.L(code), "source unchanged")


@scenario(quick=[dict(filt=f) for f in (0, 1)], budget=40)
def categorical_groups(S, filt, n=3):
    """extracting several groups from a categorical: one column each, row by row, under the requested names."""
    rt = S.rt
    cats = ["ab", "b", "ba", "aab"]
    code = S.ints("c", n, np.int8, 0 if filt else 1, 4)
    c = rt.Categorical(code, cats, base_index=1)
    rows = [int(S.concrete(v)) - 1 for v in S.L(code)]
    for rx, names in (("(a+)(b?)", ["p", "q"]), ("(b)(a)", None), ("(a)", ["p"]), ("(a)", None)):
        d = c.str.extract(rx, names=names, expand=True)
        k = rx.count("(")
        nm = names or [f"group_{g}" for g in range(k)]
        S.check(list(d.keys()) == nm, f"column names {list(d.keys())}")
        for g in range(k):
            x = d[nm[g]]
            S.check(len(x) == n, "row count")
            bad = S.L(x.isfiltered())
            for got, f, r in zip(S.L(x.expand_array), bad, rows):
                S.check(S.eq(f, r < 0), "filtered rows stay filtered")
                if r >= 0:
                    h = _re.search(rx, cats[r])
                    same(S, got, [ord(ch) for ch in (h.group(g + 1) or "")] if h else [], "group")


@scenario(quick=[dict(kind=k, w1=a, w2=b) for k in "SU" for a, b in ((2, 2), (1, 3))], budget=40)
def append(S, kind, w1, w2, n=2):
    """joining two text columns row by row."""
    a, b = mkstr(S, "a", n, kind, w1, b"ab"), mkstr(S, "b", n, kind, w2, b"ab")
    A, B = [txt(S, x) for x in S.L(a)], [txt(S, x) for x in S.L(b)]
    for r in (a.str_append(b), a + b):
        S.check(len(r) == n, "one result per row")
        for g, x, y in zip(S.L(r), A, B):
            same(S, g, list(x) + list(y), "joined text")
    for g, x in zip(S.L(a), A):
        same(S, g, list(x), "source unchanged")


@scenario(quick=[dict(kind=k) for k in "SU"], budget=40)
def replace_values(S, kind, n=3):
    """whole texts replaced by a list of pairs."""
    from riptable.rt_utils import str_replace
    rt = S.rt
    a = mkstr(S, "a", n, kind, 2, b"ab")
    old, new = ["ab", "b", "a"], ["x", "yyy", "ab"]
    f = lambda v: rt.FastArray([t.encode() for t in v] if kind == "S" else v, unicode=kind == "U")
    T = ["".join(chr(int(S.concrete(c))) for c in txt(S, x)) for x in S.L(a)]
    S.assume(all(T))
    S.assume(all(t in old for t in T))  # texts that are not listed are rejected
    r = str_replace(a, f(old), f(new), missing="zz")
    for g, t in zip(S.L(r), T):
        same(S, g, [ord(c) for c in (new[old.index(t)] if t in old else "zz")], f"replacement of {t}")
