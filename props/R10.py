"""Arithmetic, comparison and reductions of dates, timestamps and spans."""
import numpy as np
from sx.registry import scenario
from props.common import *
from props.timecommon import *
from props.timecommon import _dt

BOUNDS = "arrays of 1-3 elements on either side (equal length or one side of length 1) with invalid values, dates within 1000 days, instants within 2^41 ns of each other, spans within 2^41 ns or 9 days; display zones GMT, New York and Dublin at fixed offsets; selected instances also with every input a stepped or reversed view"

T0 = 10 ** 18


def mkop(S, name, k, n):
    """symbolic operand of kind k: (object, values in canonical units, invalid flags); units: days for D/DS, ns for T/TS."""
    rt = S.rt
    if k == "D":
        a = S.ints(name, n, np.int32, 1000, 2000, inv=True)
        z = S.bools(name + "_z", n)
        a = S.fa([S.If(q, np.int32(0), v) for q, v in zip(S.L(z), S.L(a))], np.int32)
        X = S.L(a)
        return rt.Date(a), [asint(S, x) for x in X], [S.Or(S.eq(x, 0), S.eq(x, inv_val("i4"))) for x in X]
    if k == "DS":
        a = S.ints(name, n, np.int32, -9, 9, inv=True)
        X = S.L(a)
        return rt.DateSpan(a), [asint(S, x) for x in X], [S.eq(x, inv_val("i4")) for x in X]
    if k == "T":
        a = stamps(S, name, n, T0, T0 + 2 ** 41)
        X = S.L(a)
        return rt.DateTimeNano(a, from_tz="GMT", to_tz="GMT"), X, [isinv(S, x) for x in X]
    if k == "TS":
        a = S.floats(name, n, -2 ** 41, 2 ** 41, q=0, nan=True)
        X = S.L(a)
        return rt.TimeSpan(a), X, [S.isnan(x) for x in X]
    if k == "I":
        a = S.ints(name, n, np.int32, -9, 9, inv=False)
        return a, [asint(S, x) for x in S.L(a)], [False] * n
    if k == "I8":
        a = S.ints(name, n, np.int64, -2 ** 41, 2 ** 41, inv=False)
        return a, S.L(a), [False] * n
    raise KeyError(k)


CLS = dict(D="Date", DS="DateSpan", T="DateTimeNano", TS="TimeSpan")
#  left op right -> result kind
RULES = [("D", "-", "D", "DS"), ("D", "+", "DS", "D"), ("D", "-", "DS", "D"), ("DS", "+", "D", "D"), ("D", "+", "I", "D"), ("D", "-", "I", "D"), ("I", "+", "D", "D"),
         ("D", "+", "TS", "T"), ("D", "-", "TS", "T"), ("TS", "+", "D", "T"), ("D", "-", "T", "TS"), ("T", "-", "D", "TS"),
         ("T", "-", "T", "TS"), ("T", "+", "TS", "T"), ("T", "-", "TS", "T"), ("TS", "+", "T", "T"), ("T", "+", "DS", "T"), ("T", "-", "DS", "T"), ("DS", "+", "T", "T"),
         ("T", "+", "I8", "T"), ("T", "-", "I8", "T"), ("TS", "+", "TS", "TS"), ("TS", "-", "TS", "TS"), ("TS", "+", "DS", "TS"), ("TS", "-", "DS", "TS"),
         ("DS", "+", "TS", "TS"), ("DS", "-", "TS", "TS"), ("DS", "+", "DS", "DS"), ("DS", "-", "DS", "DS")]
ILLEGAL = [("D", "+", "D"), ("T", "+", "T"), ("T", "+", "D"), ("D", "+", "T"), ("DS", "-", "D"), ("DS", "-", "T")]


def unit(k):
    return 1 if k in ("D", "DS", "I") else DAY


def canon(S, k, x, to_ns, flt=False):
    """value x of kind k as an integer in days or ns (flt: as a float in ns)."""
    if k == "TS":
        return x if flt else S.int_of(x)
    x = x * DAY if to_ns and k in ("D", "DS", "I") else x
    return S.float_of(x) if flt else x


def result_check(S, r, k, want, inv):
    S.check(type(r).__name__ == CLS[k], f"result is a {CLS[k]}")
    S.check(len(r) == len(want), "length")
    got, bad = S.L(r._fa), S.L(r.isnan())
    for i in range(len(want)):
        S.check(S.eq(bad[i], inv[i]), f"row {i} is invalid exactly when an operand is")
        w = S.float_of(want[i]) if k == "TS" else want[i]
        S.check(S.Or(inv[i], S.eq(got[i], w)), f"row {i} value")


@scenario(quick=[dict(a=a, op=o, b=b, r=r, na=na, nb=nb) for a, o, b, r in RULES for na, nb in ((2, 2), (1, 1), (2, 1), (1, 2))],
          thorough=[dict(a=a, op=o, b=b, r=r, na=na, nb=nb) for a, o, b, r in RULES for na, nb in ((3, 3), (3, 1), (1, 3), (0, 0))], budget=30)
def binary(S, a, op, b, r, na, nb):
    A, XA, IA = mkop(S, "a", a, na)
    B, XB, IB = mkop(S, "b", b, nb)
    n = max(na, nb)
    ns = r in ("T", "TS")
    res = A + B if op == "+" else A - B
    want, inv = [], []
    for i in range(n):
        i1, i2 = (i if na > 1 else 0), (i if nb > 1 else 0)
        bad = S.Or(IA[i1], IB[i2])
        inv.append(bad)
        if bool(bad):
            want.append(0)
            continue
        flt = r == "TS" and "TS" in (a, b)
        x, y = canon(S, a, XA[i1], ns, flt), canon(S, b, XB[i2], ns, flt)
        want.append(x + y if op == "+" else x - y)
    result_check(S, res, r, want, inv)
    if hasattr(A, "isnan"):
        S.eq_list(S.L(A.isnan()), IA, "left operand unchanged") if a in CLS else None


@scenario(quick=[dict(a=a, op=o, b=b) for a, o, b in ILLEGAL], budget=20)
def illegal(S, a, op, b):
    A, _, _ = mkop(S, "a", a, 2)
    B, _, _ = mkop(S, "b", b, 2)
    raised, _ = S.raises((TypeError, NotImplementedError), lambda: A + B if op == "+" else A - B)
    S.check(raised, "meaningless arithmetic is rejected")


CMP = [("D", "D"), ("T", "T"), ("TS", "TS"), ("DS", "DS"), ("TS", "DS"), ("DS", "TS"), ("D", "I")]


@scenario(quick=[dict(a=a, b=b, na=na, nb=nb) for a, b in CMP for na, nb in ((2, 2), (2, 1), (1, 2))], thorough=[dict(a=a, b=b, na=na, nb=nb) for a, b in CMP for na, nb in ((3, 3), (3, 1), (0, 0))], budget=30)
def compare(S, a, b, na, nb):
    A, XA, IA = mkop(S, "a", a, na)
    if b == "I":
        B = S.ints("b", nb, np.int32, 1000, 2000)
        XB, IB = [asint(S, x) for x in S.L(B)], [False] * nb
    else:
        B, XB, IB = mkop(S, "b", b, nb)
    n = max(na, nb)
    R = [S.L(v) for v in (A < B, A <= B, A == B, A != B, A >= B, A > B)]
    ns = "TS" in (a, b)
    for r in R:
        S.check(len(r) == n, "length")
    for i in range(n):
        i1, i2 = (i if na > 1 else 0), (i if nb > 1 else 0)
        if bool(S.Or(IA[i1], IB[i2])):
            if a in ("DS",) or b in ("DS",):
                continue  # DateSpan compares raw sentinels
            for k, r in enumerate(R):
                S.check(S.eq(r[i], k == 3), "an invalid operand compares unequal and in no order")
            continue
        x, y = canon(S, a, XA[i1], ns, ns), canon(S, b, XB[i2], ns, ns)
        for r, w, nm in zip(R, (x < y, x <= y, x == y, x != y, x >= y, x > y), ("<", "<=", "==", "!=", ">=", ">")):
            S.check(S.eq(r[i], w), nm)


@scenario(quick=[dict(k=k, n=n) for k in ("D", "T", "TS", "DS") for n in (1, 3)], thorough=[dict(k=k, n=5) for k in ("D", "T", "TS", "DS")], budget=40)
def reduce_shift(S, k, n):
    A, X, I = mkop(S, "a", k, n)
    raw = S.L(A._fa)
    anyinv = S.Or(*I)
    for p in (1, -1):
        s = A.shift(p)
        S.check(type(s).__name__ == CLS[k], "shift keeps the type")
        src = [i - p for i in range(n)]
        bad, got = S.L(s.isnan()), S.L(s._fa)
        for i, j in enumerate(src):
            ok = 0 <= j < n
            S.check(S.eq(bad[i], I[j] if ok else True), "shifted-in rows are invalid")
            S.check(S.Or(not ok or I[j] if ok is False else I[j], S.eq(got[i], raw[j])) if ok else True, "shift moves values")
        if k in ("D", "T"):
            d = A.diff(p)
            S.check(type(d).__name__ == dict(D="DateSpan", T="TimeSpan")[k], "diff gives a span")
            bad, got = S.L(d.isnan()), S.L(d._fa)
            for i, j in enumerate(src):
                ok = 0 <= j < n
                iv = S.Or(I[i], I[j]) if ok else True
                S.check(S.eq(bad[i], iv), "difference with an invalid is invalid")
                if ok:
                    w = X[i] - X[j]
                    S.check(S.Or(iv, S.eq(got[i], S.float_of(w) if k == "T" else w)), "difference of neighbours")
    if k in ("D", "T") and not bool(anyinv):
        mn, mx = A.min(), A.max()
        S.check(type(mn).__name__ == CLS[k], "min keeps the type")
        lo, hi = S.L(mn._fa)[0], S.L(mx._fa)[0]
        S.check(S.And(*[S.And(lo <= x, hi >= x) for x in raw]), "min and max bound all values")
        S.check(S.And(S.Or(*[S.eq(lo, x) for x in raw]), S.Or(*[S.eq(hi, x) for x in raw])), "min and max are values of the array")
    S.eq_list(S.L(A.isnan()), I, "isnan")
    S.eq_list(S.L(A.isnotnan()), [S.Not(x) for x in I], "isnotnan")
    if k != "DS":
        S.eq_list(S.L(A.isfinite()), [S.Not(x) for x in I], "isfinite")
    c = A.copy()
    S.eq_list(S.L(c._fa), raw, "copy")
    S.check(type(c).__name__ == CLS[k], "copy keeps the type")
    r = A[::-1]
    S.eq_list(S.L(r._fa), raw[::-1], "reversed")
    S.check(type(r).__name__ == CLS[k], "selection keeps the type")
    m = A[A.isnotnan()]
    S.eq_list(S.L(m._fa), [x for x, i in zip(raw, I) if not bool(i)], "dropping invalids")
    r = A[np.arange(n)[::-1].copy()]
    S.eq_list(S.L(r._fa), raw[::-1], "reversed by index")
    h = S.rt.hstack([A, r])
    S.eq_list(S.L(h._fa), raw + raw[::-1], "stacked")
    S.check(type(h).__name__ == CLS[k], "stack keeps the type")
    f = A.fill_invalid(inplace=False)
    S.check(S.And(*S.L(f.isnan())), "fill_invalid makes every row invalid")
    S.eq_list(S.L(A._fa), raw, "source unchanged")


@scenario(quick=[dict(n=2)], thorough=[dict(n=3)], budget=40)
def span_scale(S, n):
    A, X, I = mkop(S, "a", "TS", n)
    B, Y, J = mkop(S, "b", "TS", n)
    for r, w, nm in ((-A, [-x for x in X], "negated"), (abs(A), [S.If(x < 0, -x, x) for x in X], "absolute"), (A * 3, [x * 3.0 for x in X], "times scalar"), (3 * A, [x * 3.0 for x in X], "scalar times"),
                     (A / 2, [x / 2.0 for x in X], "divided by scalar"), (+A, X, "plus")):
        S.check(type(r).__name__ == "TimeSpan", f"{nm}: a TimeSpan")
        S.eq_list(S.L(r._fa), [S.If(i, NAN, v) for i, v in zip(I, w)], nm)
    for nm, u in (("days", DAY), ("hours", H), ("minutes", 6 * 10 ** 10), ("seconds", 10 ** 9), ("milliseconds", 10 ** 6), ("microseconds", 1000), ("nanoseconds", 1)):
        S.eq_list(S.L(getattr(A, nm)), [x / float(u) if u > 1 else x for x in X], nm)
    for k, u in (("W", 7 * DAY), ("D", DAY), ("h", H), ("m", 6 * 10 ** 10), ("s", 10 ** 9), ("ms", 10 ** 6), ("us", 1000), ("ns", 1)):
        q = S.floats("q" + k, 1, -50, 50, q=0, nan=True)
        S.eq_list(S.L(S.rt.TimeSpan(q, k)._fa), [v * float(u) for v in S.L(q)], f"unit {k}")
    S.eq_list(S.L(A._fa), X, "source unchanged")


@scenario(quick=[dict(n=2)], thorough=[dict(n=3)], budget=40)
def span_misc(S, n):
    q = S.ints("w", n, np.int32, -9, 9)
    S.eq_list(S.L(S.rt.DateSpan(q, "W")._fa), [x * 7 for x in S.L(q)], "weeks")
    a = S.floats("p", n, 0, 2 * DAY, q=0, nan=False)
    got = S.L(S.rt.TimeSpan(a).hhmmss)
    for g, x in zip(got, S.L(a)):
        s = S.int_of(x) // 10 ** 9
        S.check(S.eq(g, s // 3600 * 10000 + s // 60 % 60 * 100 + s % 60), "hhmmss")
    # timestamps from a start date plus a clock time
    t = S.floats("c", n, 0, DAY - 1, q=0, nan=False)
    d = S.ints("d", n, np.int32, 1000, 2000)
    r = S.rt.DateTimeNano(S.rt.TimeSpan(t), from_tz="GMT", to_tz="GMT", start_date=S.rt.Date(d))
    S.eq_list(S.L(r._fa), [S.int_of(x) + asint(S, y) * DAY for x, y in zip(S.L(t), S.L(d))], "start date plus time")
    r = S.rt.DateTimeNano(S.rt.Date(d))
    S.eq_list(S.L(r._fa), [asint(S, y) * DAY for y in S.L(d)], "date to timestamp")


RS = ["2H", "7T", "90S", "1.5S", "L", "250L", "3U"]


@scenario(quick=[dict(n=2, rule=r, width=w) for r, w in [("2H", 5 * H), ("7T", 20 * 60 * 10 ** 9), ("1.5S", 4 * 10 ** 9), ("250L", 8 * 10 ** 8), ("L", 3 * 10 ** 6)]], thorough=[dict(n=3, rule=r, width=w) for r, w in [("2H", 9 * H), ("S", 4 * 10 ** 9)]], budget=60)
def resample(S, n, rule, width):
    num = rule.rstrip("HTSLU")
    step = int(float(num or 1) * dict(H=H, T=6 * 10 ** 10, S=10 ** 9, L=10 ** 6, U=1000)[rule[len(num):]])
    a = S.ints("t", n, np.int64, T0 + 1, T0 + width)
    X = S.L(a)
    d = S.rt.DateTimeNano(a, from_tz="GMT", to_tz="GMT")
    r = d.resample(rule, dropna=True)
    S.eq_list(S.L(r._fa), [x - x % step for x in X], "each time rounded down to its interval")
    S.eq_list(S.L(d._fa), X, "source unchanged")
    # whole grid: times one ns around interval boundaries
    k, e = S.L(S.ints("k", n, np.int64, 0, 2)), S.L(S.ints("e", n, np.int64, -1, 1))
    X = [T0 - T0 % step + 5 * step + step * i + j for i, j in zip(k, e)]
    d = S.rt.DateTimeNano(S.fa(X, np.int64), from_tz="GMT", to_tz="GMT")
    r = d.resample(rule)
    L = S.L(r._fa)
    lo, hi = fmin(S, X), fmin(S, X, True)
    S.check(S.eq(L[0], lo - lo % step), "first interval holds the first time")
    S.check(S.eq(L[-1], hi - hi % step), "last interval holds the last time")
    for x, y in zip(L, L[1:]):
        S.check(S.eq(y - x, step), "even steps")
    S.eq_list(S.L(d._fa), X, "source unchanged")


@scenario(quick=[dict(b=b, pre=p, post=q) for b in ("list", "30") for p in (0, 1) for q in (0, 1)], budget=60)
def cut_time(S, b, pre, post):
    """clock-time buckets: a row's bucket is the one whose (left, right] interval holds its local time of day."""
    a = stamps(S, "t", 2, T0, T0 + DAY, inv=True)
    X = S.L(a)
    d = S.rt.DateTimeNano(a, from_tz="GMT", to_tz="GMT")
    if b == "list":
        pts = [(9, 30), (11, 0), (12, 15, 30), (16, 0)]
        c = d.cut_time(list(pts), add_pre_bucket=bool(pre), add_post_bucket=bool(post))
        cuts = [p[0] * H + p[1] * 6 * 10 ** 10 + (p[2] * 10 ** 9 if len(p) > 2 else 0) for p in pts]
    else:
        c = d.cut_time(30, start_time=(9, 30), end_time=(11, 10), add_pre_bucket=bool(pre), add_post_bucket=bool(post))
        cuts = [(570 + 30 * k) * 6 * 10 ** 10 for k in range(4)] + [670 * 6 * 10 ** 10]
    cuts = ([0] if pre else []) + cuts + ([DAY] if post else [])
    S.check(len(c.category_array) == len(cuts) - 1, "one label per bucket")
    for i, x in enumerate(X):
        if bool(isinv(S, x)):
            S.check(S.eq(S.L(c._fa)[i], 0), "invalid times are in no bucket")
            continue
        t = x % DAY
        want = 0
        for k in range(len(cuts) - 1):
            want = S.If(S.And(cuts[k] < t, t <= cuts[k + 1]), k + 1, want)
        S.check(S.eq(S.L(c._fa)[i], want), "bucket of the row's clock time")


@scenario(quick=[dict(mode=m) for m in ("end", "left", "right", "days")], budget=60)
def date_range(S, mode):
    """Date.range from a fixed day."""
    rt = S.rt
    k, step = S.choose("k", 0, 12), S.choose("step", -3 if mode == "days" else 1, 4)
    S.assume(step != 0)
    start = "2020-02-25"
    s0 = 18317
    if mode == "days":
        r = rt.Date.range(start, days=k, step=step)
        want = [s0 + step * i for i in range(k)]
    else:
        e = _dt.date(2020, 2, 25) + _dt.timedelta(days=k)
        closed = None if mode == "end" else mode
        S.assume(step == 1)
        r = rt.Date.range(start, e.strftime("%Y-%m-%d"), closed=closed)
        want = list(range(s0 + (mode == "right"), s0 + k + (mode != "left")))
    S.check(type(r).__name__ == "Date", "type")
    S.eq_list(S.L(r._fa), want, "days of the range")


IP = [("T", "+", "TS"), ("T", "+", "DS"), ("T", "+", "I8"), ("T", "-", "TS"), ("T", "-", "DS"), ("T", "-", "I8"), ("D", "+", "I"), ("D", "+", "DS"), ("D", "-", "DS"), ("D", "-", "I"), ("DS", "+", "DS"), ("DS", "-", "DS"), ("TS", "+", "TS"), ("TS", "-", "TS"), ("TS", "+", "DS"), ("TS", "-", "DS")]


@scenario(quick=[dict(a=a, op=o, b=b, n=2) for a, o, b in IP], budget=30)
def inplace(S, a, op, b, n):
    """adding to and subtracting from an array in place."""
    import warnings
    A, XA, IA = mkop(S, "a", a, n)
    B, XB, IB = mkop(S, "b", b, n)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if op == "+":
            A += B
        else:
            A -= B
    inv = [S.Or(p, q) for p, q in zip(IA, IB)]
    want = []
    for i in range(n):
        if bool(inv[i]):
            want.append(0)
            continue
        flt = a == "TS"
        x, y = canon(S, a, XA[i], a in ("T", "TS"), flt), canon(S, b, XB[i], a in ("T", "TS"), flt)
        want.append(x + y if op == "+" else x - y)
    result_check(S, A, a, want, inv)


@scenario(quick=[dict(zone=z) for z in ("GMT", "NYC", "DUBLIN")], budget=40)
def zones(S, zone, n=2):
    """results show in the zone of the timestamps they come from; a date stands for midnight in that zone."""
    rt = S.rt
    full = {"GMT": "GMT", "NYC": "America/New_York", "DUBLIN": "Europe/Dublin"}[zone]
    a = stamps(S, "a", n, T0, T0 + 2 ** 41)
    X = S.L(a)
    inv = [isinv(S, x) for x in X]
    t = rt.DateTimeNano(a, from_tz="GMT", to_tz=zone)
    ts, XS, IS = mkop(S, "ts", "TS", n)
    ds, XD, ID = mkop(S, "ds", "DS", n)
    for r, w, bad in ((t + ts, [x + S.int_of(y) for x, y in zip(X, [S.If(q, 0.0, v) for q, v in zip(IS, XS)])], IS), (t - ds, [x - y * DAY for x, y in zip(X, [S.If(q, 0, v) for q, v in zip(ID, XD)])], ID),
                      (t + 5, [x + 5 for x in X], [False] * n), (t - np.int64(7), [x - 7 for x in X], [False] * n)):
        bad = [S.Or(p, q) for p, q in zip(inv, bad)]
        S.check(r._timezone._to_tz == full, "the sum shows in the same zone")
        result_check(S, r, "T", w, bad)
    for r in (t[::-1], t.copy(), t.shift(1), t[S.fa([1, 0], np.int32)]):
        S.check(r._timezone._to_tz == full, "selections show in the same zone")
    off = {"GMT": 0, "NYC": 4, "DUBLIN": -1}[zone] * 3600 * 10 ** 9  # September 2001
    lo = T0 // DAY
    d = S.ints("d", n, np.int32, lo - 1, lo + 2)
    D = [asint(S, x) * DAY + off for x in S.L(d)]
    d = rt.Date(d)
    R = [S.L(v) for v in (d < t, d <= t, d == t, d != t, d >= t, d > t)]
    for i in range(n):
        x, y = D[i], X[i]
        for k, (r, w) in enumerate(zip(R, (x < y, x <= y, x == y, x != y, x >= y, x > y))):
            S.check(S.eq(r[i], S.If(inv[i], k == 3, w)), f"date against timestamp, comparison {k}")


@scenario(quick=[dict(n=2)], budget=30)
def other_units(S, n):
    """spans in weeks and days counted from year 0."""
    rt = S.rt
    w = S.ints("w", n, np.int32, -500, 500)
    r = rt.DateSpan(w, unit="W")
    S.eq_list(S.L(r._fa), [asint(S, x) * 7 for x in S.L(w)], "weeks are seven days")
    m = S.floats("m", n, 719530, 760000, q=0, nan=True)
    M = S.L(m)
    r = rt.Date(m, from_matlab=True)
    for g, b, x in zip(S.L(r._fa), S.L(r.isnan()), M):
        if bool(S.isnan(x)):
            S.check(b, "a missing day number is an invalid date")
        else:
            S.check(S.eq(g, S.int_of(x) - 719529), "day number")
            S.check(S.Not(b), "valid")
