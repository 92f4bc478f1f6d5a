"""Time zones: UTC/local conversions and local fields."""
import numpy as np
from sx.registry import scenario
from props.common import *
from props.timecommon import *

BOUNDS = "every nanosecond of the years each zone table covers (New York 1971-2040, Dublin 1997-2038, Sydney 2009-2038, Hong Kong, Tokyo, Seoul, Kolkata and UTC 1970-2098), one or two symbolic times plus invalid ones"

ZONES = [z for z in ZYEARS if z != "UTC"]
ALIAS = {"America/New_York": "NYC", "Europe/Dublin": "DUBLIN", "Australia/Sydney": "Sydney", "Asia/Hong_Kong": "Hongkong", "Asia/Tokyo": "Tokyo", "Asia/Seoul": "Seoul", "Asia/Kolkata": "Asia/Kolkata", "UTC": "GMT"}
TWO = {"America/New_York": (2019, 2020), "Europe/Dublin": (2019, 2020), "Australia/Sydney": (2019, 2020), "Asia/Hong_Kong": (1978, 1980), "Asia/Tokyo": (2019, 2020), "Asia/Seoul": (1987, 1988), "Asia/Kolkata": (2019, 2020)}


@scenario(quick=[dict(n=1, zone=z, part="cal", y0=a, y1=b) for z in ZONES for a, b in spans(z, 15)] + [dict(n=1, zone=z, part=p, y0=ZYEARS[z][0], y1=ZYEARS[z][1]) for z in ZONES for p in ("days", "clock")],
          thorough=[dict(n=2, zone=z, part=p, y0=TWO[z][0], y1=TWO[z][0]) for z in ZONES for p in PARTS], budget=200)
def local_fields(S, n, zone, part, y0, y1):
    a = stamps(S, "t", n, t_ns(y0) + DAY, t_ns(y1 + 1) - DAY)
    X = S.L(a)
    d = S.rt.DateTimeNano(a, from_tz="UTC", to_tz=ALIAS[zone])
    S.eq_list(S.L(d._fa), X, "UTC input is the instant")
    field_oracle(S, zone, d, X, PARTS[part])
    S.eq_list(S.L(d._fa), X, "source unchanged")


def local_instants(zone, lo, hi):
    """[(local from, local to, [offsets possible])] covering lo..hi (ns): gaps have no offset, overlaps two."""
    tr = transitions(zone)
    tr = [(t * 10 ** 9, o * 10 ** 9) for t, o in tr]
    cuts = sorted({lo, hi} | {c for k in range(1, len(tr)) for c in (tr[k][0] + tr[k - 1][1], tr[k][0] + tr[k][1]) if lo < c < hi})
    out = []
    for a, b in zip(cuts, cuts[1:]):
        offs = []
        for k in range(len(tr)):
            end = tr[k + 1][0] if k + 1 < len(tr) else 1 << 62
            if tr[k][0] + tr[k][1] <= a and b <= end + tr[k][1]:
                offs.append(tr[k][1])
        out.append((a, b, offs))
    return out


@scenario(quick=[dict(n=1, zone=z) for z in ZONES] + [dict(n=0, zone="America/New_York")] + [dict(n=2, zone=z, years=[2019, 2019]) for z in ("America/New_York", "Asia/Tokyo")],
          thorough=[dict(n=1, zone=z) for z in ZONES] + [dict(n=2, zone=z, years=[y, y + 1]) for z in ZONES for y in (2012, 2019, 2030)], budget=150)
def from_local(S, n, zone, years=None):
    y0, y1 = years or ZYEARS[zone]
    lo, hi = t_ns(y0) + 2 * DAY, t_ns(y1 + 1) - 2 * DAY
    a = stamps(S, "t", n, lo, hi - 1, inv=False)
    z = S.bools("zero", n)
    a = S.fa([S.If(q, np.int64(0), v) for q, v in zip(S.L(z), S.L(a))], np.int64)
    X = S.L(a)
    segs = local_instants(zone, lo, hi)
    d = S.rt.DateTimeNano(a, from_tz=ALIAS[zone], to_tz=ALIAS[zone])
    U = S.L(d._fa)
    S.check(len(U) == n, "length")
    back = S.L(d._timezone.fix_dst(d._fa))
    S.eq_list(S.L(d.nanos_since_midnight()), [S.If(q, np.int64(inv_val("i8")), x % DAY) for q, x in zip(S.L(z), X)], "shown clock time is the clock time given") if zone == "Asia/Tokyo" else None
    for i, x in enumerate(X):
        if bool(S.L(z)[i]):
            S.check(S.eq(U[i], 0), "invalid stays invalid")
            continue
        l, h = 0, len(segs) - 1
        while l < h:
            m = (l + h + 1) // 2
            if bool(x >= segs[m][0]):
                l = m
            else:
                h = m - 1
        offs = segs[l][2]
        if len(offs) == 1:
            S.check(S.eq(U[i], x - offs[0]), "local time to instant")
            S.check(S.eq(back[i], x), "shown back as the same local time")
        elif len(offs) == 2:
            S.check(S.Or(S.eq(U[i], x - offs[0]), S.eq(U[i], x - offs[1])), "ambiguous local time is one of its two instants")


@scenario(quick=[dict(n=2, src=s, dst=t) for s, t in [("UTC", "America/New_York"), ("America/New_York", "Asia/Tokyo"), ("Asia/Kolkata", "Europe/Dublin"), ("Australia/Sydney", "UTC")]],
          thorough=[dict(n=2, src=s, dst=t) for s in ZYEARS for t in ZYEARS], budget=60)
def change_zone(S, n, src, dst):
    a = stamps(S, "t", n, t_ns(2015), t_ns(2020))
    X = S.L(a)
    d = S.rt.DateTimeNano(a, from_tz="GMT", to_tz=src)
    e = d.astimezone(dst)
    S.eq_list(S.L(e._fa), X, "astimezone keeps the instants")
    S.check(e._timezone._to_tz == dst or dst == "UTC" and e._timezone._to_tz in ("UTC", "GMT"), "new zone")
    S.check(d._timezone._to_tz == src, "source keeps its zone")
    S.check(S.eq_list(S.L(e - d), [S.If(isinv(S, x), NAN, 0.0) for x in X], "no time between the two views") is None, "ok")
    f = d.copy()
    g = S.rt.DateTimeNano(d._fa.copy(), from_tz="GMT", to_tz=src)
    g.set_timezone(dst)
    S.eq_list(S.L(g._fa), X, "set_timezone keeps the instants")
    S.eq_list(S.L(g.nanos_since_midnight()), S.L(e.nanos_since_midnight()), "set_timezone and astimezone agree")
    S.eq_list(S.L(f._fa), X, "copy")
    h = d[::-1]
    S.eq_list(S.L(h._fa), X[::-1], "slice")
    S.check(h._timezone._to_tz == src and f._timezone._to_tz == src, "selection and copy keep the zone")
    k = S.rt.hstack([d, d])
    S.eq_list(S.L(k._fa), X + X, "stack")
    S.check(k._timezone._to_tz == src, "stack keeps the zone")
    s = d.shift(1)
    S.eq_list(S.L(s.isnan()), [True] + [isinv(S, x) for x in X[:-1]], "shift")


@scenario(quick=[dict(n=2, zone=z) for z in ("UTC", "America/New_York", "Asia/Tokyo", "Europe/Dublin")], thorough=[dict(n=2, zone=z) for z in ZYEARS], budget=100)
def with_date(S, n, zone):
    """a Date is local midnight when compared with, or turned into, a timestamp of that zone."""
    days = S.ints("d", n, np.int32, 17897 + 2, 18260, inv=True)
    a = stamps(S, "t", n, 17897 * DAY, 18262 * DAY, inv=False)
    D, X = S.L(days), S.L(a)
    d, t = S.rt.Date(days), S.rt.DateTimeNano(a, from_tz="GMT", to_tz=ALIAS[zone])
    lt, le, eq, ne, ge, gt = [S.L(v) for v in (t < d, t <= d, t == d, t != d, t >= d, t > d)]
    rl, re, rg = [S.L(v) for v in (d > t, d == t, d < t)]
    for i in range(n):
        if bool(is_inv(S, D[i], "i4")):
            for v in (lt, le, eq, ge, gt, rl, re, rg):
                S.check(S.Not(v[i]), "an invalid date compares False")
            S.check(ne[i], "an invalid date is unequal")
            continue
        loc, m = X[i] + offset_at(S, zone, X[i]), asint(S, D[i]) * DAY
        S.check(S.eq(lt[i], loc < m), "<")
        S.check(S.eq(le[i], loc <= m), "<=")
        S.check(S.eq(eq[i], loc == m), "==")
        S.check(S.eq(ne[i], loc != m), "!=")
        S.check(S.eq(ge[i], loc >= m), ">=")
        S.check(S.eq(gt[i], loc > m), ">")
        S.check(S.eq(rl[i], loc < m), "date > time")
        S.check(S.eq(re[i], loc == m), "date == time")
        S.check(S.eq(rg[i], loc > m), "date < time")
