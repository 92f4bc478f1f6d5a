"""Calendar and time-zone oracles (proleptic Gregorian calendar, system tz database)."""
import datetime as _dt
import numpy as np
from props.common import *

DAY = 86400 * 10 ** 9
ORD0 = _dt.date(1970, 1, 1).toordinal()


def ymd(S, d):
    """civil (year, month, day, day of year, leap) of a day number, by bisection over the proleptic calendar (forks)."""
    lo, hi = 1970, 2099
    while lo < hi:
        m = (lo + hi + 1) // 2
        if bool(d >= _dt.date(m, 1, 1).toordinal() - ORD0):
            lo = m
        else:
            hi = m - 1
    y, lo, hi = lo, 1, 12
    while lo < hi:
        m = (lo + hi + 1) // 2
        if bool(d >= _dt.date(y, m, 1).toordinal() - ORD0):
            lo = m
        else:
            hi = m - 1
    d = asint(S, d)
    leap = (y % 4 == 0 and y % 100 != 0) or y % 400 == 0
    return y, lo, d - (_dt.date(y, lo, 1).toordinal() - ORD0) + 1, d - (_dt.date(y, 1, 1).toordinal() - ORD0) + 1, leap


def days_between(y0, y1):
    return _dt.date(y0, 1, 1).toordinal() - ORD0, _dt.date(y1, 12, 31).toordinal() - ORD0


def date_fields(S, d, X):
    I4, I8 = inv_val("i4"), inv_val("i8")
    n = len(X)
    F = {}
    for k in ("year", "month", "day_of_month", "day_of_year", "day_of_week", "is_weekend", "is_weekday", "is_leapyear", "yyyymmdd", "seconds_since_epoch"):
        F[k] = getattr(d, k)
        S.check(len(F[k]) == n, f"one {k} per row")
    sm, sw = S.L(d.start_of_month._fa), S.L(d.start_of_week._fa)
    iv = lambda k: inv_val(F[k].dtype)
    L = {k: S.L(v) for k, v in F.items()}
    for i, x in enumerate(X):
        if bool(S.Or(x == 0, x == I4)):
            for k in ("year", "month", "day_of_month", "day_of_year", "day_of_week", "yyyymmdd", "seconds_since_epoch"):
                S.check(S.eq(L[k][i], iv(k)), f"{k} of an invalid date is invalid")
            for k in ("is_weekend", "is_weekday"):
                S.check(S.Not(L[k][i]), f"{k} of an invalid date is False")
            S.check(S.Or(S.eq(sm[i], 0), S.eq(sm[i], I4)), "start_of_month of an invalid date is invalid")
            S.check(S.Or(S.eq(sw[i], 0), S.eq(sw[i], I4)), "start_of_week of an invalid date is invalid")
            continue
        y, m, dm, dy, leap = ymd(S, x)
        x = asint(S, x)
        S.check(S.eq(L["year"][i], y), "year")
        S.check(S.eq(L["month"][i], m), "month")
        S.check(S.eq(L["day_of_month"][i], dm), "day_of_month")
        S.check(S.eq(L["day_of_year"][i], dy), "day_of_year")
        S.check(S.eq(L["is_leapyear"][i], leap), "is_leapyear")
        S.check(S.eq(L["yyyymmdd"][i], y * 10000 + m * 100 + dm), "yyyymmdd")
        S.check(S.eq(L["day_of_week"][i], (x + 3) % 7), "day_of_week")
        S.check(S.eq(L["is_weekend"][i], (x + 3) % 7 >= 5), "is_weekend")
        S.check(S.eq(L["is_weekday"][i], (x + 3) % 7 <= 4), "is_weekday")
        S.check(S.eq(L["seconds_since_epoch"][i], x * 86400), "seconds_since_epoch")
        if (y, m) != (1970, 1):  # day 0 itself means "invalid"
            S.check(S.eq(sm[i], _dt.date(y, m, 1).toordinal() - ORD0), "start_of_month")
            S.check(S.eq(sw[i], x - (x + 3) % 7), "start_of_week")


# ---------------------------------------------------------------- timestamps
H = 3600 * 10 ** 9
DAY = 24 * H
_TR = {}


def transitions(zone):
    """[(utc second, offset seconds from then on)] of a zone, 1970-2099, from the system tz database."""
    if zone not in _TR:
        from zoneinfo import ZoneInfo
        z = ZoneInfo(zone)
        off = lambda t: int(_dt.datetime.fromtimestamp(t, z).utcoffset().total_seconds())
        out, t = [(-(1 << 40), off(0))], 0
        while t < 4102444800:
            a, b = t, t + 7 * 86400
            if off(b) != off(a):
                while b - a > 1:
                    m = (a + b) // 2
                    if off(m) == off(t):
                        a = m
                    else:
                        b = m
                out.append((b, off(b)))
            t += 7 * 86400
        _TR[zone] = out
    return _TR[zone]


def offset_at(S, zone, x):
    """UTC offset (ns) of instant x (ns), by bisection (forks)."""
    tr = transitions(zone)
    lo, hi = 0, len(tr) - 1
    while lo < hi:
        m = (lo + hi + 1) // 2
        if bool(x >= tr[m][0] * 10 ** 9):
            lo = m
        else:
            hi = m - 1
    return tr[lo][1] * 10 ** 9


STD = {"America/New_York": -5 * H, "Europe/Dublin": 0, "Australia/Sydney": 10 * H, "Asia/Hong_Kong": 8 * H, "Asia/Tokyo": 9 * H, "Asia/Seoul": 9 * H, "Asia/Kolkata": 11 * H // 2, "UTC": 0}


def t_ns(y, m=1, d=1, h=0):
    return int(_dt.datetime(y, m, d, h, tzinfo=_dt.timezone.utc).timestamp()) * 10 ** 9


def stamps(S, name, n, lo, hi, inv=True):
    a = S.ints(name, n, np.int64, lo, hi, inv=inv)
    if inv:
        z = S.bools(name + "_zero", n)
        L = [S.If(q, np.int64(0), v) for q, v in zip(S.L(z), S.L(a))]
        a = S.fa(L, np.int64)
    return a


def isinv(S, x):
    return S.Or(S.eq(x, 0), S.eq(x, inv_val("i8")))


def field_oracle(S, zone, d, X, parts):
    n = len(X)
    get = {}
    for k in parts:
        v = getattr(d, k)
        get[k] = v() if k in ("year", "month", "nanos_since_midnight", "millis_since_midnight", "nanos_since_start_of_year", "time_since_start_of_year", "time_since_midnight", "date") else v
        S.check(len(get[k]) == n, f"one {k} per row")
    L = {k: S.L(v._fa if hasattr(v, "_fa") else v) for k, v in get.items()}
    for i, x in enumerate(X):
        if bool(isinv(S, x)):
            for k in parts:
                got = L[k][i]
                if k in ("days_since_epoch", "seconds_since_epoch", "is_dst", "tz_offset"):
                    continue
                if k in ("is_weekday", "is_weekend"):
                    S.check(S.Not(got), f"{k} of an invalid time is False")
                elif k in ("date", "start_of_week"):
                    S.check(S.Or(S.eq(got, 0), S.eq(got, inv_val(get[k].dtype))), f"{k} of an invalid time is invalid")
                else:
                    S.check(is_inv(S, got, get[k].dtype), f"{k} of an invalid time is invalid")
            continue
        off = offset_at(S, zone, x)
        loc = x + off
        day = loc // DAY
        nsm = loc % DAY
        want = {}
        if {"year", "month", "day_of_month", "day_of_year", "yyyymmdd", "nanos_since_start_of_year", "time_since_start_of_year"} & set(parts):
            y, m, dm, dy, leap = ymd(S, day)
            soy = loc - t_ns(y)
            want = dict(year=y, month=m, day_of_month=dm, day_of_year=dy, yyyymmdd=y * 10000 + m * 100 + dm, nanos_since_start_of_year=soy, time_since_start_of_year=S.float_of(soy))
        dow = (day + 3) % 7
        want.update(day_of_week=dow, is_weekday=dow <= 4, is_weekend=dow >= 5, days_since_epoch=day, seconds_since_epoch=loc // 10 ** 9, nanos_since_midnight=nsm,
                    start_of_week=day - dow, is_dst=off != STD[zone], tz_offset=off / H)
        if set(parts) - set(want):
            f = S.float_of
            want.update(millis_since_midnight=f(nsm) / 1e6, day=f(nsm) / float(DAY), hour=f(nsm) / float(H), hour_span=f(nsm), time_since_midnight=f(nsm),
                        minute=f(loc % H) / 6e10, minute_span=f(loc % H), second=f(loc % (60 * 10 ** 9)) / 1e9, second_span=f(loc % (60 * 10 ** 9)),
                        millisecond=f(loc % 10 ** 9) / 1e6, millisecond_span=f(loc % 10 ** 9), microsecond=f(loc % 10 ** 6) / 1e3, microsecond_span=f(loc % 10 ** 6),
                        nanosecond=f(loc % 1000), nanosecond_span=f(loc % 1000))
        for k in parts:
            if k == "date":
                # the instant shown as midnight of the local day
                got = L[k][i]
                S.check(S.eq(got + offset_at(S, zone, got), day * DAY), "date() is local midnight of the same day")
                continue
            S.check(S.eq(L[k][i], want[k]), k)


CAL = ["year", "month", "day_of_month", "day_of_year", "yyyymmdd", "nanos_since_start_of_year", "time_since_start_of_year"]
DAYS = ["day_of_week", "is_weekday", "is_weekend", "days_since_epoch", "seconds_since_epoch", "nanos_since_midnight", "start_of_week", "is_dst", "tz_offset", "date"]
CLOCK = ["millis_since_midnight", "day", "hour", "hour_span", "time_since_midnight", "minute", "minute_span", "second", "second_span", "millisecond", "millisecond_span",
         "microsecond", "microsecond_span", "nanosecond", "nanosecond_span"]
PARTS = dict(cal=CAL, days=DAYS, clock=CLOCK)
# years for which the library's tables claim to know the zone
ZYEARS = {"America/New_York": (1971, 2040), "Europe/Dublin": (1997, 2038), "Australia/Sydney": (2009, 2038), "Asia/Hong_Kong": (1970, 2098), "Asia/Tokyo": (1970, 2098),
          "Asia/Seoul": (1970, 2098), "Asia/Kolkata": (1970, 2098), "UTC": (1970, 2098)}


def spans(zone, step):
    a, b = ZYEARS[zone]
    return [(y, min(y + step - 1, b)) for y in range(a, b + 1, step)]


