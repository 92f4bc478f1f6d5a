"""Calendar fields of dates and timestamps."""
import numpy as np
from sx.registry import scenario
from props.common import *
from props.timecommon import *
from props.timecommon import _dt

BOUNDS = "every day from 1970-01-01 to 2099-12-31 and invalid values (one symbolic date, and pairs of dates); every nanosecond of the same years for timestamps shown in UTC; arrays of 1-2 elements"

SPANS = [(y, min(y + 9, 2099)) for y in range(1970, 2100, 10)]


def dno(*a):
    return _dt.date(*a).toordinal() - ORD0


PAIRS = [(dno(2000, 2, 27), dno(2000, 3, 2)), (dno(2019, 12, 30), dno(2020, 1, 2)), (dno(2096, 2, 27), dno(2096, 3, 1))]


@scenario(quick=[dict(n=1, lo=days_between(a, b)[0], hi=days_between(a, b)[1]) for a, b in SPANS] + [dict(n=2, lo=a, hi=b) for a, b in PAIRS] + [dict(n=0, lo=1, hi=2)],
          thorough=[dict(n=1, lo=days_between(a, b)[0], hi=days_between(a, b)[1]) for a, b in SPANS] + [dict(n=2, lo=dno(y, 1, 1), hi=dno(y + 1, 3, 31)) for y in (1970, 1999, 2023, 2098)]
          + [dict(n=3, lo=a, hi=b) for a, b in PAIRS], budget=120)
def fields(S, n, lo, hi):
    a = S.ints("d", n, np.int32, lo, hi, inv=True)
    X = S.L(a)
    d = S.rt.Date(a)
    date_fields(S, d, X)
    S.eq_list(S.L(d._fa), X, "source unchanged")


@scenario(quick=[dict(n=1, zone="UTC", part="cal", y0=a, y1=b) for a, b in spans("UTC", 10)] + [dict(n=1, zone="UTC", part=p, y0=1970, y1=2098) for p in ("days", "clock")]
          + [dict(n=0, zone="UTC", part=p, y0=1970, y1=1971) for p in PARTS],
          thorough=[dict(n=2, zone="UTC", part=p, y0=1970, y1=1970) for p in PARTS], budget=200)
def stamp_fields(S, n, zone, part, y0, y1):
    a = stamps(S, "t", n, t_ns(y0) + DAY, t_ns(y1 + 1) - DAY)
    X = S.L(a)
    d = S.rt.DateTimeNano(a, from_tz="UTC", to_tz=zone)
    S.eq_list(S.L(d._fa), X, "UTC input is the instant")
    field_oracle(S, zone, d, X, PARTS[part])
    S.eq_list(S.L(d._fa), X, "source unchanged")
