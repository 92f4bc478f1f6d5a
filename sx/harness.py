"""Scenario API, symbolic and concrete.

A scenario is a function of S.  Under SymS its inputs are solver variables and
S.check() is decided by the solver for every value of them on the current path;
under ConcS the same function runs on the unmodified library with the concrete
values of one solver model (replay).
"""
import json, math, operator
import numpy as np


class Stop(Exception):
    pass


class AssumeFailed(Exception):
    pass


class InputsEnd(Exception):
    """a counterexample fixes only the inputs made before its assertion: the replay ends there."""


def stepped(el, view):
    """(buffer, slice): the slice of the buffer is `el`; read without its step it is something else."""
    el, n = list(el), len(el)
    if view > 0:
        return [x for x in el for _ in range(view)], slice(None, None, view)
    return [el[0]] * n + el[::-1] + [el[0]] * n, slice(2 * n - 1, n - 1, -1)


def run_scenario(sc, S, params):
    """parameter "view": every input array is a stepped (2) or reversed (-1) view of a larger buffer."""
    p = dict(params)
    S.view = p.pop("view", 0)
    return sc.fn(S, **p)


class Inputs(dict):
    def __missing__(self, k):
        raise InputsEnd(k)


def _plainval(x):
    """json-able concrete value."""
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return None if math.isnan(x) else float(x)
    if isinstance(x, bytes):
        return x.decode("latin1")
    return x


class ConcS:
    symbolic = False
    view = 0

    def _vw(self, a):
        if not self.view or len(a) == 0:
            return a
        big, sl = stepped(a._np, self.view)
        return self.rt.FastArray(np.array(big, dtype=a.dtype), unicode=True)[sl]

    def __init__(self, inputs, rt):
        self.inputs = Inputs(inputs)
        self.rt = rt
        self.failures = []
        self.nchecks = 0
        self.np = np

    # -- inputs -------------------------------------------------------------
    def ints(self, name, n, dtype=np.int64, lo=-10, hi=10, inv=False):
        return self._vw(self.rt.FastArray(np.array([int(v) for v in self.inputs[name]], dtype=dtype)))

    def ints_at(self, name, base, pos, dtype=np.int64, lo=-10, hi=10, inv=False):
        a = np.array(base, dtype=dtype)
        for p, v in zip(pos, self.inputs[name]):
            a[p] = v
        return self._vw(self.rt.FastArray(a))

    def floats(self, name, n, lo=-8, hi=8, q=2, nan=True, dtype=np.float64):
        return self._vw(self.rt.FastArray(np.array([float("nan") if v is None else v for v in self.inputs[name]], dtype=dtype)))

    def bools(self, name, n):
        return self._vw(self.rt.FastArray(np.array([bool(v) for v in self.inputs[name]], dtype=bool)))

    def strs(self, name, n, width, alphabet=b"ab", kind="S", minlen=0):
        v = self.inputs[name]
        a = np.array([x.encode("latin1") for x in v], dtype=f"S{width}")
        if kind == "U":
            a = np.array(v, dtype=f"U{width}")
        return self._vw(self.rt.FastArray(a) if kind == "S" else self.rt.FastArray(a, unicode=True))

    def int(self, name, lo, hi):
        return int(self.inputs[name])

    def float(self, name, lo=-8, hi=8, q=2):
        return float(self.inputs[name])

    def bool(self, name):
        return bool(self.inputs[name])

    def pick(self, name, options):
        return options[int(self.inputs[name])]

    def choose(self, name, lo, hi):
        return int(self.inputs[name])

    def tmpdir(self):
        import tempfile
        self.tmp = tempfile.mkdtemp(prefix="sxr_")
        return self.tmp

    # -- logic ----------------------------------------------------------------
    def And(self, *xs):
        return all(bool(x) for x in _flat(xs))

    def Or(self, *xs):
        return any(bool(x) for x in _flat(xs))

    def Not(self, x):
        return not bool(x)

    def Implies(self, a, b):
        return (not bool(a)) or bool(b)

    def If(self, c, a, b):
        return a if bool(c) else b

    def assume(self, c):
        if not bool(c):
            raise AssumeFailed()

    def eq(self, a, b):
        if isinstance(a, str):
            a = a.encode()
        if isinstance(b, str):
            b = b.encode()
        if isinstance(a, bytes) or isinstance(b, bytes):
            return a == b
        if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)):
            if math.isnan(a) or math.isnan(b):
                return math.isnan(a) and math.isnan(b)
        return bool(a == b)

    def close(self, a, b):
        """floats equal up to rounding noise (exact reals under the solver)."""
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))

    def isnan(self, x):
        return isinstance(x, (float, np.floating)) and math.isnan(x)

    def check(self, cond, msg):
        self.nchecks += 1
        if not bool(cond):
            self.failures.append(msg)

    def fa(self, xs, dtype):
        return self.rt.FastArray(np.array(list(xs), dtype=dtype))

    def int_of(self, x):
        return int(x)

    def float_of(self, x):
        return np.float64(x)

    def L(self, a):
        """elements of an array (as its raw numpy scalars)."""
        if isinstance(a, np.ndarray):
            return list(a.view(np.ndarray).ravel())
        return list(a)

    def count(self, conds):
        return sum(1 for c in conds if bool(c))

    def concrete(self, x):
        return x


def _flat(xs):
    for x in xs:
        if isinstance(x, (list, tuple)):
            yield from _flat(x)
        elif hasattr(x, "__next__"):
            yield from _flat(list(x))
        else:
            yield x


def cleanup(S):
    if getattr(S, "tmp", None):
        import shutil
        shutil.rmtree(S.tmp, ignore_errors=True)
        S.tmp = None


def common_raises(S, exc, fn):
    """None if fn raised one of exc, else its result."""
    try:
        r = fn()
    except exc as e:
        return True, e
    return False, r


ConcS.raises = common_raises


def eq_list(S, got, want, msg):
    """element-wise equality of two lists incl. length."""
    S.check(len(got) == len(want), f"{msg}: length {len(got)} != {len(want)}")
    if len(got) == len(want):
        S.check(S.And(*[S.eq(g, w) for g, w in zip(got, want)]), msg)


ConcS.eq_list = eq_list
