"""Symbolic implementation of the scenario API."""
import operator, math
from fractions import Fraction
import numpy as np
import z3
from .engine import *
from . import engine as E
from .symnd import SymNd, mk, elems, isobj, is_snd
from . import symnd as N
from .harness import stepped, _flat, common_raises, eq_list, AssumeFailed
from .rcmodel import INV, mkfa


_NARY = {}
_NOT = {}
_INS = {}


class SymS:
    symbolic = True
    view = 0

    def _vw(self, vals, dt):
        if not self.view or not vals:
            return mkfa(list(vals), dt)
        big, sl = stepped(vals, self.view)
        return mkfa(big, dt)[sl]

    def __init__(self, e, rt):
        self.e = e
        self.rt = rt
        self.ins = []  # (name, extractor)
        self.np = np
        self.fails = []
        self.pend = []
        self.scalar = set()

    def _reg(self, name, parts, scalar=False):
        assert all(n != name for n, _ in self.ins), name
        self.ins.append((name, parts))
        if scalar:
            self.scalar.add(name)

    # -- inputs -------------------------------------------------------------
    def _one_int(self, nm, dt, lo, hi, inv):
        k = (nm, dt.num, lo, hi, inv)
        r = _INS.get(k)
        if r is None:
            n = len(self.e.pc)
            r = self._one_int0(nm, dt, lo, hi, inv)
            _INS[k] = (r, self.e.pc[n:])
            return r
        for c in r[1]:
            self.e.declare(c)
        return r[0]

    def _one_int0(self, nm, dt, lo, hi, inv):
        v = z3.Int(nm)
        if inv:
            iv = int(INV[dt])
            self.e.declare(z3.Or(z3.And(v >= lo, v <= hi), v == iv))
            return SymInt(v, min(lo, iv), max(hi, iv), dt)
        self.e.declare(z3.And(v >= lo, v <= hi))
        return SymInt(v, lo, hi, dt)

    def ints(self, name, n, dtype=np.int64, lo=-10, hi=10, inv=False):
        dt = np.dtype(dtype)
        dmin, dmax = INT_RANGE[dt]
        lo, hi = max(lo, dmin), min(hi, dmax)
        vs = [self._one_int(f"{name}_{i}", dt, lo, hi, inv) for i in range(n)]
        self._reg(name, vs)
        return self._vw(vs, dt)

    def ints_at(self, name, base, pos, dtype=np.int64, lo=-10, hi=10, inv=False):
        """concrete array `base` whose elements at positions `pos` are symbolic."""
        dt = np.dtype(dtype)
        vs = [self._one_int(f"{name}_{i}", dt, lo, hi, inv) for i in range(len(pos))]
        self._reg(name, vs)
        out = [dt.type(b) for b in base]
        for p, v in zip(pos, vs):
            out[p] = v
        return self._vw(out, dt)

    def _one_float(self, nm, lo, hi, q, nan, dt):
        k = z3.Int(nm)
        self.e.declare(z3.And(k >= lo * 2 ** q, k <= hi * 2 ** q))
        r = z3.ToReal(k) / (2 ** q) if q else z3.ToReal(k)
        nf = z3.Bool(nm + "_nan") if nan else False
        return SymFloat(r, nf, Fraction(max(abs(lo), abs(hi))), q, dt)

    def floats(self, name, n, lo=-8, hi=8, q=2, nan=True, dtype=np.float64):
        dt = np.dtype(dtype)
        vs = [self._one_float(f"{name}_{i}", lo, hi, q, nan, dt) for i in range(n)]
        self._reg(name, vs)
        return self._vw(vs, dt)

    def bools(self, name, n):
        vs = [SymBool(z3.Bool(f"{name}_{i}")) for i in range(n)]
        self._reg(name, vs)
        return self._vw(vs, BOOL)

    def strs(self, name, n, width, alphabet=b"ab", kind="S", minlen=0):
        dt = np.dtype(f"{kind}{width}")
        cdt = np.dtype(np.uint8 if kind == "S" else np.uint32)
        al = sorted(set(alphabet))
        vs = []
        for i in range(n):
            cs = []
            for j in range(width):
                v = z3.Int(f"{name}_{i}_{j}")
                rng = [z3.And(v >= al[0], v <= al[-1])] if al == list(range(al[0], al[-1] + 1)) else [v == c for c in al]
                self.e.declare(z3.Or(*(rng + ([v == 0] if j >= minlen else []))))
                if j > minlen:
                    self.e.declare(z3.Implies(cs[-1].e == 0, v == 0))
                cs.append(SymInt(v, 0, max(al), cdt))
            vs.append(SymBytes(cs, dt))
        self._reg(name, vs)
        return self._vw(vs, dt)

    def int(self, name, lo, hi):
        v = self._one_int(name, I64, lo, hi, False)
        self._reg(name, [v], True)
        return v

    def float(self, name, lo=-8, hi=8, q=2):
        v = self._one_float(name, lo, hi, q, False, F64)
        self._reg(name, [v], True)
        return v

    def bool(self, name):
        v = SymBool(z3.Bool(name))
        self._reg(name, [v], True)
        return v

    def pick(self, name, options):
        return options[self.choose(name, 0, len(options) - 1)]

    def choose(self, name, lo, hi):
        """integer fixed per path (forks)."""
        v = self._one_int(name, I64, lo, hi, False)
        self._reg(name, [v], True)
        return self.e.choose_value(v.e, limit=hi - lo + 2)

    def model_inputs(self, m):
        out = {}
        for name, parts in self.ins:
            vals = [self._val(m, x) for x in parts]
            out[name] = vals[0] if name in self.scalar else vals
        return out

    def _val(self, m, x):
        ev = lambda t: m.eval(t, model_completion=True)
        if isinstance(x, SymBool):
            return bool(z3.is_true(ev(x.e)))
        if isinstance(x, SymInt):
            return ev(x.e).as_long()
        if isinstance(x, SymFloat):
            if x.nan is not False and z3.is_true(ev(x.nan)):
                return None
            v = ev(x.r)
            return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
        if isinstance(x, SymBytes):
            cs = [ev(c.e).as_long() for c in x.c]
            return "".join(chr(c) for c in cs).rstrip("\0")
        return x

    # -- logic ----------------------------------------------------------------
    def _nary(self, xs, is_and):
        ys = []
        for x in _flat(xs):
            if type(x) is not SymBool:
                x = mkbool(as_z3bool(x))
                if type(x) is not SymBool:
                    if bool(x) != is_and:
                        return x
                    continue
            ys.append(x)
        if not ys:
            return np.bool_(is_and)
        if len(ys) == 1:
            return ys[0]
        key = (is_and,) + tuple([y.key for y in ys])
        r = _NARY.get(key)
        if r is None:
            zs = [y.e for y in ys]
            r = (mkbool(z3.And(*zs) if is_and else z3.Or(*zs)), ys)
            _NARY[key] = r
        return r[0]

    def And(self, *xs):
        return self._nary(xs, True)

    def Or(self, *xs):
        return self._nary(xs, False)

    def Not(self, x):
        c = as_z3bool(x)
        if isinstance(c, bool):
            return np.bool_(not c)
        k = c.get_id()
        r = _NOT.get(k)
        if r is None:
            r = (mkbool(z3.Not(c)), c)
            _NOT[k] = r
        return r[0]

    def Implies(self, a, b):
        return self._nary((self.Not(a), b), False)

    def If(self, c, a, b):
        return s_where(c, a, b)

    def assume(self, c):
        self.flush()
        self.e.assume(c)

    def eq(self, a, b):
        if isinstance(a, np.ndarray) and a.ndim == 0:
            a = elems(a)[0]
        if isinstance(b, np.ndarray) and b.ndim == 0:
            b = elems(b)[0]
        if isinstance(a, str) and not isinstance(b, SymBytes):
            a = a.encode()
        if isinstance(b, str) and not isinstance(a, SymBytes):
            b = b.encode()
        if isinstance(a, SymBytes):
            return a == b
        if isinstance(b, SymBytes):
            return b == a
        if isinstance(a, bytes) or isinstance(b, bytes):
            return np.bool_(a == b)
        fa = isinstance(a, (SymFloat, float, np.floating))
        fb = isinstance(b, (SymFloat, float, np.floating))
        r = s_cmp("==", a, b)
        if fa and fb:
            na, nb = zb(s_isnan(a)), zb(s_isnan(b))
            return mkbool(z3.Or(z3.And(na, nb), zb(r)))
        return r

    def close(self, a, b):
        return self.eq(a, b)

    def isnan(self, x):
        return s_isnan(x)

    def check(self, cond, msg):
        """deferred to the end of the path (every input ends on some path)."""
        c = as_z3bool(cond)
        if c is True:
            self.e.stats.asserts += 1
            return
        self.pend.append((c, msg))
        if c is False:
            self.flush()

    def flush(self):
        pend, self.pend = self.pend, []
        if not pend:
            return
        self.e.stats.asserts += len(pend) - 1
        ok, m = self.e.valid(self._nary([c for c, _ in pend], True))
        if ok:
            return
        for c, msg in pend:
            ok, m = self.e.valid(c)
            if ok is False:
                self.fails.append((msg, self.model_inputs(m)))
                self.e.assume(c)

    def fa(self, xs, dtype):
        """FastArray of given (symbolic) values."""
        return mkfa(list(xs), np.dtype(dtype))

    def int_of(self, x):
        """whole-valued float as int64."""
        return s_cast(x, I64) if isinstance(x, Sym) else int(x)

    def float_of(self, x):
        return s_cast(x, F64) if isinstance(x, Sym) else np.float64(x)

    def L(self, a):
        if isinstance(a, np.ndarray):
            return elems(a)
        return list(a)

    def count(self, conds):
        cs = [zb(c) for c in conds]
        if not cs:
            return np.int64(0)
        return mkint(z3.Sum([z3.If(c, z3.IntVal(1), z3.IntVal(0)) for c in cs]), 0, len(cs), I64)

    def concrete(self, x):
        """force a concrete python value (forks)."""
        if isinstance(x, SymBool):
            return bool(x)
        if isinstance(x, SymFloat):
            return float(x)
        if isinstance(x, Sym):
            return operator.index(x)
        return x

    def tmpdir(self):
        """a new empty directory for this path (removed after it)."""
        import tempfile, os
        from . import sdsmodel
        sdsmodel.reset()
        self.tmp = tempfile.mkdtemp(prefix="p_", dir=os.environ.get("SX_SCRATCH"))
        return self.tmp

    raises = common_raises
    eq_list = eq_list
