"""Path-exploring symbolic execution core.

Symbolic scalars wrap z3 terms and carry a numpy dtype.  Integers are z3 Int
terms with an interval; every operation whose interval may leave the dtype's
range is wrapped modulo 2**bits, so machine semantics are exact.  Floats are
z3 Real terms plus a NaN flag; an operation that is exact in binary64/32
(tracked by magnitude and dyadic scale) stays a plain term, any other result
goes through an uninterpreted rounding function (so a proof holds for every
rounding, in particular IEEE's).

bool() of a symbolic condition forks the path: both sides are checked with the
solver and the program is re-executed for every feasible decision sequence.
"""
import os, sys, time, fractions, math, operator
import numpy as np
import z3

Fraction = fractions.Fraction


class PathAbort(BaseException):
    """Ends the current path (infeasible or cut)."""

    def __init__(self, *a):
        if Engine.cur is not None:
            Engine.cur.dead = self


class Unsupported(Exception):
    """The engine has no model for an operation."""

    def __init__(self, *a):
        super().__init__(*a)
        if Engine.cur is not None:
            Engine.cur.path_unsupported = str(a[0]) if a else "?"


class Budget(BaseException):
    """Exploration budget exhausted."""

    def __init__(self, *a):
        if Engine.cur is not None:
            Engine.cur.dead = self


class CheckFail(BaseException):
    def __init__(self, msg, model):
        self.msg = msg
        self.model = model


INT_RANGE = {}
for _t in (np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16, np.uint32, np.uint64):
    INT_RANGE[np.dtype(_t)] = (int(np.iinfo(_t).min), int(np.iinfo(_t).max))
INT_RANGE[np.dtype(np.longlong)] = INT_RANGE[np.dtype(np.int64)]
INT_RANGE[np.dtype(np.ulonglong)] = INT_RANGE[np.dtype(np.uint64)]

I64 = np.dtype(np.int64)
F64 = np.dtype(np.float64)
F32 = np.dtype(np.float32)
BOOL = np.dtype(bool)


class Stats:
    def __init__(self):
        self.paths = 0
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.asserts = 0
        self.unsupported = []
        self.concretised = 0
        self.aborted = 0
        self.fn_calls = {}


class Engine:
    """One exploration of one scenario."""

    cur = None

    def __init__(self, query_timeout_ms=20000, max_paths=100000, deadline=None):
        self.stats = Stats()
        self.worklist = [([], None)]
        self.query_timeout_ms = query_timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.complete = True
        self.why_incomplete = {}
        self.forked = {}

    # -- solver ------------------------------------------------------------
    def _reset(self, prefix, model):
        self.prefix = prefix
        self.trace = []
        self.solver = z3.Solver()
        self.solver.set("timeout", self.query_timeout_ms)
        self.inputs = []  # (name, kind, spec) in creation order
        self.pc = []
        self.decided = {}
        self.model = None
        self.prefix_model = model
        self.path_concretised = False
        self.path_unsupported = None
        self.dead = None

    def incomplete(self, why):
        self.complete = False
        self.why_incomplete[why] = self.why_incomplete.get(why, 0) + 1

    def note_forked(self, why):
        """operands split into all their values (complete; counted in the evidence)."""
        self.stats.concretised += 1
        self.forked[why] = self.forked.get(why, 0) + 1

    def note_concretised(self, why):
        self.stats.concretised += 1
        self.path_concretised = True
        self.incomplete("concretised: " + why)

    def add(self, e):
        self.solver.add(e)
        self.pc.append(e)

    def declare(self, e):
        """range constraint of a new input: a model found before it may not satisfy it."""
        self.add(e)
        if len(self.trace) >= len(self.prefix):
            self.model = None
            self.prefix_model = None

    def _timed(self, s, extra):
        self.stats.queries += 1
        t = time.perf_counter()
        r = s.check(*extra)
        self.stats.solver_s += time.perf_counter() - t
        return r

    def sat(self, *extra):
        """True / False / None(unknown); leaves the model in self._last."""
        self._last = None
        r = self._timed(self.solver, extra)
        if r == z3.sat:
            self._last = self.solver.model()
            return True
        if r == z3.unsat:
            return False
        # second chance: fresh non-incremental solver
        s = z3.Solver()
        s.set("timeout", self.query_timeout_ms)
        for p in self.pc:
            s.add(p)
        r = self._timed(s, extra)
        if r == z3.sat:
            self._last = s.model()
            return True
        if r == z3.unsat:
            return False
        self.stats.unknown += 1
        return None

    def _holds(self, e):
        """value of e in the cached model (None when there is none)."""
        if self.model is None:
            return None
        v = self.model.eval(e, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def _sync(self):
        if self.model is None:
            if len(self.trace) == len(self.prefix) and self.prefix_model is not None:
                self.model = self.prefix_model
                self.prefix_model = None
                return True
            r = self.sat()
            if r:
                self.model = self._last
                return True
            if r is False:
                raise PathAbort()
            self.incomplete("solver unknown")
            return None
        return True

    def assume(self, cond):
        cond = as_z3bool(cond)
        if cond is True:
            return
        if cond is False:
            raise PathAbort()
        self.add(cond)
        if len(self.trace) < len(self.prefix):
            return
        if self._holds(cond) is not True:
            self.model = None
            if self.prefix_model is not None and z3.is_true(self.prefix_model.eval(cond, model_completion=True)):
                return
            self.prefix_model = None
            self._sync()

    def branch(self, e):
        """Decide a symbolic boolean; returns a python bool."""
        if self.dead is not None:
            raise self.dead
        k = e.get_id()
        b = _MB.get(k)
        if b is None:
            b = (mkbool(e),)
        b = b[0]
        if not isinstance(b, SymBool):
            return bool(b)
        e = b.e
        k = b.key
        d = self.decided.get(k)
        if d is not None:
            return d
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
            self.add(e if d else _neg(b).e)
            self.decided[k] = d
            self.decided[_neg(b).key] = not d
            return d
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget()
        self._sync()
        v = self._holds(e)
        if v is None:
            v = True
            r = self.sat(e)
            if r is False:
                self.trace.append(False)
                self.add(z3.Not(e))
                self.decided[k] = False
                return False
            self.model = self._last
            if r is None:
                self.incomplete("solver unknown")
        ne = _neg(b)
        side, other = (e, ne.e) if v else (ne.e, e)
        r = self.sat(other)
        if r is not False:
            if r is None:
                self.incomplete("solver unknown")
            self.worklist.append((self.trace + [not v], self._last))
        self.trace.append(v)
        self.add(side)
        self.decided[k] = v
        self.decided[ne.key] = not v
        return v

    def choose_value(self, term, limit=64, cut=False):
        """Fork over the concrete values of a term (at most `limit` of them)."""
        if self.dead is not None:
            raise self.dead
        term = z3.simplify(term)
        v = _const(term)
        if v is not None:
            return v
        n = 0
        while True:
            i = len(self.trace)
            if i < len(self.prefix):
                v = self.prefix[i]
                self.trace.append(v)
                if v[1]:
                    self.add(term == _zval(v[0], term))
                    return v[0]
                self.add(term != _zval(v[0], term))
                n += 1
                continue
            if self.deadline is not None and time.time() > self.deadline:
                raise Budget()
            if self._sync() is None:
                raise PathAbort()
            v = _const(self.model.eval(term, model_completion=True))
            if v is None:
                raise Unsupported("no value for term")
            if n + 1 >= limit:
                self.note_concretised("value enumeration limit")
            elif self.sat(term != _zval(v, term)) is not False:
                self.worklist.append((self.trace + [(v, False)], self._last))
            self.trace.append((v, True))
            self.add(term == _zval(v, term))
            return v

    # -- run ---------------------------------------------------------------
    def run(self, fn, on_path=None):
        """fn(engine) executed over all paths."""
        while self.worklist:
            if self.stats.paths >= self.max_paths or (self.deadline is not None and time.time() > self.deadline):
                self.incomplete("path/time budget")
                break
            prefix, model = self.worklist.pop()
            self._reset(prefix, model)
            Engine.cur = self
            try:
                fn(self)
                if self.dead is not None:
                    raise self.dead
                self.stats.paths += 1
                if on_path is not None:
                    on_path(self)
            except PathAbort:
                self.stats.aborted += 1
            except Budget:
                self.incomplete("path/time budget")
                self.worklist.append((prefix, model))
                break
            finally:
                Engine.cur = None
        return self.complete and not self.worklist

    def path_model(self):
        try:
            self._sync()
        except PathAbort:
            return None
        return self.model

    def valid(self, cond):
        """Is cond true on the current path for every input? Returns (ok, model)."""
        self.stats.asserts += 1
        cond = as_z3bool(cond)
        if cond is True:
            return True, None
        if cond is False:
            self._sync()
            return (None, None) if self.model is None else (False, self.model)
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True, None
        r = self.sat(z3.Not(cond))
        if r is False:
            return True, None
        if r is None:
            self.incomplete("solver unknown on assertion")
            return None, None
        return False, self._last


_NEG = {}


def _neg(b):
    """memoised negation of a SymBool (never simplifies to a constant)."""
    k = b.key
    r = _NEG.get(k)
    if r is None:
        r = SymBool(z3.simplify(z3.Not(b.e)))
        _NEG[k] = r
        _NEG.setdefault(r.key, b)
        r._keep = b
    return r


def _const(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        return None
    return None


def _zval(v, term):
    if term.is_int():
        return z3.IntVal(int(v))
    return z3.RealVal(v)


def eng():
    e = Engine.cur
    if e is None:
        raise Unsupported("symbolic value used outside exploration")
    return e


# ---------------------------------------------------------------------------
# scalars
# ---------------------------------------------------------------------------

def is_sym(x):
    return isinstance(x, Sym)


def as_z3bool(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, Sym):
        return as_z3bool(x != 0)
    if isinstance(x, (int, float, np.number)):
        return bool(x)
    raise Unsupported(f"not a condition: {type(x)}")


def zb(x):
    """to a z3 BoolRef."""
    x = as_z3bool(x)
    return z3.BoolVal(x) if isinstance(x, bool) else x


_MB = {}
_MEMO = {}
_CONC = (bool, int, float, np.generic)


def _mk(x):
    """memo key of a scalar operand (None: not memoisable)."""
    if isinstance(x, (SymInt, SymBool, SymFloat)):
        return x.key
    if isinstance(x, _CONC):
        return (type(x), x)
    return None


def memo(f):
    """Results of scalar operations are shared between paths (terms are hash-consed);
    an operation that forked is never memoised."""
    name = f.__name__

    def s_op(op, a, b, dt=None):
        ka, kb = _mk(a), _mk(b)
        if ka is None or kb is None:
            return f(op, a, b, dt)
        key = (name, op, ka, kb, None if dt is None else dt.num)
        r = _MEMO.get(key)
        if r is not None:
            return r[0]
        e = Engine.cur
        n = len(e.trace) if e is not None else 0
        r = f(op, a, b, dt)
        if e is not None and len(e.trace) == n:
            _MEMO[key] = (r, a, b)
        return r
    s_op.__name__ = name
    return s_op


def mkbool(e):
    if isinstance(e, (bool, np.bool_)):
        return np.bool_(e)
    k = e.get_id()
    r = _MB.get(k)
    if r is None:
        r = _mkbool(e)
        _MB[k] = (r, e)
        return r
    return r[0]


def _mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return np.True_
    if z3.is_false(e):
        return np.False_
    return SymBool(e)


class Sym:
    __array_priority__ = -1
    shape = ()
    ndim = 0
    size = 1

    def _concrete(self):
        from . import symnd
        if Engine.cur is None:
            raise Unsupported("symbolic value outside an exploration")
        return symnd.conc_scalar(self)

    def __hash__(self):
        return hash(self._concrete())

    def __str__(self):
        return str(self._concrete())

    def item(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def copy(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    def __array__(self, dtype=None):
        a = np.empty((), dtype=object)
        a[()] = self
        return a

    def view(self, *a):
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import symnd
        if any(symnd.is_snd(x) for x in inputs):
            return NotImplemented
        return symnd.sym_ufunc(ufunc, method, inputs, dict(kw))

    def reshape(self, *a):
        from . import symnd
        return symnd.mk([self], self.dtype, (1,)).reshape(*a)

    def tolist(self):
        return self

    @property
    def nbytes(self):
        return self.dtype.itemsize

    @property
    def flags(self):
        return np.zeros(()).flags

    def __format__(self, spec):
        return format(self._concrete(), spec)

    # numpy scalar API used by riptable
    def isnan(self):
        return s_isnan(self)


class SymBool(Sym):
    __slots__ = ("e", "_k", "_keep")
    dtype = BOOL
    itemsize = 1

    def __init__(self, e):
        self.e = e

    @property
    def key(self):
        try:
            return self._k
        except AttributeError:
            self._k = self.e.get_id()
            return self._k

    def __bool__(self):
        return eng().branch(self.e)

    def any(self, *a, **k):
        return self

    all = any

    def __index__(self):
        return int(eng().branch(self.e))

    def __int__(self):
        return int(eng().branch(self.e))

    def __repr__(self):
        return f"SymBool({self.e})"

    def _int(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)), 0, 1, I64)

    def __and__(self, o):
        if isinstance(o, (SymBool, bool, np.bool_)):
            o = as_z3bool(o)
            if o is True:
                return self
            if o is False:
                return np.False_
            return mkbool(z3.And(self.e, o))
        if isinstance(o, np.ndarray):
            return NotImplemented
        return self._int() & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (SymBool, bool, np.bool_)):
            o = as_z3bool(o)
            if o is True:
                return np.True_
            if o is False:
                return self
            return mkbool(z3.Or(self.e, o))
        if isinstance(o, np.ndarray):
            return NotImplemented
        return self._int() | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return mkbool(z3.Xor(self.e, zb(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def logical_not(self):
        return mkbool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool, np.bool_)):
            return mkbool(self.e == zb(o))
        return s_cmp("==", self._int(), o)

    def __ne__(self, o):
        if isinstance(o, (SymBool, bool, np.bool_)):
            return mkbool(self.e != zb(o))
        return s_cmp("!=", self._int(), o)

    __hash__ = Sym.__hash__


def _arith(name):
    def f(self, o):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return NotImplemented
        return s_bin(name, self, o)

    def r(self, o):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return NotImplemented
        return s_bin(name, o, self)

    return f, r


def _cmp(name):
    def f(self, o):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return NotImplemented
        if o is None or isinstance(o, (str, bytes, tuple, list, dict)):
            return name == "!="
        return s_cmp(name, self, o)

    return f


for _n, _op in (("add", "+"), ("sub", "-"), ("mul", "*"), ("floordiv", "//"), ("mod", "%"), ("truediv", "/"), ("pow", "**")):
    _f, _r = _arith(_op)
    setattr(SymBool, f"__{_n}__", _f)
    setattr(SymBool, f"__r{_n}__", _r)
for _n, _op in (("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">=")):
    setattr(SymBool, f"__{_n}__", _cmp(_op))


class SymNum(Sym):
    __slots__ = ()


for _n, _op in (
    ("add", "+"), ("sub", "-"), ("mul", "*"), ("floordiv", "//"), ("mod", "%"), ("truediv", "/"),
    ("pow", "**"), ("and", "&"), ("or", "|"), ("xor", "^"), ("lshift", "<<"), ("rshift", ">>"),
):
    _f, _r = _arith(_op)
    setattr(SymNum, f"__{_n}__", _f)
    setattr(SymNum, f"__r{_n}__", _r)
for _n, _op in (("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">="), ("eq", "=="), ("ne", "!=")):
    setattr(SymNum, f"__{_n}__", _cmp(_op))
SymNum.__hash__ = Sym.__hash__
SymNum.__divmod__ = lambda self, o: (self // o, self % o)


class SymInt(SymNum):
    """integer of numpy dtype `dt`; e is a z3 Int term in [lo, hi]."""

    __slots__ = ("e", "lo", "hi", "dt", "_k")

    def __init__(self, e, lo, hi, dt):
        self.e = e
        self.lo = lo
        self.hi = hi
        self.dt = dt

    @property
    def key(self):
        try:
            return self._k
        except AttributeError:
            self._k = (self.e.get_id(), self.lo, self.hi, self.dt.num)
            return self._k

    @property
    def dtype(self):
        return self.dt

    @property
    def itemsize(self):
        return self.dt.itemsize

    def __bool__(self):
        return eng().branch(self.e != 0)

    def __index__(self):
        return eng().choose_value(self.e)

    __int__ = __index__

    def __float__(self):
        return float(eng().choose_value(self.e))

    def __repr__(self):
        return f"SymInt<{self.dt}>({self.e})"

    def __neg__(self):
        return mkint(-self.e, -self.hi, -self.lo, self.dt)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        return mkint(z3.If(self.e < 0, -self.e, self.e), 0, max(abs(self.lo), abs(self.hi)), self.dt)

    def __invert__(self):
        lo, hi = INT_RANGE[self.dt]
        if lo < 0:
            return mkint(-self.e - 1, -self.hi - 1, -self.lo - 1, self.dt)
        return mkint(hi - self.e, hi - self.hi, hi - self.lo, self.dt)

    def astype(self, dt):
        return s_cast(self, np.dtype(dt))

    @property
    def real(self):
        return self


class SymFloat(SymNum):
    """float: NaN flag `nan` (z3 Bool or python bool), value r (z3 Real/Int term),
    |r| <= mag, r is an integer multiple of 2**-q when q is not None."""

    __slots__ = ("r", "nan", "mag", "q", "dt", "_k")

    @property
    def key(self):
        try:
            return self._k
        except AttributeError:
            n = self.nan
            self._k = ("f", self.r.get_id(), n if isinstance(n, bool) else n.get_id(), self.mag, self.q, self.dt.num)
            return self._k

    def __init__(self, r, nan, mag, q, dt):
        self.r = r
        self.nan = nan
        self.mag = mag
        self.q = q
        self.dt = dt

    @property
    def dtype(self):
        return self.dt

    @property
    def itemsize(self):
        return self.dt.itemsize

    def __bool__(self):
        if self.nan is False:
            return eng().branch(self.r != 0)
        return eng().branch(z3.Or(zb(self.nan), self.r != 0))

    def __int__(self):
        return int(float(self))

    def __float__(self):
        e = eng()
        if self.nan is not False and e.branch(zb(self.nan)):
            return float("nan")
        return float(e.choose_value(_conc_rounding(self.r), limit=64))

    def __repr__(self):
        return f"SymFloat<{self.dt}>(nan={self.nan}, {self.r})"

    def __neg__(self):
        return mkfloat(-self.r, self.nan, self.mag, self.q, self.dt)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkfloat(z3.If(self.r < 0, -self.r, self.r), self.nan, self.mag, self.q, self.dt)

    def astype(self, dt):
        return s_cast(self, np.dtype(dt))


_FL = {}


def fl_fn(dt):
    if dt not in _FL:
        _FL[dt] = z3.Function(f"fl_{dt.name}", z3.RealSort(), z3.RealSort())
    return _FL[dt]


def _uses(t, name, memo):
    k = t.get_id()
    if k not in memo:
        memo[k] = z3.is_app(t) and (t.decl().name().startswith(name) or any(_uses(c, name, memo) for c in t.children()))
    return memo[k]


def _conc_rounding(t):
    """replace each rounding (or root) in a term, innermost first, by its value for every value of its argument (forks)."""
    e = eng()
    while True:
        t = z3.simplify(t)
        memo = {}
        if not _uses(t, ("fl_", "sqrt_r"), memo):
            return t
        x = t
        while True:
            nxt = next((c for c in x.children() if _uses(c, ("fl_", "sqrt_r"), memo)), None)
            if nxt is None:
                break
            x = nxt
        arg = x.arg(0)
        v = Fraction(e.choose_value(arg, limit=64))
        name = x.decl().name()
        w = math.sqrt(v) if name == "sqrt_r" else np.dtype(name[3:]).type(v.numerator / v.denominator)
        w = z3.RealVal(Fraction(float(w)))
        e.add(x == w)
        t = z3.substitute(t, (x, w), (arg, z3.RealVal(v)))


PREC = {F64: 53, F32: 24, np.dtype(np.float16): 11}


def toreal(e):
    if isinstance(e, z3.ArithRef) and e.is_int():
        return z3.ToReal(e)
    return e


def mkint(e, lo, hi, dt):
    dmin, dmax = INT_RANGE[dt]
    if isinstance(e, int):
        v = (e - dmin) % (dmax - dmin + 1) + dmin
        return dt.type(v)
    if lo < dmin or hi > dmax:
        size = dmax - dmin + 1
        # common light cases: overflow by at most one period
        if lo >= dmin - size and hi <= dmax + size:
            e = z3.If(e > dmax, e - size, z3.If(e < dmin, e + size, e)) if lo < dmin and hi > dmax else (
                z3.If(e > dmax, e - size, e) if hi > dmax else z3.If(e < dmin, e + size, e))
        else:
            e = (e - dmin) % size + dmin
        lo, hi = dmin, dmax
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return mkint(e.as_long(), 0, 0, dt)
    return SymInt(e, lo, hi, dt)


_SQRT = z3.Function("sqrt_r", z3.RealSort(), z3.RealSort())


def s_sqrt(x, dt):
    """square root as an uninterpreted function: equal arguments have equal roots; a
    counterexample that depends on its value does not replay and is reported as inconclusive."""
    if not isinstance(x, Sym):
        with np.errstate(all="ignore"):
            return dt.type(np.sqrt(dt.type(x)))
    f = as_float_sym(x, dt)
    return SymFloat(z3.simplify(z3.If(f.r == 0, z3.RealVal(0), _SQRT(f.r))), z3.simplify(z3.Or(zb(f.nan), f.r < 0)), None, None, dt)


def mkfloat(r, nan, mag, q, dt):
    """Round r into dt; exact when provably representable."""
    r = z3.simplify(toreal(r))
    if not isinstance(nan, bool):
        nan = z3.simplify(nan)
        if z3.is_true(nan):
            return dt.type(np.nan)
        if z3.is_false(nan):
            nan = False
    elif nan is True:
        return dt.type(np.nan)
    if q is not None and mag is not None and mag * (2 ** q) <= 2 ** PREC[dt]:
        pass
    else:
        if z3.is_rational_value(r):
            fr = Fraction(r.numerator_as_long(), r.denominator_as_long())
            v = dt.type(fr.numerator / fr.denominator)
            if nan is False:
                return v
            fr = Fraction(float(v))
            return SymFloat(z3.RealVal(fr), nan, abs(fr), _qof(fr), dt)
        if not (z3.is_app(r) and r.decl().eq(fl_fn(dt))):
            if q == 0:  # whole numbers up to 2**PREC (and the int64 sentinel) are exact
                b = z3.RealVal(2 ** PREC[dt])
                r = z3.If(z3.Or(z3.And(-b <= r, r <= b), r == z3.RealVal(-(2 ** 63))), r, fl_fn(dt)(r))
            else:
                r = fl_fn(dt)(r)
        if q != 0:  # a rounded whole number is whole
            q = None
        mag = None
    if nan is False and z3.is_rational_value(r):
        fr = Fraction(r.numerator_as_long(), r.denominator_as_long())
        return dt.type(float(fr))
    return SymFloat(r, nan, mag, q, dt)


def _qof(fr):
    q = fr.denominator.bit_length() - 1
    return q


def as_float_sym(x, dt):
    """SymFloat (or python special) view of a scalar; returns SymFloat or 'inf'/'-inf'/'nan' str."""
    if isinstance(x, SymFloat):
        return x
    if isinstance(x, SymBool):
        x = x._int()
    if isinstance(x, SymInt):
        return SymFloat(z3.ToReal(x.e), False, Fraction(max(abs(x.lo), abs(x.hi))), 0, dt)
    v = float(x)
    if math.isnan(v):
        return "nan"
    if math.isinf(v):
        return "inf" if v > 0 else "-inf"
    fr = Fraction(int(x)) if isinstance(x, (int, np.integer)) else Fraction(v)
    return SymFloat(z3.RealVal(fr), False, abs(fr), _qof(fr), dt)


def dtype_of(x):
    """dtype used for scalar promotion."""
    if isinstance(x, Sym):
        return x.dtype
    if isinstance(x, (bool, np.bool_)):
        return BOOL
    if isinstance(x, int):
        return I64 if -(2 ** 63) <= x < 2 ** 63 else np.dtype(np.uint64)
    if isinstance(x, float) and not isinstance(x, np.floating):
        return F64
    if isinstance(x, np.generic):
        return x.dtype
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return x.dtype
    raise Unsupported(f"scalar of type {type(x)}")


def s_cast(x, dt):
    if isinstance(x, Sym):
        if x.dtype is dt:
            return x
        return _s_cast_m("", x, 0, dt)
    return _s_cast(x, dt)


@memo
def _s_cast_m(op, x, b, dt):
    return _s_cast(x, dt)


def _s_cast(x, dt):
    """unchecked (C / numpy 'unsafe') conversion of one scalar."""
    if isinstance(x, np.ndarray) and x.ndim == 0:
        x = x.item() if x.dtype == object else x[()]
    if dt == BOOL:
        if isinstance(x, SymBool):
            return x
        if isinstance(x, SymInt):
            return mkbool(x.e != 0)
        if isinstance(x, SymFloat):
            return mkbool(z3.Or(zb(x.nan), x.r != 0))
        return np.bool_(x)
    if dt in INT_RANGE:
        if isinstance(x, SymBool):
            i = x._int()
            return SymInt(i.e, 0, 1, dt)
        if isinstance(x, SymInt):
            return mkint(x.e, x.lo, x.hi, dt)
        if isinstance(x, SymFloat):
            # truncation toward zero; NaN -> implementation value (int min on x86)
            fl = z3.ToInt(x.r)
            if x.q == 0:
                t = fl
            else:
                t = z3.If(x.r >= 0, fl, -z3.ToInt(-x.r))
            m = x.mag
            if m is None:
                lo, hi = INT_RANGE[dt]
            else:
                lo, hi = -int(m) - 1, int(m) + 1
            if x.nan is not False:
                # NaN converts to INT_MIN-like value of the C conversion
                t = z3.If(zb(x.nan), z3.IntVal(INT_RANGE[dt][0]), t)
                lo = min(lo, INT_RANGE[dt][0])
            return mkint(t, lo, hi, dt)
        with np.errstate(all="ignore"):
            if isinstance(x, (int, np.integer)) and not isinstance(x, (bool,)):
                return mkint(int(x), 0, 0, dt)
            return np.asarray(x).astype(dt)[()]
    if dt.kind == "f":
        if isinstance(x, SymFloat):
            if x.dt == dt:
                return x
            return mkfloat(x.r, x.nan, x.mag, x.q, dt)
        if isinstance(x, (SymInt, SymBool)):
            f = as_float_sym(x, dt)
            return mkfloat(f.r, f.nan, f.mag, f.q, dt)
        return dt.type(x)
    if dt == object:
        return x
    if dt.kind in "SU":
        if isinstance(x, Sym):
            raise Unsupported("symbolic number to string")
        return np.asarray(x).astype(dt)[()]
    raise Unsupported(f"cast to {dt}")


def _conc(x):
    return not isinstance(x, Sym)


_PY = {
    "+": operator.add, "-": operator.sub, "*": operator.mul, "//": operator.floordiv, "%": operator.mod,
    "/": operator.truediv, "**": operator.pow, "&": operator.and_, "|": operator.or_, "^": operator.xor,
    "<<": operator.lshift, ">>": operator.rshift,
    "==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge,
}


@memo
def s_bin(op, a, b, dt=None):
    """scalar binary op with numpy/numba scalar promotion (or forced dtype)."""
    if isinstance(a, np.ndarray):
        a = a[()]
    if isinstance(b, np.ndarray):
        b = b[()]
    if not isinstance(a, (Sym, bool, int, float, np.generic)) or not isinstance(b, (Sym, bool, int, float, np.generic)):
        return NotImplemented
    if dt is None:
        da, db = dtype_of(a), dtype_of(b)
        if da == BOOL and db == BOOL and op in "+-*//%":
            dt = I64
        elif da == BOOL and db == BOOL:
            dt = BOOL
        else:
            dt = np.promote_types(da, db)
            # numba/numpy-scalar promotion: python ints are int64
        if op == "/" and dt.kind in "iub":
            dt = F64
    if _conc(a) and _conc(b):
        with np.errstate(all="ignore"):
            return np.asarray(_PY[op](np.asarray(a).astype(dt), np.asarray(b).astype(dt))).astype(dt)[()]
    if dt == BOOL:
        a, b = s_cast(a, BOOL), s_cast(b, BOOL)
        a, b = zb(a), zb(b)
        if op in ("&", "*"):
            return mkbool(z3.And(a, b))
        if op in ("|", "+"):
            return mkbool(z3.Or(a, b))
        if op in ("^",):
            return mkbool(z3.Xor(a, b))
        raise Unsupported(f"bool op {op}")
    if dt in INT_RANGE:
        a, b = s_cast(a, dt), s_cast(b, dt)
        return _int_op(op, a, b, dt)
    if dt.kind == "f":
        return _float_op(op, a, b, dt)
    raise Unsupported(f"op {op} on {dt}")


def _ival(x):
    if isinstance(x, SymInt):
        return x.e, x.lo, x.hi
    v = int(x)
    return v, v, v


def _int_op(op, a, b, dt):
    ea, la, ha = _ival(a)
    eb, lb, hb = _ival(b)
    if op == "+":
        return mkint(ea + eb, la + lb, ha + hb, dt)
    if op == "-":
        return mkint(ea - eb, la - hb, ha - lb, dt)
    if op == "*":
        c = [la * lb, la * hb, ha * lb, ha * hb]
        return mkint(ea * eb, min(c), max(c), dt)
    if op in ("//", "%"):
        if lb <= 0 <= hb:
            if _conc(b) or eng().branch((eb if not isinstance(eb, int) else z3.IntVal(eb)) == 0):
                return dt.type(0)  # numpy semantics: 0 with a warning
        if isinstance(eb, int):
            if isinstance(ea, int):
                return mkint(ea // eb if op == "//" else ea % eb, 0, 0, dt)
            if eb > 0:
                qv, m = ea / eb, ea % eb
                if op == "//":
                    return mkint(qv, la // eb, ha // eb, dt)
                # tighten when trivially in range
                return mkint(m, 0, eb - 1, dt)
            if eb == -1:
                return mkint(-ea, -ha, -la, dt) if op == "//" else dt.type(0)
            qv = (-ea) / (-eb)
            if op == "//":
                return mkint(qv, (-ha) // (-eb), (-la) // (-eb), dt)
            return mkint(ea - qv * eb, eb + 1, 0, dt)
        zb_ = eb
        za = ea if not isinstance(ea, int) else z3.IntVal(ea)
        # floor division
        qv = z3.If(zb_ > 0, za / zb_, (-za) / (-zb_))
        lo, hi = INT_RANGE[dt]
        if op == "//":
            return mkint(qv, lo, hi, dt)
        return mkint(za - qv * zb_, lo, hi, dt)
    if op == "&" and isinstance(eb, int) or op == "&" and isinstance(ea, int):
        e, l, h, c = (ea, la, ha, eb) if isinstance(eb, int) else (eb, lb, hb, ea)
        if c == 0:
            return dt.type(0)
        if c > 0 and (c & (c + 1)) == 0:
            return mkint(e % (c + 1), 0, c, dt)
        if c > 0 and l >= 0 and c < 2 ** 16:
            # general small mask: sum of bits
            bits = [i for i in range(c.bit_length()) if (c >> i) & 1]
            t = z3.Sum([((e / (1 << i)) % 2) * (1 << i) for i in bits])
            return mkint(t, 0, c, dt)
    if op == "<<" and isinstance(eb, int):
        return mkint(ea * (1 << eb), la << eb, ha << eb, dt)
    if op == ">>" and isinstance(eb, int):
        return mkint(ea / (1 << eb), la >> eb, ha >> eb, dt)
    if op == "**":
        if isinstance(eb, int) and 0 <= eb <= 4:
            r = mkint(1, 1, 1, dt)
            for _ in range(eb):
                r = _int_op("*", r, a, dt)
            return r
    if op in ("&", "|", "^"):
        w = dt.itemsize * 8
        za = z3.Int2BV(ea if not isinstance(ea, int) else z3.IntVal(ea), w)
        zb_ = z3.Int2BV(eb if not isinstance(eb, int) else z3.IntVal(eb), w)
        r = {"&": za & zb_, "|": za | zb_, "^": za ^ zb_}[op]
        lo, hi = INT_RANGE[dt]
        return mkint(z3.BV2Int(r, lo < 0), lo, hi, dt)
    raise Unsupported(f"int op {op}")


def _or(*xs):
    ys = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        ys.append(x)
    if not ys:
        return False
    return z3.Or(*ys) if len(ys) > 1 else ys[0]


def _float_op(op, a, b, dt):
    fa, fb = as_float_sym(a, dt), as_float_sym(b, dt)
    if isinstance(fa, SymFloat) and fa.dt != dt:
        fa = s_cast(fa, dt)
        fa = as_float_sym(fa, dt)
    if isinstance(fb, SymFloat) and fb.dt != dt:
        fb = as_float_sym(s_cast(fb, dt), dt)
    # integers entering a float op are first converted (rounded)
    for nm, f in (("a", fa), ("b", fb)):
        if isinstance(f, SymFloat) and f.mag is not None and f.q is not None and f.mag * 2 ** f.q > 2 ** PREC[dt]:
            g = as_float_sym(mkfloat(f.r, f.nan, f.mag, f.q, dt), dt)
            if nm == "a":
                fa = g
            else:
                fb = g
    if isinstance(fa, str) or isinstance(fb, str):
        if fa == "nan" or fb == "nan":
            return dt.type(np.nan)
        # infinities: only +/- with finite are modelled
        if isinstance(fa, str) and isinstance(fb, str):
            return dt.type(_PY[op](float(fa), float(fb)))
        sym = fb if isinstance(fa, str) else fa
        inf = float(fa) if isinstance(fa, str) else float(fb)
        if sym.nan is not False and eng().branch(zb(sym.nan)):
            return dt.type(np.nan)
        if op == "+":
            return dt.type(inf)
        if op == "-":
            return dt.type(inf if isinstance(fa, str) else -inf)
        if op == "/" and isinstance(fb, str):
            return dt.type(0.0)
        raise Unsupported(f"float op {op} with infinity")
    nan = _or(fa.nan, fb.nan)
    known = fa.mag is not None and fb.mag is not None
    qk = fa.q is not None and fb.q is not None
    if op in "+-":
        r = fa.r + fb.r if op == "+" else fa.r - fb.r
        return mkfloat(r, nan, fa.mag + fb.mag if known else None, max(fa.q, fb.q) if qk else None, dt)
    if op == "*":
        return mkfloat(fa.r * fb.r, nan, fa.mag * fb.mag if known else None, fa.q + fb.q if qk else None, dt)
    if op in ("/", "//", "%"):
        rb = z3.simplify(toreal(fb.r))
        if z3.is_rational_value(rb):
            if rb.numerator_as_long() == 0:
                if nan is not False and eng().branch(zb(nan)):
                    return dt.type(np.nan)
                if eng().branch(fa.r == 0):
                    return dt.type(np.nan)
                if op == "%":
                    return dt.type(np.nan)
                return dt.type(np.inf if eng().branch(fa.r > 0) else -np.inf)
        else:
            if eng().branch(z3.And(fb.r == 0, z3.Not(zb(fb.nan)))):
                if nan is not False and eng().branch(zb(nan)):
                    return dt.type(np.nan)
                if eng().branch(fa.r == 0) or op == "%":
                    return dt.type(np.nan)
                return dt.type(np.inf if eng().branch(fa.r > 0) else -np.inf)
        if op == "/":
            mag = q = None
            if z3.is_rational_value(rb) and known and qk:
                fr = Fraction(rb.numerator_as_long(), rb.denominator_as_long())
                if fr.numerator in (1, -1) or (abs(fr.numerator) & (abs(fr.numerator) - 1)) == 0:
                    # division by a power of two is exact
                    inv = 1 / fr
                    mag = fa.mag * abs(inv)
                    q = fa.q + _qof(inv)
            return mkfloat(fa.r / fb.r, nan, mag, q, dt)
        # floor: exact when both exact integers in range
        if fa.q == 0 and fb.q == 0 and known and fa.mag <= 2 ** PREC[dt]:
            ia, ib = z3.ToInt(fa.r), z3.ToInt(fb.r)
            fl = z3.If(ib > 0, ia / ib, (-ia) / (-ib))
            fl = z3.simplify(fl)
            if op == "//":
                return mkfloat(z3.ToReal(fl), nan, fa.mag, 0, dt)
            return mkfloat(z3.ToReal(ia - fl * ib), nan, max(fa.mag, fb.mag), 0, dt)
        flr = z3.ToReal(z3.ToInt(fa.r / fb.r))
        if op == "//":
            return mkfloat(fl_fn(dt)(flr), nan, None, None, dt)
        return mkfloat(fl_fn(dt)(fa.r - flr * fb.r), nan, None, None, dt)
    if op == "**":
        rb = z3.simplify(toreal(fb.r))
        if z3.is_rational_value(rb) and rb.denominator_as_long() == 1 and 0 <= rb.numerator_as_long() <= 3:
            r = dt.type(1)
            for _ in range(rb.numerator_as_long()):
                r = _float_op("*", r, a, dt)
            return r
    raise Unsupported(f"float op {op}")


@memo
def s_cmp(op, a, b, _dt=None):
    """Comparison with mathematical (not promoted) integer compare; floats IEEE."""
    if isinstance(a, np.ndarray):
        a = a[()]
    if isinstance(b, np.ndarray):
        b = b[()]
    if _conc(a) and _conc(b):
        return np.bool_(_PY[op](a, b))
    if isinstance(a, SymBool):
        a = a._int()
    if isinstance(b, SymBool):
        b = b._int()
    ka = isinstance(a, SymFloat) or isinstance(a, (float, np.floating))
    kb = isinstance(b, SymFloat) or isinstance(b, (float, np.floating))
    if not ka and not kb:
        ea, la, ha = _ival(a)
        eb, lb, hb = _ival(b)
        if op == "<":
            if ha < lb:
                return np.True_
            if la >= hb:
                return np.False_
            return mkbool(ea < eb)
        if op == "<=":
            if ha <= lb:
                return np.True_
            if la > hb:
                return np.False_
            return mkbool(ea <= eb)
        if op in (">", ">="):
            return s_cmp("<" if op == ">" else "<=", b, a)
        if ha < lb or hb < la:
            return np.bool_(op == "!=")
        return mkbool(ea == eb if op == "==" else ea != eb)
    fa, fb = as_float_sym(a, F64), as_float_sym(b, F64)
    # int -> float rounding in mixed compares
    if isinstance(fa, SymFloat) and not isinstance(a, SymFloat):
        fa = as_float_sym(mkfloat(fa.r, fa.nan, fa.mag, fa.q, F64), F64)
    if isinstance(fb, SymFloat) and not isinstance(b, SymFloat):
        fb = as_float_sym(mkfloat(fb.r, fb.nan, fb.mag, fb.q, F64), F64)
    if fa == "nan" or fb == "nan":
        return np.bool_(op == "!=")
    if isinstance(fa, str) or isinstance(fb, str):
        if isinstance(fa, str) and isinstance(fb, str):
            return np.bool_(_PY[op](float(fa), float(fb)))
        va = float(fa) if isinstance(fa, str) else 0.0
        vb = float(fb) if isinstance(fb, str) else 0.0
        res = bool(_PY[op](va, vb))
        nan = fa.nan if isinstance(fa, SymFloat) else fb.nan
        if op == "!=":
            return np.True_
        return mkbool(z3.And(z3.Not(zb(nan)), z3.BoolVal(res)))
    nan = _or(fa.nan, fb.nan)
    ra, rb = toreal(fa.r), toreal(fb.r)
    e = {"<": ra < rb, "<=": ra <= rb, ">": ra > rb, ">=": ra >= rb, "==": ra == rb, "!=": ra != rb}[op]
    if nan is False:
        return mkbool(e)
    if op == "!=":
        return mkbool(z3.Or(nan, e))
    return mkbool(z3.And(z3.Not(nan), e))


def s_isnan(x):
    if isinstance(x, SymFloat):
        return mkbool(zb(x.nan)) if not isinstance(x.nan, bool) else np.bool_(x.nan)
    if isinstance(x, Sym):
        return np.False_
    try:
        return np.bool_(np.isnan(x))
    except TypeError:
        return np.False_


def s_where(c, a, b, dt=None):
    """if-then-else on scalars (no forking)."""
    c = as_z3bool(c)
    if not isinstance(c, bool):
        return _s_where_m(c.get_id(), a, b, dt, c)
    return _s_where(c, a, b, dt)


def _s_where_m(cid, a, b, dt, c):
    ka, kb = _mk(a), _mk(b)
    if ka is None or kb is None:
        return _s_where(c, a, b, dt)
    key = ("w", cid, ka, kb, None if dt is None else dt.num)
    r = _MEMO.get(key)
    if r is not None:
        return r[0]
    n = len(Engine.cur.trace)
    r = _s_where(c, a, b, dt)
    if len(Engine.cur.trace) == n:
        _MEMO[key] = (r, a, b, c)
    return r


def _s_where(c, a, b, dt=None):
    if c is True:
        return a if dt is None else s_cast(a, dt)
    if c is False:
        return b if dt is None else s_cast(b, dt)
    if isinstance(a, (SymBytes, bytes, str)) and isinstance(b, (SymBytes, bytes, str)):
        if not isinstance(a, SymBytes) and not isinstance(b, SymBytes) and a == b:
            return a
        return SymBytes.ite(c, a, b)
    if dt is None:
        dt = np.promote_types(dtype_of(a), dtype_of(b))
    if dt.kind in "SU" or dt == object:
        return a if eng().branch(c) else b
    a, b = s_cast(a, dt), s_cast(b, dt)
    if dt == BOOL:
        return mkbool(z3.If(c, zb(a), zb(b)))
    if dt in INT_RANGE:
        ea, la, ha = _ival(a)
        eb, lb, hb = _ival(b)
        if _conc(a) and _conc(b) and ea == eb:
            return a
        return mkint(z3.If(c, ea, eb), min(la, lb), max(ha, hb), dt)
    fa, fb = as_float_sym(a, dt), as_float_sym(b, dt)
    if fa == "nan" and fb == "nan":
        return dt.type(np.nan)
    if fa in ("inf", "-inf") or fb in ("inf", "-inf"):
        return a if eng().branch(c) else b
    if fa == "nan":
        return mkfloat_raw(fb.r, z3.Or(c, zb(fb.nan)), fb.mag, fb.q, dt)
    if fb == "nan":
        return mkfloat_raw(fa.r, z3.Or(z3.Not(c), zb(fa.nan)), fa.mag, fa.q, dt)
    mag = max(fa.mag, fb.mag) if fa.mag is not None and fb.mag is not None else None
    q = max(fa.q, fb.q) if fa.q is not None and fb.q is not None else None
    nan = False if fa.nan is False and fb.nan is False else z3.If(c, zb(fa.nan), zb(fb.nan))
    return mkfloat_raw(z3.If(c, toreal(fa.r), toreal(fb.r)), nan, mag, q, dt)


def mkfloat_raw(r, nan, mag, q, dt):
    """value already representable: no rounding."""
    r = z3.simplify(toreal(r))
    if not isinstance(nan, bool):
        nan = z3.simplify(nan)
        if z3.is_true(nan):
            return dt.type(np.nan)
        if z3.is_false(nan):
            nan = False
    elif nan:
        return dt.type(np.nan)
    if nan is False and z3.is_rational_value(r):
        return dt.type(float(Fraction(r.numerator_as_long(), r.denominator_as_long())))
    return SymFloat(r, nan, mag, q, dt)


class SymBytes(Sym):
    """fixed-capacity byte (or code point) string element: list of n codes (ints or SymInt)."""

    __slots__ = ("c", "dt")

    def __init__(self, codes, dt):
        self.c = list(codes)
        self.dt = dt

    @property
    def dtype(self):
        return self.dt

    @property
    def itemsize(self):
        return self.dt.itemsize

    @staticmethod
    def codes_of(x, n=None):
        if isinstance(x, SymBytes):
            c = list(x.c)
        elif isinstance(x, str):
            c = [ord(ch) for ch in x]
        else:
            c = list(bytes(x))
        if n is not None:
            c = (c + [0] * n)[:n]
        return c

    @staticmethod
    def ite(c, a, b):
        n = max(len(SymBytes.codes_of(a)), len(SymBytes.codes_of(b)))
        ca, cb = SymBytes.codes_of(a, n), SymBytes.codes_of(b, n)
        sym = a if isinstance(a, SymBytes) else b
        kind = sym.dt.kind if isinstance(sym, SymBytes) else "U" if isinstance(sym, str) else "S"
        cdt = np.dtype(np.uint8 if kind == "S" else np.uint32)
        return SymBytes([s_where(c, x, y, cdt) for x, y in zip(ca, cb)], np.dtype(f"{kind}{n}"))

    def _eq(self, o):
        n = max(len(self.c), len(SymBytes.codes_of(o)))
        ca, cb = SymBytes.codes_of(self, n), SymBytes.codes_of(o, n)
        return z3.And(*[zb(s_cmp("==", x, y)) for x, y in zip(ca, cb)]) if n else z3.BoolVal(True)

    def __eq__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if not isinstance(o, (SymBytes, bytes, str)):
            return False
        return mkbool(self._eq(o))

    def __ne__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if not isinstance(o, (SymBytes, bytes, str)):
            return True
        return mkbool(z3.Not(self._eq(o)))

    __hash__ = Sym.__hash__

    def _lt(self, o, strict):
        n = max(len(self.c), len(SymBytes.codes_of(o)))
        ca, cb = SymBytes.codes_of(self, n), SymBytes.codes_of(o, n)
        r = z3.BoolVal(not strict)
        for x, y in reversed(list(zip(ca, cb))):
            r = z3.Or(zb(s_cmp("<", x, y)), z3.And(zb(s_cmp("==", x, y)), r))
        return r

    def __lt__(self, o):
        return mkbool(self._lt(o, True))

    def __le__(self, o):
        return mkbool(self._lt(o, False))

    def __gt__(self, o):
        return mkbool(z3.Not(self._lt(o, False)))

    def __ge__(self, o):
        return mkbool(z3.Not(self._lt(o, True)))

    def __repr__(self):
        return f"SymBytes({self.c})"

    def __len__(self):
        # logical length: strip trailing zeros, forking
        n = len(self.c)
        while n > 0 and s_cmp("==", self.c[n - 1], 0):
            n -= 1
        return n
