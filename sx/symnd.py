"""SymNd: an ndarray subclass whose elements may be symbolic.

Storage is a numpy object array; `dtype` reports the declared dtype.  An array
without symbolic elements may also use ordinary (typed) storage; it is promoted
in place when a symbolic value is written into it.
"""
import sys, operator, abc
import numpy as np
import z3
from .engine import *
from . import engine as E

OBJ = np.dtype(object)
_nd = np.ndarray
_real_dtype = _nd.dtype.__get__


def rdt(a):
    return _real_dtype(a)


def is_snd(a):
    """really a SymNd (isinstance() is widened to every ndarray)."""
    return SymNd in type(a).__mro__


def isobj(a):
    """symbolic (object) storage with a lying dtype?"""
    return is_snd(a) and "_sdt" in a.__dict__ and _real_dtype(a) == OBJ


class _Meta(abc.ABCMeta):
    def __instancecheck__(cls, obj):
        if cls is SymNd:
            return isinstance(obj, _nd)
        return abc.ABCMeta.__instancecheck__(cls, obj)

    def __subclasscheck__(cls, sub):
        if cls is SymNd:
            return issubclass(sub, _nd)
        return abc.ABCMeta.__subclasscheck__(cls, sub)


def _plain(a):
    return _nd.view(a, _nd)


def elems(a):
    """flat list of normalised elements."""
    if isinstance(a, Sym) or not isinstance(a, _nd):
        return [a]
    p = _plain(a)
    if isobj(a):
        dt = a.__dict__["_sdt"]
        if dt == OBJ:
            return list(p.ravel())
        return [norm(x, dt) for x in p.ravel()]
    return list(p.ravel())


def norm(x, dt):
    if isinstance(x, Sym):
        if x.dtype == dt or dt.kind in "SUO":
            return x
        return reinterpret(x, dt)
    if isinstance(x, np.generic) and x.dtype == dt:
        return x
    if dt.kind in "SUO":
        return x
    if x is None:
        return dt.type(0)
    if isinstance(x, np.generic) and x.dtype.itemsize == dt.itemsize:
        return x.view(dt) if x.dtype.kind != "b" or dt.kind in "iu" else s_cast(x, dt)
    return s_cast(x, dt)


def reinterpret(x, dt):
    sd = x.dtype
    if sd.itemsize == dt.itemsize and sd.kind in "iub" and dt.kind in "iub":
        return s_cast(x, dt)
    if sd.kind in "iub" and dt.kind in "iub" or sd.kind == "f" and dt.kind == "f" or dt.kind in "f" and sd.kind in "iub":
        return s_cast(x, dt)
    raise Unsupported(f"reinterpret {sd} as {dt}")


def has_sym(a):
    if isinstance(a, Sym):
        return True
    if isinstance(a, _nd):
        if isobj(a):
            for x in _plain(a).ravel():
                if isinstance(x, Sym):
                    return True
            return False
        return False
    if isinstance(a, (list, tuple)):
        return any(has_sym(x) for x in a)
    if isinstance(a, dict):
        return any(has_sym(x) for x in a.values())
    return False


def any_obj(a):
    if isinstance(a, _nd):
        return isobj(a)
    if isinstance(a, (list, tuple)):
        return any(any_obj(x) for x in a)
    if isinstance(a, dict):
        return any(any_obj(x) for x in a.values())
    return isinstance(a, Sym)


def demote(a):
    """typed-storage array equal to `a` (which must have no symbolic element)."""
    if not isobj(a):
        return a
    dt = a.__dict__["_sdt"]
    r = _nd.__new__(type(a), a.shape, dt)
    p = _plain(r)
    for i, x in zip(np.ndindex(*a.shape), elems(a)):
        p[i] = x
    for k, v in a.__dict__.items():
        if k != "_sdt":
            r.__dict__[k] = v
    return r


def conc_scalar(x, limit=64):
    """concretise one symbolic scalar, forking over its values (choose_value records when there are too many)."""
    e = eng()
    if isinstance(x, SymBool):
        return np.bool_(e.branch(x.e))
    if isinstance(x, SymInt):
        return x.dt.type(e.choose_value(x.e, limit=limit, cut=True))
    if isinstance(x, SymFloat):
        if x.nan is not False and e.branch(zb(x.nan)):
            return x.dt.type(np.nan)
        v = e.choose_value(x.r, limit=limit, cut=True)
        return x.dt.type(float(v))
    if isinstance(x, SymBytes):
        cs = [c if not isinstance(c, Sym) else int(conc_scalar(c, limit)) for c in x.c]
        if x.dt.kind == "S":
            return np.bytes_(bytes(int(c) for c in cs))
        return np.str_("".join(chr(int(c)) for c in cs))
    raise Unsupported(f"concretise {type(x)}")


def concretise(a, why=""):
    """typed concrete version of anything (forks over every value)."""
    if isinstance(a, Sym):
        eng().note_forked(why)
        return conc_scalar(a)
    if isinstance(a, _nd):
        if isobj(a):
            if has_sym(a):
                eng().note_forked(why)
                dt = a.__dict__["_sdt"]
                vals = [conc_scalar(x) if isinstance(x, Sym) else x for x in elems(a)]
                r = mk(vals, dt, a.shape, type(a))
                for k, v in a.__dict__.items():
                    if k != "_sdt":
                        r.__dict__[k] = v
                # remember: the path now fixes these elements
                p = _plain(a)
                for i, v in zip(np.ndindex(*a.shape), vals):
                    p[i] = v
                return r
            return demote(a)
        return a
    if type(a) is list:
        return [concretise(x, why) for x in a]
    if type(a) is tuple:
        return tuple(concretise(x, why) for x in a)
    if type(a) is dict:
        return {k: concretise(x, why) for k, x in a.items()}
    return a


def mk(vals, dt, shape=None, cls=None, force=False):
    """build an array from a flat element list."""
    dt = np.dtype(dt)
    if cls is None:
        cls = SymNd
    if shape is None:
        shape = (len(vals),)
    if isinstance(shape, (int, np.integer)):
        shape = (int(shape),)
    if force or (dt != OBJ and any(isinstance(v, Sym) for v in vals)):
        r = _nd.__new__(cls, shape, OBJ)
        p = _plain(r).reshape(-1)
        for i, v in enumerate(vals):
            p[i] = v
        r.__dict__["_sdt"] = dt
        return r
    r = _nd.__new__(cls, shape, dt)
    p = _plain(r).reshape(-1)
    for i, v in enumerate(vals):
        p[i] = v
    if dt == OBJ:
        r.__dict__["_sdt"] = dt
    return r


def promote(a):
    """switch to object storage in place."""
    if isobj(a):
        return True
    if _real_dtype(a) == OBJ:
        if is_snd(a):
            a.__dict__["_sdt"] = OBJ
        return True
    if not is_snd(a):
        return False
    dt = _real_dtype(a)
    if dt.kind not in "biufSU":
        return False
    if a.base is not None and sys.getrefcount(a.base) > 3:
        return False
    vals = list(_plain(a).ravel())
    shape = a.shape
    d = dict(a.__dict__)
    _nd.__setstate__(a, (1, shape, OBJ, False, vals))
    a.__dict__.update(d)
    a.__dict__["_sdt"] = dt
    return True


def _copy_attrs(dst, src):
    for k, v in src.__dict__.items():
        if k != "_sdt":
            dst.__dict__.setdefault(k, v)


def fin(r, dt):
    """tag a numpy result carrying object storage."""
    if is_snd(r) and _real_dtype(r) == OBJ:
        r.__dict__["_sdt"] = dt
    return r


# ---------------------------------------------------------------------------
# scalar kernels
# ---------------------------------------------------------------------------
_BIN = {
    "add": "+", "subtract": "-", "multiply": "*", "floor_divide": "//", "remainder": "%", "divide": "/",
    "true_divide": "/", "power": "**", "bitwise_and": "&", "bitwise_or": "|", "bitwise_xor": "^",
    "left_shift": "<<", "right_shift": ">>",
}
_CMP = {"equal": "==", "not_equal": "!=", "less": "<", "less_equal": "<=", "greater": ">", "greater_equal": ">="}


def s_minmax(a, b, dt, is_max, ignore_nan):
    a, b = s_cast(a, dt), s_cast(b, dt)
    if dt == BOOL:
        return mkbool(z3.Or(zb(a), zb(b)) if is_max else z3.And(zb(a), zb(b)))
    take_a = s_cmp(">=" if is_max else "<=", a, b)
    if dt.kind == "f":
        na, nb = s_isnan(a), s_isnan(b)
        if ignore_nan:
            c = mkbool(z3.Or(zb(take_a), zb(nb)))
        else:
            c = mkbool(z3.Or(zb(na), z3.And(z3.Not(zb(nb)), zb(take_a))))
        return s_where(c, a, b, dt)
    return s_where(take_a, a, b, dt)


def s_sign(a, dt):
    z = dt.type(0)
    r = s_where(s_cmp("<", a, 0), dt.type(-1) if dt.kind != "u" else z, z, dt)
    r = s_where(s_cmp(">", a, 0), dt.type(1), r, dt)
    if dt.kind == "f":
        r = s_where(s_isnan(a), dt.type(np.nan), r, dt)
    return r


def s_round(a, how, dt):
    if dt.kind != "f":
        return s_cast(a, dt)
    if not isinstance(a, Sym):
        return dt.type({"floor": np.floor, "ceil": np.ceil, "trunc": np.trunc, "rint": np.rint}[how](a))
    a = s_cast(a, dt)
    if not isinstance(a, SymFloat):
        return dt.type({"floor": np.floor, "ceil": np.ceil, "trunc": np.trunc, "rint": np.rint}[how](a))
    r = a.r
    if how == "floor":
        t = z3.ToInt(r)
    elif how == "ceil":
        t = -z3.ToInt(-r)
    elif how == "trunc":
        t = z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))
    else:
        f = z3.ToInt(r)
        d = r - z3.ToReal(f)
        half = z3.RealVal("1/2")
        t = z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))
    return mkfloat_raw(z3.ToReal(t), a.nan, None if a.mag is None else a.mag + 1, 0 if a.mag is not None else None, dt)


def _unary(name, x, dt):
    if name in ("negative",):
        x = s_cast(x, dt)
        return -x if isinstance(x, Sym) else dt.type(np.negative(x))
    if name in ("absolute", "fabs"):
        x = s_cast(x, dt)
        return abs(x)
    if name == "positive":
        return s_cast(x, dt)
    if name == "invert":
        if isinstance(x, Sym):
            return ~x
        return np.invert(x)
    if name == "logical_not":
        b = s_cast(x, BOOL)
        return mkbool(z3.Not(zb(b)))
    if name == "isnan":
        return s_isnan(x)
    if name == "isfinite":
        if isinstance(x, Sym):
            return mkbool(z3.Not(zb(s_isnan(x))))
        return np.bool_(np.isfinite(x))
    if name == "isinf":
        if isinstance(x, Sym):
            return np.False_
        return np.bool_(np.isinf(x))
    if name == "signbit":
        return s_cmp("<", x, 0)
    if name == "sign":
        return s_sign(x, dt)
    if name in ("floor", "ceil", "trunc", "rint"):
        return s_round(x, name, dt)
    if name == "square":
        return s_bin("*", x, x, dt)
    if name == "reciprocal":
        return s_bin("/", dt.type(1), x, dt)
    raise Unsupported(f"ufunc {name}")


def _binary(name, a, b, dt):
    if name in _CMP:
        if isinstance(a, SymBytes) or isinstance(b, SymBytes):
            a_, b_ = (a, b) if isinstance(a, SymBytes) else (SymBytes(SymBytes.codes_of(a), b.dt), b)
            return {"==": a_.__eq__, "!=": a_.__ne__, "<": a_.__lt__, "<=": a_.__le__, ">": a_.__gt__, ">=": a_.__ge__}[_CMP[name]](b_)
        return s_cmp(_CMP[name], a, b)
    if name in _BIN:
        return s_bin(_BIN[name], a, b, dt)
    if name in ("maximum", "minimum", "fmax", "fmin"):
        return s_minmax(a, b, dt, name in ("maximum", "fmax"), name[0] == "f")
    if name in ("logical_and", "logical_or", "logical_xor"):
        x, y = zb(s_cast(a, BOOL)), zb(s_cast(b, BOOL))
        return mkbool({"logical_and": z3.And, "logical_or": z3.Or, "logical_xor": z3.Xor}[name](x, y))
    if name == "fmod":
        raise Unsupported("fmod")
    raise Unsupported(f"ufunc {name}")


def rep_of(x):
    """representative concrete operand for numpy's dtype resolution."""
    if isinstance(x, SymInt):
        v = x.hi if abs(x.hi) >= abs(x.lo) else x.lo
        return x.dt.type(v)
    if isinstance(x, Sym):
        if isinstance(x, SymBytes):
            return np.bytes_(b"a" * max(1, len(x.c))) if x.dt.kind == "S" else np.str_("a" * max(1, len(x.c)))
        return x.dtype.type(1)
    if isinstance(x, _nd):
        if x.ndim == 0:
            if isobj(x):
                return rep_of(_plain(x)[()])
            return _plain(x)[()]
        dt = x.dtype
        return np.ones((1,) * x.ndim, dtype=dt) if dt.kind not in "SU" else np.zeros((1,) * x.ndim, dtype=dt)
    return x


def ufunc_dtype(ufunc, inputs, **kw):
    with np.errstate(all="ignore"):
        r = ufunc(*[rep_of(x) for x in inputs], **kw)
    if isinstance(r, tuple):
        return tuple(np.asarray(x).dtype for x in r)
    return np.asarray(r).dtype


def _bshape(inputs):
    shapes = [x.shape for x in inputs if isinstance(x, _nd)]
    return np.broadcast_shapes(*shapes) if shapes else ()


def _belems(x, shape):
    if isinstance(x, _nd):
        if isobj(x):
            el = np.empty(x.shape, dtype=object)
            flat = el.reshape(-1)
            for i, v in enumerate(elems(x)):
                flat[i] = v
            return list(np.broadcast_to(el, shape).ravel())
        return list(np.broadcast_to(_plain(x), shape).ravel())
    n = 1
    for s in shape:
        n *= s
    return [x] * n


def sym_ufunc(ufunc, method, inputs, kwargs, cls=None):
    name = ufunc.__name__
    out = kwargs.pop("out", None)
    where = kwargs.pop("where", True)
    if out is not None and isinstance(out, tuple):
        out_t = out
        out = out[0]
    inputs = tuple(np.asarray(x) if isinstance(x, (list, tuple)) and not has_sym(x) else
                   (mklist(x) if isinstance(x, (list, tuple)) else x) for x in inputs)
    if method == "__call__":
        kwargs.pop("casting", None), kwargs.pop("order", None), kwargs.pop("subok", None)
        kw = {k: v for k, v in kwargs.items() if k == "dtype" and v is not None}
        shape = _bshape(inputs)
        if any(isinstance(x, Sym) and isinstance(x, SymBytes) or (isinstance(x, _nd) and x.dtype.kind in "SU") for x in inputs):
            if name not in _CMP:
                raise Unsupported(f"ufunc {name} on strings")
            dt = BOOL
        else:
            dt = ufunc_dtype(ufunc, inputs, **kw)
        if ufunc.nout == 1:
            cols = [_belems(x, shape) for x in inputs]
            if ufunc.nin == 1:
                vals = [_unary(name, a, dt) for a in cols[0]]
            elif ufunc.nin == 2:
                vals = [_binary(name, a, b, dt) for a, b in zip(*cols)]
            else:
                raise Unsupported(f"ufunc {name}")
            if out is not None:
                if where is not True:
                    w = _belems(where, shape)
                    old = elems(out)
                    vals = [s_where(c, v, o, out.dtype) for c, v, o in zip(w, vals, old)]
                out.reshape(-1)[...] = mk(vals, dt) if shape != () else vals[0]
                return out
            if shape == () and not any(isinstance(x, _nd) and x.ndim == 0 for x in ()):
                return vals[0]
            return mk(vals, dt, shape, cls or SymNd)
        if name == "divmod":
            return (sym_ufunc(np.floor_divide, "__call__", inputs, dict(kwargs), cls), sym_ufunc(np.remainder, "__call__", inputs, dict(kwargs), cls))
        raise Unsupported(f"ufunc {name} with {ufunc.nout} outputs")
    if method == "reduce":
        a = inputs[0]
        axis = kwargs.get("axis", 0)
        keep = kwargs.get("keepdims", False)
        dtype = kwargs.get("dtype", None)
        initial = kwargs.get("initial", None)
        if axis is not None and a.ndim == 1 and axis in (0, -1, (0,)):
            axis = None
        if axis is not None:
            if a.ndim == 2 and axis in (0, 1, -1, -2):
                m = a if axis in (1, -1) else a.T
                res = [sym_ufunc(ufunc, "reduce", (m[i],), dict(axis=None, dtype=dtype)) for i in range(m.shape[0])]
                return mk(res, dtype_of(res[0]), cls=cls)
            raise Unsupported("reduce axis")
        with np.errstate(all="ignore"):
            dt = np.asarray(ufunc.reduce(np.ones(1, a.dtype), **({"dtype": dtype} if dtype else {}))).dtype
        xs = elems(a)
        if where is not True:
            w = _belems(where, a.shape)
            ident = ufunc.identity
            xs = [s_where(c, x, ident if ident is not None else xs[0], dt if name in _BIN else a.dtype) for c, x in zip(w, xs)]
        if initial is not None and initial is not np._NoValue:
            xs = [initial] + xs
        if not xs:
            r = np.asarray(ufunc.reduce(np.ones(0, a.dtype))).astype(dt)[()]
        else:
            r = s_cast(xs[0], dt) if name not in ("logical_and", "logical_or") else s_cast(xs[0], BOOL)
            for x in xs[1:]:
                r = _binary(name, r, x, dt)
        if keep:
            return mk([r], dt, (1,) * a.ndim, cls)
        if out is not None:
            out[...] = r
            return out
        return r
    if method == "accumulate":
        a = inputs[0]
        if a.ndim != 1:
            raise Unsupported("accumulate ndim")
        dtype = kwargs.get("dtype", None)
        with np.errstate(all="ignore"):
            dt = ufunc.accumulate(np.ones(1, a.dtype), **({"dtype": dtype} if dtype else {})).dtype
        vals, r = [], None
        for x in elems(a):
            r = s_cast(x, dt) if r is None else _binary(name, r, x, dt)
            vals.append(r)
        if out is not None:
            out[...] = mk(vals, dt)
            return out
        return mk(vals, dt, cls=cls)
    if method == "at":
        a, idx = inputs[0], inputs[1]
        b = inputs[2] if len(inputs) > 2 else None
        ids = [int(i) for i in elems(idx)]
        bs = _belems(b, (len(ids),)) if b is not None else None
        for k, i in enumerate(ids):
            a[i] = _binary(name, a[i], bs[k], a.dtype) if bs is not None else _unary(name, a[i], a.dtype)
        return None
    if method == "outer":
        a, b = inputs
        return sym_ufunc(ufunc, "__call__", (a.reshape(a.shape + (1,) * b.ndim), b), kwargs, cls)
    raise Unsupported(f"ufunc method {method}")


def mklist(x):
    """list (maybe nested one level) with symbolic scalars -> SymNd"""
    if any(isinstance(v, (list, tuple, _nd)) and not (isinstance(v, _nd) and v.ndim == 0) for v in x):
        rows = [elems(v) if isinstance(v, _nd) else list(v) for v in x]
        flat = [v for r in rows for v in r]
        m = mklist(flat)
        return m.reshape(len(rows), -1)
    vals = [v[()] if isinstance(v, _nd) and v.ndim == 0 else v for v in x]
    if any(isinstance(v, SymBytes) for v in vals):
        kind = [v.dt.kind for v in vals if isinstance(v, SymBytes)][0]
        n = max(len(SymBytes.codes_of(v)) for v in vals)
        return mk(vals, f"{kind}{n}")
    if any(isinstance(v, str) for v in vals) or any(v is None for v in vals):
        return mk(vals, OBJ)
    # numpy's array([...]) promotion of scalars; python ints are int64
    dts = []
    for v in vals:
        dts.append(dtype_of(v))
    dt = dts[0]
    for d in dts[1:]:
        dt = np.promote_types(dt, d)
    return mk([s_cast(v, dt) for v in vals], dt)


# ---------------------------------------------------------------------------
class SymNd(np.ndarray, metaclass=_Meta):
    def __new__(cls, *a, **k):
        if a and is_snd(a[0]):
            return _nd.view(a[0], cls)
        return _nd.__new__(cls, *a, **k)

    def __init_subclass__(cls, **kw):
        super().__init_subclass__(**kw)
        f = cls.__dict__.get("__array_finalize__")
        if f is not None:
            def wrapped(self, obj, _f=f):
                if is_snd(obj) and "_sdt" in obj.__dict__ and _real_dtype(self) == OBJ:
                    self.__dict__["_sdt"] = obj.__dict__["_sdt"]
                return _f(self, obj)
            cls.__array_finalize__ = wrapped

    def __array_finalize__(self, obj):
        if is_snd(obj) and "_sdt" in obj.__dict__ and _real_dtype(self) == OBJ:
            self.__dict__["_sdt"] = obj.__dict__["_sdt"]

    # -- metadata ----------------------------------------------------------
    @property
    def dtype(self):
        d = self.__dict__.get("_sdt")
        if d is not None and _real_dtype(self) == OBJ:
            return d
        return _real_dtype(self)

    @dtype.setter
    def dtype(self, v):
        if isobj(self):
            self.__dict__["_sdt"] = np.dtype(v)
        else:
            _nd.dtype.__set__(self, v)

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def nbytes(self):
        return self.dtype.itemsize * self.size

    @property
    def strides(self):
        s = _nd.strides.__get__(self)
        if isobj(self):
            k = self.dtype.itemsize
            return tuple(x // 8 * k for x in s)
        return s

    @property
    def T(self):
        return self.transpose()

    @property
    def flat(self):
        if isobj(self):
            return iter(elems(self))
        return _nd.flat.__get__(self)

    @property
    def real(self):
        return self

    @property
    def data(self):
        if isobj(self):
            return _nd.data.__get__(demote(concretise(self, "data")))
        return _nd.data.__get__(self)

    # -- element access ----------------------------------------------------
    def __getitem__(self, idx):
        if isobj(self):
            return _sym_getitem(self, idx)
        if has_symidx(idx):
            if promote_copy_ok(idx):
                return _sym_getitem(as_obj(self), idx)
        if any_obj(idx):
            idx = demote_idx(idx)
        return _nd.__getitem__(self, idx)

    def __setitem__(self, idx, v):
        _sym_setitem(self, idx, v)

    def __iter__(self):
        if isobj(self):
            if self.ndim == 1:
                return iter([self[i] for i in range(len(self))])
            return iter([self[i] for i in range(self.shape[0])])
        return _nd.__iter__(self)

    def item(self, *a):
        if isobj(self):
            if not a:
                return elems(self)[0]
            return self[a[0] if len(a) == 1 else a]
        return _nd.item(self, *a)

    def tolist(self):
        if isobj(self):
            if self.ndim == 1:
                return [x if isinstance(x, Sym) else (x.item() if isinstance(x, np.generic) else x) for x in elems(self)]
            return [r.tolist() for r in self]
        return _nd.tolist(self)

    def __bool__(self):
        if isobj(self):
            if self.size == 1:
                return bool(elems(self)[0])
            if self.size == 0:
                return False
            raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        return _nd.__bool__(self)

    def __index__(self):
        if isobj(self):
            return operator.index(elems(self)[0])
        return _nd.__index__(self)

    def __int__(self):
        if isobj(self):
            return int(elems(self)[0])
        return _nd.__int__(self)

    def __float__(self):
        if isobj(self):
            return float(elems(self)[0])
        return _nd.__float__(self)

    def __contains__(self, x):
        if isobj(self) or isinstance(x, Sym):
            return bool((self == x).any())
        return _nd.__contains__(self, x)

    # -- views and copies ----------------------------------------------------
    def view(self, *args, **kw):
        dtype = kw.get("dtype")
        typ = kw.get("type")
        for a in args:
            if isinstance(a, type) and issubclass(a, _nd):
                typ = a
            else:
                dtype = a
        if typ is _nd:
            typ = SymNd
        if dtype is not None and isinstance(dtype, type) and issubclass(dtype, _nd):
            typ, dtype = (SymNd if dtype is _nd else dtype), None
        if not isobj(self):
            if dtype is None:
                return _nd.view(self, typ) if typ is not None else _nd.view(self)
            return _nd.view(self, dtype, typ) if typ is not None else _nd.view(self, dtype)
        cls = typ or type(self)
        if dtype is None:
            r = _nd.view(self, cls)
            r.__dict__["_sdt"] = self.dtype
            return r
        dt = np.dtype(dtype)
        sd = self.dtype
        if dt == sd:
            r = _nd.view(self, cls)
            r.__dict__["_sdt"] = sd
            return r
        if sd.kind in "SU" or dt.kind in "SU":
            return _string_view(self, dt, cls)
        if dt.itemsize == sd.itemsize and dt.kind in "iub" and sd.kind in "iub":
            r = _nd.view(self, cls)
            r.__dict__["_sdt"] = dt
            return r
        if not has_sym(self):
            return _nd.view(demote(self), dt, cls)
        if dt.itemsize == 1 and sd.kind in "iu":
            raise Unsupported(f"byte view of {sd}")
        return _nd.view(concretise(self, f"view {sd}->{dt}"), dt, cls)

    def copy(self, order="C"):
        if isobj(self):
            r = mk(elems(self), self.dtype, self.shape, type(self), force=True)
            r.__array_finalize__(self)
            r.__dict__["_sdt"] = self.dtype
            return r
        return _nd.copy(self, order)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo=None):
        return self.copy()

    def astype(self, dtype, order="K", casting="unsafe", subok=True, copy=True):
        dt = np.dtype(dtype)
        if isobj(self):
            if dt == self.dtype and not copy:
                return self
            if dt == OBJ:
                return mk(elems(self), OBJ, self.shape, type(self) if subok else SymNd)
            if not has_sym(self):
                return _nd.astype(demote(self), dt)
            if self.dtype.kind in "SU" and dt.kind in "SU":
                n = dt.itemsize // (4 if dt.kind == "U" else 1)
                vals = [SymBytes(SymBytes.codes_of(x), np.dtype(f"{dt.kind}{n or len(SymBytes.codes_of(x))}")) for x in elems(self)]
                if n:
                    vals = [SymBytes(SymBytes.codes_of(x, n), dt) for x in vals]
                else:
                    dt = np.dtype(f"{dt.kind}{max(len(v.c) for v in vals)}")
                return mk(vals, dt, self.shape, type(self) if subok else SymNd)
            if dt.kind in "SU" or self.dtype.kind in "SU":
                return _nd.astype(concretise(self, "astype str"), dt)
            return mk([s_cast(x, dt) for x in elems(self)], dt, self.shape, type(self) if subok else SymNd)
        return _nd.astype(self, dt, order, casting, subok, copy)

    def _shape_op(self, name, *a, **k):
        r = getattr(_nd, name)(self, *a, **k)
        if isobj(self):
            r.__dict__["_sdt"] = self.dtype
        return r

    def reshape(self, *a, **k):
        return self._shape_op("reshape", *a, **k)

    def ravel(self, *a, **k):
        return self._shape_op("ravel", *a, **k)

    def flatten(self, *a, **k):
        return self._shape_op("flatten", *a, **k)

    def transpose(self, *a):
        return self._shape_op("transpose", *a)

    def squeeze(self, *a, **k):
        return self._shape_op("squeeze", *a, **k)

    def swapaxes(self, *a, **k):
        return self._shape_op("swapaxes", *a, **k)

    # -- reductions and friends ----------------------------------------------
    def fill(self, v):
        self[...] = v

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return np.add.reduce(self, axis=axis, dtype=dtype, keepdims=keepdims, **k)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return np.multiply.reduce(self, axis=axis, dtype=dtype, keepdims=keepdims, **k)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return np.logical_or.reduce(self, axis=axis, keepdims=keepdims, **k)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return np.logical_and.reduce(self, axis=axis, keepdims=keepdims, **k)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return np.maximum.reduce(self, axis=axis, keepdims=keepdims, **k)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return np.minimum.reduce(self, axis=axis, keepdims=keepdims, **k)

    def cumsum(self, axis=None, dtype=None, out=None):
        if isobj(self):
            r = np.add.accumulate(self.view(SymNd), dtype=dtype)
            return r
        return _nd.cumsum(self, axis, dtype, out)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        if isobj(self):
            return s_bin("/", self.view(SymNd).sum(), len(self), F64)
        return _nd.mean(self, axis, dtype, out)

    # -- protocols -----------------------------------------------------------
    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        out = kwargs.get("out")
        allin = list(inputs) + list(out or ()) + ([kwargs["where"]] if isinstance(kwargs.get("where"), _nd) else [])
        if not any(any_obj(x) for x in allin):
            kw = {k: _plain(v) if is_snd(v) else v for k, v in kwargs.items()}
            if out is not None:
                kw["out"] = tuple(_plain(o) if is_snd(o) else o for o in out)
            r = getattr(ufunc, method)(*[_plain(x) if is_snd(x) else x for x in inputs], **kw)
            if out is not None:
                return out[0] if len(out) == 1 else out
            return _wrap(r)
        if not any(has_sym(x) for x in inputs) and not has_sym(kwargs.get("where", 0)):
            ins = [demote(x) if isobj(x) else x for x in inputs]
            kw = dict(kwargs)
            o = kw.pop("out", None)
            if method == "at":
                r = getattr(ufunc, method)(*[_plain(x) if is_snd(x) else x for x in ins], **kw)
                if isobj(inputs[0]):
                    inputs[0][...] = ins[0]
                return r
            if o is not None and kw.get("where", True) is not True:
                o2 = [_plain(demote(x)).copy() if not has_sym(x) else None for x in o]
                if any(x is None for x in o2):
                    return sym_ufunc(ufunc, method, inputs, dict(kwargs))
                r = getattr(ufunc, method)(*[_plain(x) if is_snd(x) else x for x in ins], out=tuple(o2), **kw)
                o[0][...] = o2[0]
                return o[0]
            if isobj(kw.get("where")):
                kw["where"] = _plain(demote(kw["where"]))
            r = getattr(ufunc, method)(*[_plain(x) if is_snd(x) else x for x in ins], **kw)
            if o is not None:
                o[0][...] = r
                return o[0]
            return _wrap(r)
        try:
            return sym_ufunc(ufunc, method, inputs, dict(kwargs))
        except Unsupported as ex:
            eng().path_unsupported = None
            ins = [concretise(x, f"ufunc {ufunc.__name__}: {ex}") for x in inputs]
            kw = {k: concretise(v, "ufunc kw") for k, v in kwargs.items() if k != "out"}
            r = getattr(ufunc, method)(*[_plain(x) if is_snd(x) else x for x in ins], **kw)
            if out is not None:
                out[0][...] = r
                return out[0]
            return _wrap(r)

    def __array_function__(self, func, types, args, kwargs):
        if not any_obj(args) and not any_obj(kwargs):
            r = _nd.__array_function__(self, func, types, args, kwargs)
            return _wrap(r)
        m = NPF.get(func)
        if m is not None:
            try:
                r = m(*args, **kwargs)
                if r is not NotImplemented:
                    return r
            except Unsupported as ex:
                eng().path_unsupported = None
        a2 = concretise(args, f"np.{func.__name__}")
        k2 = concretise(kwargs, f"np.{func.__name__}")
        r = func(*a2, **k2)
        # in-place functions: copy back
        if func in (np.put, np.putmask, np.copyto, np.place, np.fill_diagonal):
            args[0][...] = a2[0]
        return _wrap(r)

    def __reduce__(self):
        if isobj(self):
            return (_unpickle, (type(self), list(elems(self)), self.dtype, self.shape))
        return _nd.__reduce__(self)


def _unpickle(cls, vals, dt, shape):
    return mk(vals, dt, shape, cls)


def _wrap(r):
    if type(r) is _nd:
        return _nd.view(r, SymNd)
    if type(r) is tuple:
        return tuple(_wrap(x) for x in r)
    if type(r) is list:
        return [_wrap(x) for x in r]
    return r


def as_obj(a):
    """object-storage copy of a typed array."""
    return mk(list(_plain(a).ravel()), _real_dtype(a), a.shape, type(a), force=True)


def has_symidx(idx):
    if isinstance(idx, tuple):
        return any(has_sym(x) for x in idx)
    if isinstance(idx, slice):
        return any(isinstance(x, Sym) for x in (idx.start, idx.stop, idx.step))
    return has_sym(idx)


def promote_copy_ok(idx):
    return True


def demote_idx(idx):
    if isinstance(idx, tuple):
        return tuple(demote_idx(x) for x in idx)
    if isinstance(idx, Sym):
        return operator.index(idx)
    if isinstance(idx, slice):
        return slice(*[operator.index(x) if isinstance(x, Sym) else x for x in (idx.start, idx.stop, idx.step)])
    if is_snd(idx) and isobj(idx):
        if has_sym(idx):
            idx = fork_index(idx)
        return _plain(demote(idx))
    if is_snd(idx):
        return _plain(idx)
    if isinstance(idx, list) and has_sym(idx):
        return [bool(x) if isinstance(x, SymBool) else operator.index(x) if isinstance(x, Sym) else x for x in idx]
    return idx


def fork_index(idx):
    """concretise a boolean/integer index array by forking (sound and complete)."""
    if idx.dtype == BOOL:
        return mk([np.bool_(bool(x)) for x in elems(idx)], BOOL, idx.shape)
    return mk([idx.dtype.type(operator.index(x)) for x in elems(idx)], idx.dtype, idx.shape)


_NI = {}


def norm_index(i, n):
    """symbolic/concrete integer index -> (in-range term 0..n-1) or raise IndexError."""
    if not isinstance(i, Sym):
        i = int(i)
        if i < 0:
            i += n
        if not 0 <= i < n:
            raise IndexError(f"index out of bounds for size {n}")
        return i
    if isinstance(i, SymBool):
        i = i._int()
    if i.lo < 0 or i.hi >= n:
        k = (i.key, n)
        m = _NI.get(k)
        if m is None:
            c = mkbool(z3.And(i.e >= -n, i.e < n))
            v = mkint(z3.If(i.e < 0, i.e + n, i.e), 0, n - 1, I64) if i.lo < 0 else (mkint(i.e, 0, n - 1, I64) if i.hi < 2**63 else i)
            m = _NI[k] = (c, v, i)
        if not m[0]:
            raise IndexError(f"index out of bounds for size {n}")
        return m[1]
    return i


def ite_select(vals, i, dt):
    """vals[i] for symbolic i in range."""
    r = vals[-1]
    lo = max(0, getattr(i, "lo", 0))
    hi = min(len(vals) - 1, getattr(i, "hi", len(vals) - 1))
    r = vals[hi]
    for k in range(hi - 1, lo - 1, -1):
        r = s_where(s_cmp("==", i, k), vals[k], r, dt)
    return r


def _sym_getitem(self, idx):
    dt = self.dtype
    if isinstance(idx, Sym) and self.ndim == 1:
        if isinstance(idx, SymBool):
            raise Unsupported("scalar bool index")
        i = norm_index(idx, len(self))
        el = elems(self)
        if not isinstance(i, Sym):
            return el[i]
        if dt.kind in "SUO":
            return el[operator.index(i)]
        return ite_select(el, i, dt)
    if isinstance(idx, (int, np.integer)) and self.ndim == 1:
        return norm(_plain(self)[idx], dt)
    idx = demote_idx(idx)
    r = _nd.__getitem__(self, idx)
    if is_snd(r) and _real_dtype(r) == OBJ and isinstance(r, _nd):
        r.__dict__["_sdt"] = dt
        return r
    if isinstance(r, _nd):
        return r
    return norm(r, dt)


def _sym_setitem(self, idx, v):
    if type(idx) is int and isinstance(v, (list, tuple)) and not isobj(self) and _real_dtype(self) == OBJ and self.ndim == 1:
        return _nd.__setitem__(self, idx, v)
    if isinstance(v, (list, tuple)):
        v = mklist(v) if has_sym(v) else np.asarray(v)
    vs, is_ = has_sym(v), has_symidx(idx)
    if not isobj(self):
        if not vs and not is_:
            if any_obj(v):
                v = demote(v)
            return _nd.__setitem__(self, demote_idx(idx) if any_obj(idx) else idx, v)
        if _real_dtype(self) == OBJ or not promote(self):
            # cannot promote (aliased view): concretise by forking
            return _nd.__setitem__(self, demote_idx(idx), concretise(v, "setitem into typed view"))
    dt = self.dtype
    p = _plain(self)
    if isinstance(idx, Sym) and self.ndim == 1:
        i = norm_index(idx, len(self))
        vv = _cast_in(v if not isinstance(v, _nd) else elems(v)[0], dt)
        if not isinstance(i, Sym):
            p[i] = vv
            return
        el = elems(self)
        for k in range(max(0, i.lo), min(len(el) - 1, i.hi) + 1):
            p[k] = s_where(mkbool(i.e == k), vv, el[k], dt)
        return
    if isinstance(idx, _nd) and idx.dtype == BOOL and isobj(idx) and has_sym(idx) and idx.shape == self.shape:
        # masked store without forking when the value is a scalar / full-size
        ve = [v] if not isinstance(v, _nd) else elems(v)
        if len(ve) == 1:
            vv = _cast_in(ve[0], dt)
            el, m = elems(self), elems(idx)
            flat = p.reshape(-1)
            for k in range(len(el)):
                flat[k] = s_where(m[k], vv, el[k], dt)
            return
    idx = demote_idx(idx)
    if isinstance(v, _nd) and v.size == 1:
        v = elems(v)[0]
    if isinstance(v, _nd):
        o = np.empty(v.shape, dtype=object)
        f = o.reshape(-1)
        for k, x in enumerate(elems(v)):
            f[k] = _cast_in(x, dt)
        p[idx] = o if v.ndim else o[()]
        return
    vv = _cast_in(v, dt)
    if isinstance(idx, _nd) and idx.ndim == 0 and idx.dtype.kind in "iu":
        idx = int(idx)
    if isinstance(idx, (int, np.integer)) and self.ndim == 1:
        p[idx] = vv
        return
    if isinstance(idx, tuple) and len(idx) == self.ndim and all(isinstance(i, (int, np.integer)) for i in idx):
        p[idx] = vv
        return
    o = np.empty((), dtype=object)
    o[()] = vv
    p[idx] = o


def _cast_in(x, dt):
    if dt == OBJ:
        return x
    if dt.kind in "SU":
        if isinstance(x, SymBytes):
            n = dt.itemsize // (4 if dt.kind == "U" else 1)
            return SymBytes(SymBytes.codes_of(x, n), dt)
        return np.asarray(x).astype(dt)[()]
    if isinstance(x, SymFloat) and dt.kind in "iu":
        return s_cast(x, dt)
    if not isinstance(x, Sym) and isinstance(x, float) and dt.kind in "iu" and not np.isfinite(x):
        with np.errstate(all="ignore"):
            return np.asarray(x).astype(dt)[()]
    return s_cast(x, dt)


def _string_view(a, dt, cls):
    sd = a.dtype
    if sd.kind in "SU" and dt.kind in "iu":
        w = 4 if sd.kind == "U" else 1
        if dt.itemsize != w:
            raise Unsupported("string view width")
        n = sd.itemsize // w
        vals = []
        for x in elems(a):
            vals.extend(s_cast(c, dt) for c in SymBytes.codes_of(x, n))
        return mk(vals, dt, cls=cls)
    if dt.kind in "SU" and sd.kind in "iu":
        w = 4 if dt.kind == "U" else 1
        if sd.itemsize != w:
            raise Unsupported("string view width")
        n = dt.itemsize // w
        el = elems(a)
        if n == 0:
            raise Unsupported("string view")
        return mk([SymBytes(el[i:i + n], dt) for i in range(0, len(el), n)], dt, cls=cls)
    if dt.kind == sd.kind:
        w = 4 if sd.kind == "U" else 1
        n0, n1 = sd.itemsize // w, dt.itemsize // w
        cs = []
        for x in elems(a):
            cs.extend(SymBytes.codes_of(x, n0))
        return mk([SymBytes(cs[i:i + n1], dt) for i in range(0, len(cs), n1)], dt, cls=cls)
    raise Unsupported(f"view {sd} -> {dt}")


# ---------------------------------------------------------------------------
# numpy function models
# ---------------------------------------------------------------------------
NPF = {}


def npf(*fs):
    def deco(g):
        for f in fs:
            NPF[f] = g
        return g
    return deco


def _arr(x):
    if isinstance(x, _nd):
        return x
    if isinstance(x, (list, tuple)):
        return mklist(list(x)) if has_sym(x) else _nd.view(np.asarray(x), SymNd)
    if isinstance(x, Sym):
        return mk([x], x.dtype, ())
    return _nd.view(np.asarray(x), SymNd)


def _cls(a):
    """result class of numpy functions that wrap: the argument's subclass."""
    return type(a) if is_snd(a) else SymNd


@npf(np.where)
def np_where(c, x=None, y=None):
    c = _arr(c)
    if x is None:
        return (np_flatnonzero(c),)
    x, y = (v if isinstance(v, (Sym, _nd)) or np.isscalar(v) else _arr(v) for v in (x, y))
    shape = _bshape([v for v in (c, x, y) if isinstance(v, _nd)])
    dt = np.where(np.ones(1, bool), rep_of(x), rep_of(y)).dtype
    cs, xs, ys = _belems(c, shape), _belems(x, shape), _belems(y, shape)
    vals = [s_where(s_cast(a, BOOL), b, d, None if dt.kind in "SU" else dt) for a, b, d in zip(cs, xs, ys)]
    return mk(vals, dt, shape)


@npf(np.flatnonzero)
def np_flatnonzero(c):
    out = [i for i, x in enumerate(elems(c)) if bool(x)]
    return mk([np.int64(i) for i in out], I64)


@npf(np.nonzero)
def np_nonzero(c):
    return (np_flatnonzero(c),)


@npf(np.concatenate)
def np_concatenate(arrs, axis=0, out=None, dtype=None, casting=None):
    arrs = [_arr(a) for a in arrs]
    if any(a.ndim != 1 for a in arrs):
        raise Unsupported("concatenate nd")
    dt = np.dtype(dtype) if dtype is not None else np.concatenate([np.zeros(1, a.dtype) for a in arrs]).dtype
    vals = [x if dt.kind in "SUO" else s_cast(x, dt) for a in arrs for x in elems(a)]
    return mk(vals, dt)


@npf(np.hstack)
def np_hstack(arrs, **k):
    arrs = [_arr(a) for a in arrs]
    return np_concatenate([a if a.ndim else a.reshape((1,)) for a in arrs])


@npf(np.full_like)
def np_full_like(a, fill_value, dtype=None, order="K", subok=True, shape=None):
    r = np_empty_like(a, dtype=dtype, shape=shape, subok=subok)
    r[...] = fill_value
    return r


@npf(np.empty_like)
def np_empty_like(a, dtype=None, order="K", subok=True, shape=None):
    dt = np.dtype(dtype) if dtype is not None else a.dtype
    shape = a.shape if shape is None else shape
    shape = (shape,) if isinstance(shape, (int, np.integer)) else tuple(shape)
    n = int(np.prod(shape)) if shape else 1
    return mk([dt.type(0)] * n, dt, shape, type(a) if subok and is_snd(a) else SymNd, force=dt.kind in "biuf")


@npf(np.zeros_like)
def np_zeros_like(a, dtype=None, order="K", subok=True, shape=None):
    return np_empty_like(a, dtype, order, subok, shape)


@npf(np.ones_like)
def np_ones_like(a, dtype=None, order="K", subok=True, shape=None):
    r = np_empty_like(a, dtype, order, subok, shape)
    r[...] = 1
    return r


@npf(np.copyto)
def np_copyto(dst, src, casting="same_kind", where=True):
    if where is True:
        dst[...] = src
        return
    w = _belems(_arr(where), dst.shape)
    s = _belems(_arr(src) if not isinstance(src, Sym) else src, dst.shape)
    vals = [s_where(c, a, b, dst.dtype) for c, a, b in zip(w, s, elems(dst))]
    dst[...] = mk(vals, dst.dtype, dst.shape)


@npf(np.putmask)
def np_putmask(a, mask, values):
    v = _arr(values)
    ve = elems(v)
    vals = [s_where(m, _cast_in(ve[i % len(ve)], a.dtype), x, a.dtype) for i, (m, x) in enumerate(zip(elems(mask), elems(a)))]
    a[...] = mk(vals, a.dtype, a.shape)


@npf(np.copy)
def np_copy(a, order="K", subok=False):
    return _arr(a).copy()


@npf(np.any)
def np_any(a, axis=None, out=None, keepdims=False, **k):
    return a.any(axis=axis)


@npf(np.all)
def np_all(a, axis=None, out=None, keepdims=False, **k):
    return a.all(axis=axis)


@npf(np.sum)
def np_sum(a, axis=None, dtype=None, out=None, **k):
    return a.sum(axis=axis, dtype=dtype)


@npf(np.nansum)
def np_nansum(a, axis=None, dtype=None, out=None, **k):
    a = _arr(a)
    if a.dtype.kind == "f":
        z = a.dtype.type(0)
        a = mk([s_where(s_isnan(x), z, x, a.dtype) for x in elems(a)], a.dtype, a.shape, type(a))
    return a.sum(axis=axis, dtype=dtype)


def _nanext(mx):
    def f(a, axis=None, out=None, **k):
        a = _arr(a)
        if a.dtype.kind != "f":
            return a.max(axis=axis) if mx else a.min(axis=axis)
        def fold(xs):
            if not len(xs):
                raise ValueError("zero-size array to reduction operation fmin which has no identity")
            acc = xs[0]
            for x in xs[1:]:
                acc = s_minmax(acc, x, a.dtype, mx, True)
            return acc
        if axis is None or a.ndim == 1:
            return fold(elems(a))
        p = np.empty(a.shape, object)
        p.reshape(-1)[:] = elems(a)
        p = np.moveaxis(p, axis, -1)
        rows = p.reshape(-1, p.shape[-1])
        return mk([fold(list(r)) for r in rows], a.dtype, p.shape[:-1], type(a))
    return f


NPF[np.nanmax] = _nanext(True)
NPF[np.nanmin] = _nanext(False)


@npf(np.max, np.amax)
def np_max(a, axis=None, out=None, **k):
    return a.max(axis=axis)


@npf(np.min, np.amin)
def np_min(a, axis=None, out=None, **k):
    return a.min(axis=axis)


@npf(np.cumsum)
def np_cumsum(a, axis=None, dtype=None, out=None):
    return _arr(a).view(SymNd).cumsum(axis, dtype, out)


@npf(np.ravel)
def np_ravel(a, order="C"):
    return a.ravel()


@npf(np.reshape)
def np_reshape(a, newshape, order="C"):
    return a.reshape(newshape)


@npf(np.transpose)
def np_transpose(a, axes=None):
    return a.transpose()


@npf(np.shape)
def np_shape(a):
    return a.shape


@npf(np.ndim)
def np_ndim(a):
    return a.ndim


@npf(np.size)
def np_size(a, axis=None):
    return a.size


@npf(np.result_type)
def np_result_type(*args):
    return np.result_type(*[rep_of(x) for x in args])


@npf(np.can_cast)
def np_can_cast(a, to, casting="safe"):
    return np.can_cast(rep_of(a), to, casting)


@npf(np.min_scalar_type)
def np_min_scalar_type(a):
    return np.min_scalar_type(rep_of(a))


@npf(np.diff)
def np_diff(a, n=1, axis=-1, **k):
    if n == 0:
        return a
    for _ in range(n):
        a = a[1:] - a[:-1]
    return a


@npf(np.roll)
def np_roll(a, shift, axis=None):
    n = len(a)
    shift = operator.index(shift) % n if n else 0
    return mk((elems(a)[-shift:] + elems(a)[:-shift]) if shift else elems(a), a.dtype, a.shape, type(a))


@npf(np.repeat)
def np_repeat(a, repeats, axis=None):
    a = _arr(a)
    el = elems(a)
    if isinstance(repeats, _nd) or isinstance(repeats, (list, tuple)):
        rs = [operator.index(x) for x in elems(_arr(repeats))]
        if len(rs) == 1:
            rs = rs * len(el)
    else:
        rs = [operator.index(repeats)] * len(el)
    return mk([x for x, r in zip(el, rs) for _ in range(r)], a.dtype, cls=type(a))


@npf(np.tile)
def np_tile(a, reps):
    a = _arr(a)
    return mk(elems(a) * operator.index(reps), a.dtype, cls=type(a))


@npf(np.isin)
def np_isin(a, b, assume_unique=False, invert=False, **k):
    bs = elems(_arr(b))
    vals = []
    for x in elems(_arr(a)):
        r = z3.Or(*[zb(_binary("equal", x, y, BOOL)) for y in bs]) if bs else z3.BoolVal(False)
        vals.append(mkbool(z3.Not(r) if invert else r))
    return mk(vals, BOOL, a.shape)


def sort_perm(keys, stable=True, asc=None, rows=None):
    """fork on comparisons; returns a concrete stable ascending permutation (NaN last).
    keys: list of element lists, most significant first."""
    n = len(keys[0])
    asc = [True] * len(keys) if asc is None else asc

    def less(i, j):
        # strict lexicographic less, short circuit forking
        for col, up in zip(keys, asc):
            a, b = col[i], col[j]
            if a is b:
                continue
            na, nb = s_isnan(a), s_isnan(b)
            if bool(na):
                if bool(nb):
                    continue
                return False
            if bool(nb):
                return True
            lt = _binary("less", a, b, BOOL) if up else _binary("less", b, a, BOOL)
            if bool(lt):
                return True
            eq = _binary("equal", a, b, BOOL)
            if bool(eq):
                continue
            return False
        return False

    perm = []
    for i in (range(n) if rows is None else rows):  # insertion sort, stable
        k = len(perm)
        while k > 0 and less(i, perm[k - 1]):
            k -= 1
        perm.insert(k, i)
    return perm


@npf(np.argsort)
def np_argsort(a, axis=-1, kind=None, order=None, **k):
    return mk([np.int64(i) for i in sort_perm([elems(a)])], I64, cls=_cls(a))


@npf(np.sort)
def np_sort(a, axis=-1, kind=None, order=None, **k):
    el = elems(a)
    return mk([el[i] for i in sort_perm([el])], a.dtype, cls=type(a))


@npf(np.lexsort)
def np_lexsort(keys, axis=-1):
    return mk([np.int64(i) for i in sort_perm([elems(_arr(k)) for k in reversed(list(keys))])], I64)


@npf(np.searchsorted)
def np_searchsorted(a, v, side="left", sorter=None):
    if sorter is not None:
        raise Unsupported("searchsorted sorter")
    a = _arr(a)
    el = elems(a)
    scalar = not isinstance(v, (list, tuple)) and not (isinstance(v, _nd) and v.ndim)
    vs = elems(v) if isinstance(v, _nd) else (list(v) if isinstance(v, (list, tuple)) else [v])

    def lt(x, y):  # NaN sorts last
        nx, ny = zb(s_isnan(x)), zb(s_isnan(y))
        return z3.And(z3.Not(nx), z3.Or(ny, zb(_binary("less", x, y, BOOL))))

    out = []
    for x in vs:
        if len(el) >= 8 and not any(isinstance(y, Sym) for y in el) and isinstance(x, Sym) and not isinstance(x, SymBytes):
            # concrete sorted table: binary search, forking on each comparison
            a0, b0 = 0, len(el)
            while a0 < b0:
                m = (a0 + b0) // 2
                y = el[m]
                if bool(mkbool(lt(y, x) if side == "left" else z3.Not(lt(x, y)))):
                    a0 = m + 1
                else:
                    b0 = m
            out.append(I64.type(a0))
            continue
        # number of elements strictly less (left) / not greater (right); assumes a sorted
        es = [zb(mkbool(lt(y, x))) if side == "left" else zb(mkbool(z3.Not(lt(x, y)))) for y in el]
        t = z3.Sum([z3.If(e, z3.IntVal(1), z3.IntVal(0)) for e in es]) if es else z3.IntVal(0)
        out.append(mkint(t, 0, len(el), I64))
    return out[0] if scalar else mk(out, I64, cls=_cls(a))


@npf(np.argmax)
def np_argmax(a, axis=None, out=None, **k):
    return _argext(a, True)


@npf(np.argmin)
def np_argmin(a, axis=None, out=None, **k):
    return _argext(a, False)


def _argext(a, mx):
    el = elems(a)
    if a.dtype == BOOL:
        el = [s_cast(x, np.dtype(np.int8)) for x in el]
    best, bi = el[0], np.int64(0)
    for i, x in enumerate(el[1:], 1):
        c = s_cmp(">" if mx else "<", x, best)
        if a.dtype.kind == "f":
            c = mkbool(z3.And(z3.Not(zb(s_isnan(best))), z3.Or(zb(s_isnan(x)), zb(c))))
        best = s_where(c, x, best, a.dtype if a.dtype != BOOL else None)
        bi = s_where(c, np.int64(i), bi, I64)
    return bi


@npf(np.nan_to_num)
def np_nan_to_num(x, copy=True, nan=0.0, **k):
    x = _arr(x)
    return mk([s_where(s_isnan(e), x.dtype.type(nan), e, x.dtype) for e in elems(x)], x.dtype, x.shape, type(x))


def _var(el, ddof):
    """numpy's two-pass variance (sequential sums; lengths below its pairwise block)."""
    n = len(el)
    if n - ddof <= 0:
        return np.float64("nan")
    tot = el[0]
    for x in el[1:]:
        tot = s_bin("+", tot, x, F64)
    m = s_bin("/", tot, np.float64(n), F64)
    d = [s_bin("-", x, m, F64) for x in el]
    d = [s_bin("*", x, x, F64) for x in d]
    tot = d[0]
    for x in d[1:]:
        tot = s_bin("+", tot, x, F64)
    return s_bin("/", tot, np.float64(n - ddof), F64)


@npf(np.var)
def np_var(a, axis=None, dtype=None, out=None, ddof=0, **k):
    if a.ndim != 1 or axis not in (None, 0) or dtype is not None or out is not None or k or len(a) > 7:
        raise Unsupported("var")
    return _var([s_cast(x, F64) for x in elems(a)], ddof)


@npf(np.nanvar)
def np_nanvar(a, axis=None, dtype=None, out=None, ddof=0, **k):
    if a.ndim != 1 or axis not in (None, 0) or dtype is not None or out is not None or k or len(a) > 7:
        raise Unsupported("nanvar")
    el = [s_cast(x, F64) for x in elems(a)]
    return _var([x for x in el if not bool(s_isnan(x))], ddof)


@npf(np.isclose)
def np_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    raise Unsupported("isclose")


@npf(np.array_equal)
def np_array_equal(a, b, equal_nan=False):
    a, b = _arr(a), _arr(b)
    if a.shape != b.shape:
        return False
    return bool((a == b).all())


@npf(np.unique)
def np_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    a = _arr(a)
    el = elems(a)
    p = sort_perm([el])
    groups = []
    for i in p:
        if groups and bool(_binary("equal", el[groups[-1][0]], el[i], BOOL)):
            groups[-1].append(i)
        else:
            groups.append([i])
    out = [mk([el[g[0]] for g in groups], a.dtype, cls=type(a))]
    if return_index:
        out.append(mk([np.int64(min(g)) for g in groups], I64))
    if return_inverse:
        inv = [0] * len(el)
        for k_, g in enumerate(groups):
            for i in g:
                inv[i] = k_
        out.append(mk([np.int64(i) for i in inv], I64))
    if return_counts:
        out.append(mk([np.int64(len(g)) for g in groups], I64))
    return out[0] if len(out) == 1 else tuple(out)


@npf(np.bincount)
def np_bincount(x, weights=None, minlength=0):
    if weights is not None:
        raise Unsupported("bincount weights")
    ids = [operator.index(i) for i in elems(x)]
    return _nd.view(np.bincount(ids, minlength=minlength), SymNd)


@npf(np.take)
def np_take(a, indices, axis=None, out=None, mode="raise"):
    return a[_arr(indices)]


@npf(np.vstack)
def np_vstack(arrs, **k):
    arrs = [_arr(a) for a in arrs]
    if any(a.ndim != 2 for a in arrs) or len({a.shape[1] for a in arrs}) != 1:
        raise Unsupported("vstack")
    return np_concatenate([a.reshape((-1,)) for a in arrs]).reshape((sum(a.shape[0] for a in arrs), arrs[0].shape[1]))


@npf(np.column_stack, np.stack)
def np_stackish(arrs, **k):
    raise Unsupported("stack")


@npf(np.count_nonzero)
def np_count_nonzero(a, axis=None, **k):
    t = z3.Sum([z3.If(zb(s_cast(x, BOOL)), z3.IntVal(1), z3.IntVal(0)) for x in elems(a)])
    return mkint(t, 0, a.size, I64)


@npf(np.clip)
def np_clip(a, a_min=None, a_max=None, out=None, **k):
    r = a
    if a_min is not None:
        r = np.maximum(r, a_min)
    if a_max is not None:
        r = np.minimum(r, a_max)
    if out is not None:
        out[...] = r
        return out
    return r


@npf(np.may_share_memory, np.shares_memory)
def np_may_share(a, b, *r, **k):
    return np.may_share_memory(_plain(a), _plain(b))


@npf(np.round, np.around)
def np_round_(a, decimals=0, out=None):
    if decimals != 0:
        raise Unsupported("round decimals")
    return np.rint(a)


def _method(name, func):
    def m(self, *a, **k):
        if isobj(self) or any_obj(a):
            r = NPF[func](self, *a, **k)
            return r
        return getattr(_nd, name)(self, *a, **k)
    m.__name__ = name
    setattr(SymNd, name, m)


for _nm, _f in (("argsort", np.argsort), ("searchsorted", np.searchsorted), ("repeat", np.repeat), ("nonzero", np.nonzero),
                ("argmax", np.argmax), ("argmin", np.argmin), ("take", np.take), ("clip", np.clip), ("round", np.round)):
    _method(_nm, _f)


def _sort(self, axis=-1, kind=None, order=None):
    if isobj(self):
        self[...] = np_sort(self)
        return
    return _nd.sort(self, axis, kind, order)


SymNd.sort = _sort


def _tobytes(self, order="C"):
    if isobj(self):
        return _nd.tobytes(concretise(self, "tobytes"))
    return _nd.tobytes(self, order)


SymNd.tobytes = _tobytes
SymNd.tostring = _tobytes


def _repr(self):
    if isobj(self):
        return f"{type(self).__name__}<{self.dtype}>({elems(self)})"
    return _nd.__repr__(self)


SymNd.__repr__ = _repr
SymNd.__str__ = _repr
