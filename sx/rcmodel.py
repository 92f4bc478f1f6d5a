"""Contract models of the compiled riptide_cpp functions (stubs of the environment).

riptide_cpp is a binary extension whose source is not in the repository.  A
call whose arguments are all concrete goes to the real function.  With symbolic
arguments the function is replaced by the model below; a function without a
model is called on concretised arguments (recorded: the exploration is then
not exhaustive).
"""
import types, operator, functools
import numpy as np
import z3
import riptide_cpp as rc
from . import engine as E
from .engine import *
from . import symnd as N
from .symnd import SymNd, mk, elems, isobj, has_sym, any_obj, demote, concretise, is_snd, s_minmax, sort_perm, fork_index, norm_index

_nd = np.ndarray
MODELS = {}
CALLS = {}
I32 = np.dtype(np.int32)
I8 = np.dtype(np.int8)


def FA():
    import riptable
    return riptable.FastArray


_FA = [None]


def fa_cls():
    if _FA[0] is None:
        import sys
        m = sys.modules.get("riptable.rt_fastarray")
        _FA[0] = m.FastArray
    return _FA[0]


def mkfa(vals, dt, shape=None):
    return mk(vals, dt, shape, fa_cls())


def model(*names):
    def deco(f):
        for n in names or (f.__name__,):
            MODELS[n] = f
        return f
    return deco


INV = {
    np.dtype(bool): np.False_, np.dtype("i1"): np.int8(-128), np.dtype("u1"): np.uint8(255), np.dtype("i2"): np.int16(-32768),
    np.dtype("u2"): np.uint16(65535), np.dtype("i4"): np.int32(-2**31), np.dtype("u4"): np.uint32(2**32 - 1),
    np.dtype("i8"): np.int64(-2**63), np.dtype("u8"): np.uint64(2**64 - 1), np.dtype("f4"): np.float32(np.nan), np.dtype("f8"): np.float64(np.nan),
    np.dtype("f2"): np.float16(np.nan),
}


def inv_of(dt):
    if dt.kind == "S":
        return np.bytes_(b"")
    if dt.kind == "U":
        return np.str_("")
    return INV[dt]


def s_isinv(x, dt):
    if dt.kind == "f":
        return s_isnan(x)
    if dt == BOOL:
        return np.False_
    if dt.kind in "SU":
        if isinstance(x, SymBytes):
            return x == b""
        return np.bool_(len(x) == 0)
    return s_cmp("==", x, INV[dt])


def real_call(name, args, kw):
    """call the compiled function on typed storage; write back in-place effects."""
    f = getattr(rc, name)
    memo = []

    def dem(a):
        if isinstance(a, _nd) and isobj(a):
            d = demote(a)
            memo.append((a, d, N._plain(d).copy()))
            return d
        if type(a) is tuple:
            return tuple(dem(x) for x in a)
        if type(a) is list:
            return [dem(x) for x in a]
        return a

    a2 = [dem(x) for x in args]
    k2 = {k: dem(v) for k, v in kw.items()}
    r = f(*a2, **k2)
    for orig, d, before in memo:
        now = N._plain(d)
        if before.tobytes() != now.tobytes():
            orig[...] = mk(list(now.ravel()), now.dtype, now.shape)
        if r is d:
            r = orig
    return r


# kernels that walk the buffer of these arguments without looking at strides (None: every argument)
RAW = {
    "IsMember32": None, "IsMemberCategorical": None, "IsMemberCategoricalFixup": None, "MultiKeyIsMember32": None,
    "CombineFilter": None, "CombineAccum1Filter": None, "CombineAccum2Filter": None, "BooleanToFancy": None, "BinCount": None,
    "MakeiFirst": None, "MakeiNext": None, "TimeWindow": None, "BinsToCutsBSearch": None, "ReverseShuffle": None,
    "GroupFromLexSort": None, "MultiKeyAlign32": None, "MultiKeyGroupBy32": (2,), "MultiKeyUnique32": (2,),
    "GroupByAll32": (1,), "EmaAll32": (1, 4), "GroupByAllPack32": (1,), "Where": (0,), "PutMask": (1, 2), "BitCount": None, "InterpExtrap2d": None,
}


def strided(a):
    return isinstance(a, _nd) and a.ndim == 1 and len(a) > 1 and not a.flags.c_contiguous


def raw(a):
    """what a kernel that ignores strides reads from an argument."""
    if type(a) in (tuple, list):
        return type(a)(raw(x) for x in a)
    if not (strided(a) and isobj(a)):
        return a
    root = a
    while isinstance(root.base, _nd):
        root = root.base
    p = N._plain(root)
    flat = list(p.ravel())
    off = (a.__array_interface__["data"][0] - p.__array_interface__["data"][0]) // 8
    return mkfa([flat[min(off + i, len(flat) - 1)] for i in range(len(a))], a.dtype)


def any_strided(a):
    if type(a) in (tuple, list):
        return any(any_strided(x) for x in a)
    return strided(a)


def make(name):
    real = getattr(rc, name, None)
    m = MODELS.get(name)

    def f(*args, **kw):
        CALLS[name] = CALLS.get(name, 0) + 1
        if Engine.cur is None or not (any_obj(args) or any_obj(kw)):
            return real(*args, **kw)
        if name in RAW:
            which = RAW[name]
            args = tuple(raw(a) if which is None or i in which else a for i, a in enumerate(args))
            if which is None:
                kw = {k: raw(v) for k, v in kw.items()}
        elif name == "IsSorted" and any_strided(args):
            raise ValueError("IsSorted arrays must be one dimensional and contiguous.  ndim is 1")
        elif name == "HStack" and any_strided(args):
            raise ValueError("BuildArrayInfo array strides must match itemsize")
        elif name == "CalculateCRC" and any_strided(args):
            raise ValueError("CalculateCRC array is not contiguous")
        if name == "Where" and any_strided(args[1]):
            return None
        if name == "BasicMathTwoInputs" and any_strided(args[0]):
            if len(args[0]) < 3:
                return None
            args = (tuple(raw(a) for a in args[0][:2]) + args[0][2:],) + args[1:]
        if not has_sym(args) and not has_sym(kw):
            return real_call(name, args, kw)
        if m is not None:
            try:
                return m(*args, **kw)
            except Unsupported as ex:
                why = f"rc.{name}: {ex}"
                Engine.cur.path_unsupported = None
        else:
            why = f"rc.{name}"
        a2, k2 = concretise(tuple(args), why), concretise(dict(kw), why)
        # preserve identity of in-place targets: concretise() fixed the originals too
        return real_call(name, args if not has_sym(args) else a2, k2)

    f.__name__ = name
    f.__doc__ = getattr(real, "__doc__", None)
    return f


class SymRc(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        v = getattr(rc, k)
        if callable(v):
            g = make(k)
            setattr(self, k, g)
            return g
        return v


symrc = SymRc("sx.symrc")
symrc.BasicMathHook = lambda *a, **k: None


def _ledger(func, *a, **k):
    r = func(*a, **k)
    if type(r) in (_nd, N.SymNd):
        return r.view(fa_cls())
    return r


symrc.LedgerFunction = _ledger


def _as_fast(a, dtype=None, order=None, **k):
    F = fa_cls()
    if Engine.cur is not None and (any_obj(a) or has_sym(a)):
        from . import boot
        r = boot._mkarray(a, dtype, False, subok=True)
        if type(r) is F:
            return r
        return r.view(F)
    kw = dict(k)
    if dtype is not None:
        kw["dtype"] = dtype
    if order is not None:
        kw["order"] = order
    return rc.AsFastArray(a, **kw)


def _as_any(a, dtype=None, order=None, **k):
    F = fa_cls()
    if Engine.cur is not None and (any_obj(a) or has_sym(a)):
        from . import boot
        r = boot._mkarray(a, dtype, False, subok=True)
        if isinstance(r, F):
            return r
        return r.view(F)
    kw = dict(k)
    if dtype is not None:
        kw["dtype"] = dtype
    if order is not None:
        kw["order"] = order
    return rc.AsAnyArray(a, **kw)


symrc.AsFastArray = _as_fast
symrc.AsAnyArray = _as_any


def _empty(shape, num, itemsize, fortran=False):
    if Engine.cur is not None:
        dt = np.dtype(np.sctypeDict[num]) if num <= 13 else None
        if dt is not None and dt.kind in "biuf":
            shp = tuple(operator.index(s) for s in shape)
            n = 1
            for s in shp:
                n *= s
            return mk([dt.type(0)] * n, dt, shp, fa_cls(), force=True)
    return rc.Empty(shape, num, itemsize, fortran)


symrc.Empty = _empty

NUM2DT = {}
for _c in "?bBhHiIlLqQfdge":
    NUM2DT[np.dtype(_c).num] = np.dtype(_c)


# ---------------------------------------------------------------------------
def conv_safe(x, sd, dt):
    """sentinel-preserving conversion of one element."""
    if sd == dt:
        return x
    if dt == BOOL:
        return s_cast(x, BOOL)
    if sd == BOOL:
        return s_cast(x, dt)
    if sd.kind == "f" and dt.kind == "f":
        return s_cast(x, dt)
    bad = s_isinv(x, sd)
    if bad is np.True_ or (not isinstance(bad, Sym) and bool(bad)):
        return INV[dt]
    if sd.kind == "f" and isinstance(x, SymFloat):
        y = SymFloat(x.r, False, x.mag, x.q, x.dt)
        c = s_cast(y, dt)
    else:
        c = s_cast(x, dt)
    return s_where(bad, INV[dt], c, dt)


@model()
def ConvertSafe(a, num, *r):
    dt = NUM2DT[num]
    sd = a.dtype
    return mkfa([conv_safe(x, sd, dt) for x in elems(a)], dt, a.shape)


@model()
def ConvertUnsafe(a, num, *r):
    dt = NUM2DT[num]
    return mkfa([s_cast(x, dt) for x in elems(a)], dt, a.shape)


# ---------------------------------------------------------------------------
_BOP = {1: "add", 2: "subtract", 3: "multiply", 10: "floor_divide", 101: "true_divide",
        6: "minimum", 7: "maximum", 401: "equal", 402: "not_equal", 403: "less", 404: "greater", 405: "less_equal", 406: "greater_equal",
        407: "logical_and", 408: "logical_xor", 409: "logical_or", 503: "bitwise_and", 504: "bitwise_xor", 505: "bitwise_or",
        501: "left_shift", 502: "right_shift", 12: "remainder"}


def s_tmod(a, b, dt):
    """C remainder (sign of the dividend)."""
    a, b = s_cast(a, dt), s_cast(b, dt)
    if dt.kind == "f":
        return s_bin("%", a, b, dt)
    if dt.kind == "u":
        return s_bin("%", a, b, dt)
    m = s_bin("%", a, b, dt)  # floored
    fix = mkbool(z3.And(zb(s_cmp("!=", m, 0)), z3.Xor(zb(s_cmp("<", a, 0)), zb(s_cmp("<", b, 0)))))
    return s_where(fix, s_bin("-", m, b, dt), m, dt)


def _rep(x):
    if isinstance(x, Sym) or not isinstance(x, _nd):
        return N.rep_of(x)
    if x.ndim == 0:
        return np.asarray(N.rep_of(x))
    r = np.ones(x.shape if x.size else (1,) * x.ndim, x.dtype)
    return _nd.view(r, fa_cls())


@model()
def BasicMathTwoInputs(tup, op, num):
    op = int(op)
    a, b = tup[0], tup[1]
    out = tup[2] if len(tup) > 2 else None
    strs = [x for x in (a, b) if (isinstance(x, (SymBytes, bytes, str)) or isinstance(x, _nd) and x.dtype.kind in "SU")]
    if strs:
        if op not in (401, 402, 403, 404, 405, 406):
            raise Unsupported("string math")
        shape = N._bshape([x for x in (a, b) if isinstance(x, _nd)])
        vals = [N._binary(_BOP[op], x, y, BOOL) for x, y in zip(N._belems(a, shape), N._belems(b, shape))]
        return mkfa(vals, BOOL, shape)
    with np.errstate(all="ignore"):
        r = rc.BasicMathTwoInputs(tuple(_rep(x) for x in (a, b)), op, num)
    if r is None:
        return None
    dt = r.dtype
    shape = N._bshape([x for x in (a, b) if isinstance(x, _nd)])
    xs, ys = N._belems(a, shape), N._belems(b, shape)
    da = a.dtype if isinstance(a, _nd) else None
    db = b.dtype if isinstance(b, _nd) else None
    if op in (102, 103):
        def bad(x, d):
            return z3.Or(zb(s_cmp("==", x, 0)), zb(s_cmp("==", x, INV[d if d is not None else dtype_of(x)])))
        vals = []
        for x, y in zip(xs, ys):
            c = mkbool(z3.Or(bad(x, da), bad(y, db)))
            if op == 102:
                d_ = s_bin("-", x, y, F64 if dtype_of(x).kind == "f" else dtype_of(x))
                vals.append(s_where(c, np.float64(np.nan), s_cast(d_, F64), F64))
            else:
                vals.append(s_where(c, dt.type(0), s_bin("-", x, y, dt), dt))
    elif op == 5:
        vals = [s_tmod(x, y, dt) for x, y in zip(xs, ys)]
    elif op in _BOP:
        vals = [N._binary(_BOP[op], x, y, dt) for x, y in zip(xs, ys)]
    else:
        raise Unsupported(f"math op {op}")
    if out is not None:
        out[...] = mk(vals, dt, shape)
        return out
    return mkfa(vals, dt, shape)


_UOP = {201: "absolute", 202: "negative", 212: "negative", 204: "invert", 205: "floor", 206: "ceil", 207: "trunc", 214: "sign",
        601: "logical_not", 603: "isinf", 612: "signbit"}


@model()
def BasicMathOneInput(tup, op, num):
    op = int(op)
    if isinstance(tup, tuple):
        a = tup[0]
        out = tup[1] if len(tup) > 1 else None
    else:
        a, out = tup, None
    if not isinstance(a, _nd):
        return None
    r = rc.BasicMathOneInput(_rep(a), op, num)
    if r is None:
        return None
    dt, sd = r.dtype, a.dtype
    el = elems(a)
    NOT = lambda x: mkbool(z3.Not(zb(x)))
    isinf = lambda x: N._unary("isinf", x, BOOL)
    if op in _UOP:
        vals = [N._unary(_UOP[op], x, dt) for x in el]
    elif op == 208:
        vals = [N.s_round(s_bin("+", x, s_sign_half(x, dt), dt), "trunc", dt) for x in el]
    elif op == 604:
        vals = [s_isinv(x, sd) for x in el]
    elif op == 608:
        vals = [NOT(s_isinv(x, sd)) for x in el]
    elif op == 605:
        vals = [mkbool(z3.Not(z3.Or(zb(s_isinv(x, sd)), zb(isinf(x))))) for x in el]
    elif op == 609:
        vals = [mkbool(z3.Or(zb(s_isinv(x, sd)), zb(isinf(x)))) for x in el]
    elif op == 607:
        vals = [NOT(isinf(x)) for x in el]
    elif op == 611:
        vals = [mkbool(z3.Or(zb(s_isinv(x, sd)), z3.Not(zb(s_cast(x, BOOL))))) for x in el]
    else:
        raise Unsupported(f"unary op {op}")
    if out is not None:
        out[...] = mk(vals, dt, a.shape)
        return out
    return mkfa(vals, dt, a.shape)


def s_sign_half(x, dt):
    return s_where(s_cmp("<", x, 0), dt.type(-0.5), dt.type(0.5), dt)


# ---------------------------------------------------------------------------
@model()
def Reduce(a, fn, *r):
    fn = int(fn)
    if not is_snd(a) or a.dtype.kind not in "biuf":
        raise Unsupported("reduce dtype")
    if not a.flags.c_contiguous and not a.flags.f_contiguous:
        return None
    sd = a.dtype
    el = elems(a)
    n = len(el)
    if n == 0:
        return None
    bad = [zb(s_isinv(x, sd)) for x in el]
    skip = fn in (1, 103, 107, 109, 201, 203, 205, 207)
    if fn in (0, 1):
        if sd.kind == "f":
            dt = F64
            acc = F64.type(0)
            for x, b in zip(el, bad):
                y = s_cast(x, F64)
                acc = s_bin("+", acc, s_where(mkbool(b), F64.type(0), y, F64) if skip else y, F64)
            return acc
        dt = np.dtype(np.uint64) if sd == np.dtype(np.uint64) else I64
        acc = dt.type(0)
        for x, b in zip(el, bad):
            acc = s_bin("+", acc, s_where(mkbool(b), dt.type(0), s_cast(x, dt), dt) if sd != BOOL else s_cast(x, dt), dt)
        if skip or sd == BOOL:
            return acc
        return s_where(mkbool(z3.Or(*bad)), INV[dt], acc, dt)
    if fn in (102, 103):
        acc = F64.type(0)
        for x, b in zip(el, bad):
            acc = s_bin("+", acc, s_where(mkbool(b), F64.type(0), s_cast(x, F64), F64), F64)
        if skip:
            cnt = mkint(z3.Sum([z3.If(b, z3.IntVal(0), z3.IntVal(1)) for b in bad]), 0, n, I64)
            cnt = np.int64(operator.index(cnt))
            if cnt == 0:
                return F64.type(0.0) if sd.kind in "iu" else F64.type(rc.Reduce(_nd.view(np.array([np.nan]), fa_cls()), 103, 0))
            return s_bin("/", acc, F64.type(cnt), F64)
        return s_where(mkbool(z3.Or(*bad)), F64.type(np.nan), s_bin("/", acc, F64.type(n), F64), F64)
    if fn in (106, 107, 108, 109):
        ddof = int(r[0]) if r else 1
        if not skip and bool(mkbool(z3.Or(*bad))):
            return F64.type(np.nan)
        xs = [s_cast(x, F64) for x, b in zip(el, bad) if not bool(mkbool(b))]
        if len(xs) - ddof <= 0:
            return F64.type(np.nan)
        acc = F64.type(0)
        for x in xs:
            acc = s_bin("+", acc, x, F64)
        mean = s_bin("/", acc, F64.type(len(xs)), F64)
        v = F64.type(0)
        for x in xs:
            d = s_bin("-", x, mean, F64)
            v = s_bin("+", v, s_bin("*", d, d, F64), F64)
        v = s_bin("/", v, F64.type(len(xs) - ddof), F64)
        if fn in (108, 109):
            return s_sqrt(v, F64)
        return v
    if fn in (200, 201, 202, 203):
        mx = fn >= 202
        acc, abad = el[0], bad[0]
        for x, b in zip(el[1:], bad[1:]):
            better = zb(s_cmp(">" if mx else "<", x, acc))
            if skip:
                take = z3.Or(z3.And(abad, z3.Not(b)), z3.And(z3.Not(abad), z3.Not(b), better))
                acc = s_where(mkbool(take), x, acc, sd) if sd != BOOL else s_minmax(acc, x, sd, mx, True)
                abad = z3.And(abad, b)
            else:
                take = z3.And(z3.Not(abad), z3.Or(b, better))
                acc = s_where(mkbool(take), x, acc, sd) if sd != BOOL else s_minmax(acc, x, sd, mx, True)
                abad = z3.Or(abad, b)
        return acc if sd != BOOL else s_cast(acc, I64)
    if fn in (204, 205, 206, 207):
        mx = fn >= 206
        if sd == BOOL:
            el = [s_cast(x, I8) for x in el]
        acc, abad, idx = el[0], bad[0], np.int64(0)
        for i, (x, b) in enumerate(zip(el[1:], bad[1:]), 1):
            better = zb(s_cmp(">" if mx else "<", x, acc))
            if skip:
                take = z3.Or(z3.And(abad, z3.Not(b)), z3.And(z3.Not(abad), z3.Not(b), better))
            else:
                take = z3.And(z3.Not(abad), z3.Or(b, better))
            acc = s_where(mkbool(take), x, acc, dtype_of(acc))
            idx = s_where(mkbool(take), np.int64(i), idx, I64)
            abad = z3.And(abad, b) if skip else z3.Or(abad, b)
        if skip and bool(mkbool(abad)):
            raise ValueError("There were no valid values to return the index location of for argmin or argmax.")
        return idx
    raise Unsupported(f"reduce {fn}")


# ---------------------------------------------------------------------------
@model()
def BooleanIndex(a, m):
    if len(a) != len(m):
        raise ValueError(f"Array lengths must match {len(m)} vs {len(a)}")
    mm = [bool(x) for x in elems(m)]
    return mkfa([x for x, b in zip(elems(a), mm) if b], a.dtype)


@model()
def BooleanToFancy(m, cutoffs=None, both=False):
    if cutoffs is not None:
        raise Unsupported("cutoffs")
    mm = [bool(x) for x in elems(m)]
    t = [np.int32(i) for i, b in enumerate(mm) if b]
    f = [np.int32(i) for i, b in enumerate(mm) if not b]
    if both:
        return mkfa(t + f, I32), len(t)
    return mkfa(t, I32)


@model()
def MBGet(a, idx, default=None):
    dt = a.dtype
    if a.ndim != 1:
        raise Unsupported("MBGet nd")
    d = inv_of(dt) if default is None else s_cast(default, dt)
    el, n = elems(a), len(a)
    idt = idx.dtype
    if dt.kind in "SU" and default is None:
        d = b"" if dt.kind == "S" else ""
    out = []
    for i in elems(idx):
        if not isinstance(i, Sym):
            k = int(i)
            if k < 0:
                k += n
            out.append(el[k] if 0 <= k < n else d)
            continue
        if idt.kind == "f":
            raise Unsupported("float index")
        r = d
        for k in range(n):
            c = i.e == k if i.lo >= 0 else z3.Or(i.e == k, i.e == k - n)
            r = s_where(mkbool(c), el[k], r, None if dt.kind in "SU" else dt)
        out.append(r)
    return mkfa(out, dt, idx.shape)


@model()
def SetItem(a, m, v):
    if a.shape != m.shape or a.ndim != 1:
        return False
    ve = elems(v)
    if len(ve) == 1:
        return False  # the compiled function declines; numpy broadcasts
    mm = [bool(x) for x in elems(m)]
    if sum(mm) != len(ve):
        return False
    k = 0
    new = []
    for x, b in zip(elems(a), mm):
        if b:
            new.append(N._cast_in(ve[k], a.dtype))
            k += 1
        else:
            new.append(x)
    a[...] = mk(new, a.dtype)
    return True


@model()
def PutMask(a, m, v):
    if not isinstance(v, _nd):
        return False
    if v.dtype != a.dtype or len(v) != len(a) or len(m) != len(a):
        return False
    new = [s_where(b, y, x, a.dtype) for x, b, y in zip(elems(a), elems(m), elems(v))]
    a[...] = mk(new, a.dtype)
    return True


@model()
def Where(c, xy, num, itemsize):
    x, y = xy
    if num not in NUM2DT:
        raise Unsupported("where string")
    dt = NUM2DT[num]
    shape = c.shape
    vals = []
    for cc, a, b in zip(elems(c), N._belems(x, shape), N._belems(y, shape)):
        a = conv_safe(a, dtype_of(a), dt)
        b = conv_safe(b, dtype_of(b), dt)
        vals.append(s_where(cc, a, b, dt))
    return mkfa(vals, dt, shape)


@model()
def HStack(arrs, num=None):
    arrs = list(arrs)
    if any(a.dtype.kind in "SUO" for a in arrs):
        if all(a.dtype.kind == arrs[0].dtype.kind and a.dtype.kind in "SU" for a in arrs):
            dt = functools.reduce(np.promote_types, [a.dtype for a in arrs])
            return mkfa([N._cast_in(x, dt) for a in arrs for x in elems(a)], dt)
        raise Unsupported("hstack strings")
    reps = [_nd.view(np.ones(1, a.dtype), fa_cls()) for a in arrs]
    r = rc.HStack(reps) if num is None else rc.HStack(reps, num)
    dt = r.dtype
    vals = [conv_safe(x, a.dtype, dt) for a in arrs for x in elems(a)]
    return mkfa(vals, dt)


@model()
def ReIndex(index, arr):
    el = elems(arr)
    return mkfa([N.ite_select(el, norm_index(i, len(el)), arr.dtype) if isinstance(i, Sym) else el[int(i)] for i in elems(index)], arr.dtype)


# ---------------------------------------------------------------------------
# grouping, sorting, membership: keys are compared symbolically, the resulting
# structure (bins, permutations) is concrete on each path
# ---------------------------------------------------------------------------
def keq(a, b, dt):
    """hash-key equality: NaN equals NaN; -0.0 handled as 0.0 (no symbolic -0.0)."""
    if dt.kind == "f":
        na, nb = zb(s_isnan(a)), zb(s_isnan(b))
        return mkbool(z3.Or(z3.And(na, nb), z3.And(z3.Not(na), z3.Not(nb), zb(s_cmp("==", a, b)))))
    return N._binary("equal", a, b, BOOL)


@model()
def MultiKeyGroupBy32(keys, hint=0, filt=None, mode=2, **kw):
    if kw.get("cutoffs") is not None:
        raise Unsupported("cutoffs")
    keys = list(keys)
    cols = [elems(k) for k in keys]
    dts = [k.dtype for k in keys]
    n = len(cols[0])
    fm = [True] * n if filt is None else [bool(x) for x in elems(filt)]
    ikey, first = [], []
    for i in range(n):
        if not fm[i]:
            ikey.append(0)
            continue
        for g, j in enumerate(first):
            same = z3.And(*[zb(keq(c[i], c[j], d)) for c, d in zip(cols, dts)])
            if bool(mkbool(same)):
                ikey.append(g + 1)
                break
        else:
            first.append(i)
            ikey.append(len(first))
    return (mkfa([np.int32(x) for x in ikey], I32), mkfa([np.int32(x) for x in first], I32), len(first))


@model()
def MultiKeyUnique32(keys, hint=0, filt=None):
    ikey, first, n = MultiKeyGroupBy32(keys, hint, filt)
    ik = [int(x) for x in elems(ikey)]
    return first, mkfa([np.int32(ik.count(g + 1)) for g in range(n)], I32)


@model("LexSort32", "LexSort64")
def LexSort(keys, cutoffs=None, index=None, ascending=True, **kw):
    if cutoffs is not None or kw:
        raise Unsupported("lexsort options")
    keys = list(keys) if isinstance(keys, (list, tuple)) else [keys]
    if isinstance(ascending, _nd):
        asc = [bool(x) for x in elems(ascending)]
    else:
        asc = [bool(ascending)] * len(keys)
    rows = None if index is None else _gindex(index)
    perm = sort_perm([elems(k) for k in reversed(keys)], asc=asc[::-1], rows=rows)
    return mkfa([np.int32(i) for i in perm], I32)


def _isin(akeys, bkeys, adts):
    na, nb = len(akeys[0]), len(bkeys[0])
    hits = []
    for i in range(na):
        r = np.int64(-1)
        for j in range(nb - 1, -1, -1):
            same = z3.And(*[zb(N._binary("equal", x[i], y[j], BOOL)) for x, y in zip(akeys, bkeys)])
            r = s_where(mkbool(same), np.int64(j), r, I64)
        hits.append(r)
    return hits


@model()
def IsMember32(a, b, h=2, hint=0):
    return _ism((a,), (b,))


@model()
def MultiKeyIsMember32(a, b, hint=0):
    flat = lambda k: tuple(x for y in k for x in (y if isinstance(y, (list, tuple)) else [y]))
    return _ism(flat(a), flat(b))


def _ism(a, b):
    hits = _isin([elems(x) for x in a], [elems(x) for x in b], [x.dtype for x in a])
    nb = len(b[0])
    dt = I8 if nb < 100 else I32
    boo = [s_cmp(">=", h, 0) for h in hits]
    idx = [s_where(c, h, np.int64(INV[dt]), dt) for c, h in zip(boo, hits)]
    return mkfa(boo, BOOL), mkfa(idx, dt)


@model()
def BinCount(ikey, n, pack=False, **kw):
    n = operator.index(n)
    if pack:
        ik = fork_index(ikey)
        return real_call("BinCount", (ik.view(fa_cls()), n), dict(pack=pack, **kw))
    el = elems(ikey)
    out = []
    for g in range(n):
        t = z3.Sum([z3.If(zb(s_cmp("==", x, g)), z3.IntVal(1), z3.IntVal(0)) for x in el])
        out.append(mkint(t, 0, len(el), I32))
    return mkfa(out, I32)


def _forked(name):
    """integer/boolean index-like arguments: concretise by (complete) forking, then real call."""
    def f(*args, **kw):
        def fx(a):
            if isinstance(a, _nd) and isobj(a) and has_sym(a):
                if a.dtype.kind not in "biu":
                    raise Unsupported("non-integer key")
                return fork_index(a).view(fa_cls())
            if type(a) in (list, tuple):
                return type(a)(fx(x) for x in a)
            if isinstance(a, Sym):
                return operator.index(a)
            return a
        return real_call(name, tuple(fx(a) for a in args), {k: fx(v) for k, v in kw.items()})
    MODELS[name] = f


for _n in ("GroupFromBinCount", "MakeiFirst", "MakeiNext", "GroupByPack32", "CombineFilter", "CombineAccum1Filter",
           "CombineAccum2Filter", "ReverseShuffle", "ReIndexGroups"):
    _forked(_n)


@model()
def GroupFromLexSort(isort, arrs, cutoffs=None, base_index=1):
    raise Unsupported("GroupFromLexSort")


@model()
def IsSorted(a, *r):
    el = elems(a)
    ok = []
    for x, y in zip(el, el[1:]):
        if a.dtype.kind == "f":
            nx, ny = zb(s_isnan(x)), zb(s_isnan(y))
            ok.append(z3.Or(ny, z3.And(z3.Not(nx), zb(s_cmp("<=", x, y)))))
        else:
            ok.append(zb(N._binary("less_equal", x, y, BOOL)))
    return bool(mkbool(z3.And(*ok))) if ok else True


@model()
def BinsToCutsBSearch(x, bins, mode):
    if x.dtype.kind in "SU":
        raise Unsupported("string bins")
    el, bs = elems(x), elems(bins)
    nb = len(bs)
    if x.dtype.kind in "iub" and bins.dtype.kind == "f":
        # the edges are converted to the type of the values
        ii = np.iinfo(x.dtype if x.dtype != BOOL else np.int8)
        for b in bs:
            if not (bool(s_cmp(">", b, F64.type(ii.min))) and bool(s_cmp("<", b, F64.type(ii.max)))):
                raise Unsupported("edges outside the type")
        bs = [s_cast(b, x.dtype) if isinstance(b, Sym) else x.dtype.type(int(b)) for b in bs]
    dt = np.dtype(rc.BinsToCutsBSearch(_nd.view(np.ones(1, x.dtype), fa_cls()), _nd.view(np.arange(nb).astype(bins.dtype), fa_cls()), mode).dtype)
    out = []
    for v in el:
        if mode in (1, 2):
            # searchsorted left / right; NaN sorts last
            nan = zb(s_isnan(v))
            if nb >= 8 and isinstance(v, Sym) and not any(isinstance(b, Sym) for b in bs):
                # concrete table: binary search, forking on each comparison
                lo, hi = (nb, nb) if bool(mkbool(nan)) else (0, nb)
                while lo < hi:
                    m = (lo + hi) // 2
                    if bool(s_cmp("<" if mode == 1 else "<=", bs[m], v)):
                        lo = m + 1
                    else:
                        hi = m
                out.append(dt.type(lo))
                continue
            if mode == 1:
                t = z3.Sum([z3.If(zb(s_cmp("<", b, v)), 1, 0) for b in bs])
            else:
                t = z3.Sum([z3.If(zb(s_cmp("<=", b, v)), 1, 0) for b in bs])
            out.append(mkint(z3.If(nan, nb, t), 0, nb, dt))
        else:
            # cut: first bin closed on the left; out of range, NaN and invalid -> 0
            t = z3.Sum([z3.If(zb(s_cmp("<", b, v)), 1, 0) for b in bs])
            t = z3.If(zb(s_cmp("==", v, bs[0])), 1, t)
            bad = z3.Or(zb(s_isinv(v, x.dtype)), zb(s_cmp("<", v, bs[0])), zb(s_cmp(">", v, bs[-1])))
            out.append(mkint(z3.If(bad, 0, t), 0, nb, dt))
    return mkfa(out, dt)


@model()
def NanInfCountFromSort(x, isort):
    el = [elems(x)[int(i)] for i in _gindex(isort)]
    n = len(el)
    if x.dtype.kind == "f":
        k = 0
        while k < n and bool(s_isnan(el[n - 1 - k])):
            k += 1
        return (k, 0, 0)  # the encoding has no infinities
    if x.dtype.kind == "i":
        k = 0
        while k < n and bool(s_isinv(el[k], x.dtype)):
            k += 1
        return (0, 0, k)
    if x.dtype.kind == "u":
        k = 0
        while k < n and bool(s_isinv(el[n - 1 - k], x.dtype)):
            k += 1
        return (0, k, 0)
    raise Unsupported("type")


@model()
def BinsToCutsSorted(x, bins, isort, counts, mode):
    el, bs, p = elems(x), elems(bins), [int(i) for i in _gindex(isort)]
    nb, n = len(bs), len(el)
    dt = np.dtype(rc.BinsToCutsBSearch(_nd.view(np.ones(1, np.float64), fa_cls()), _nd.view(np.arange(nb).astype(np.float64), fa_cls()), 0).dtype)
    out = [dt.type(0)] * n
    for i in p[counts[2]:n - counts[0] - counts[1]]:
        v = s_cast(el[i], F64)
        t = z3.Sum([z3.If(zb(s_cmp("<", b, v)), 1, 0) for b in bs])
        t = z3.If(zb(s_cmp("==", v, bs[0])), 1, t)
        bad = z3.Or(zb(s_cmp("<", v, bs[0])), zb(s_cmp(">", v, bs[-1])))
        out[i] = mkint(z3.If(bad, 1, t + 1), 1, nb, dt) if nb > 1 else dt.type(1)
    return mkfa(out, dt)


@model()
def CompareNumpyMemAddress(a, b):
    return N._plain(a).__array_interface__["data"][0] == N._plain(b).__array_interface__["data"][0]


class Crc:
    """checksum of symbolic contents: equal exactly when the contents are (collisions are outside the model)."""

    def __init__(self, a):
        self.dt, self.els = a.dtype, list(elems(a))

    def real(self):
        a = mkfa(list(self.els), self.dt)
        return symrc.CalculateCRC(concretise(a, "checksum compared with a number"))

    def __hash__(self):
        return 0

    def __eq__(self, other):
        if not isinstance(other, Crc):
            return self.real() == other
        if len(self.els) != len(other.els) or self.dt.itemsize != other.dt.itemsize:
            return False
        if self.dt.kind != other.dt.kind:
            return self.real() == other.real()
        t = []
        for x, y in zip(self.els, other.els):
            if x is y:
                continue
            if self.dt.kind in "SU":
                r = x == y
                t.append(zb(r))
                continue
            r = zb(s_cmp("==", x, y))
            if self.dt.kind == "f":
                r = z3.Or(r, z3.And(zb(s_isnan(x)), zb(s_isnan(y))))
            t.append(r)
        return bool(mkbool(z3.And(*t))) if t else True

    def __ne__(self, other):
        return not (self == other)



@model()
def CalculateCRC(a):
    return Crc(a)


@model()
def MultiKeyAlign32(k1, k2, t1, t2, forward, exact):
    """as-of alignment of time-sorted inputs: per row of side 1, the last (backward) or first
    (forward) row of side 2 with equal key on the proper side of the time."""
    if t1.dtype != t2.dtype:
        raise ValueError(f"MultiKeyAlign32 data types are not the same dtype.num: {t1.dtype.num} vs {t2.dtype.num}")
    flat = lambda k: [elems(x) for y in k for x in (y if isinstance(y, (list, tuple)) else [y])]
    a, b = flat(k1), flat(k2)
    x, y = elems(t1), elems(t2)
    out = []
    for i in range(len(x)):
        r = np.int64(INV[I32])
        order = range(len(y)) if not forward else range(len(y) - 1, -1, -1)
        for j in order:
            same = [zb(N._binary("equal", p[i], q[j], BOOL)) for p, q in zip(a, b)]
            op = (">=" if exact else ">") if forward else ("<=" if exact else "<")
            c = mkbool(z3.And(zb(s_cmp(op, y[j], x[i])), *same))
            r = s_where(c, np.int64(j), r, I64)
        out.append(s_cast(r, I32))
    return mkfa(out, I32)


# ---------------------------------------------------------------------------
# group aggregates: keys forked to concrete group numbers, values symbolic
# ---------------------------------------------------------------------------
def _gsum(xs, dt):
    r = dt.type(0)
    for x in xs:
        r = s_bin("+", r, s_cast(x, dt), dt)
    return r


def _or(xs):
    xs = list(xs)
    return mkbool(z3.Or(*[zb(x) for x in xs])) if xs else np.bool_(False)


def _gsumdt(dt):
    return dt if dt.kind == "f" else np.dtype(np.uint64) if dt.kind == "u" else I64


def _gagg(f, xs, dt):
    """basic (unpacked) aggregate f of the values xs of one group."""
    nan = f >= 50
    f = f % 50
    isv = [s_isinv(x, dt) if dt != BOOL else np.bool_(False) for x in xs]
    inv = _or(isv)
    if f == 0:
        od = _gsumdt(dt)
        if nan:
            return _gsum([s_where(v, dt.type(0), x, dt) if dt != BOOL else x for v, x in zip(isv, xs)], od), od
        s = _gsum(xs, od)
        return (s_where(inv, inv_of(od), s, od) if dt.kind != "f" else s), od
    if f == 1:
        od = dt if dt.kind == "f" else F64
        if not xs:
            return od.type(np.nan), od
        vals = [s_cast(x, F64) for x in xs]
        if nan:
            # number of valid entries decided by forking: exact division
            good = [x for v, x in zip(isv, vals) if not bool(v)]
            if not good:
                return od.type(np.nan), od
            return s_cast(s_bin("/", _gsum(good, F64), np.float64(len(good)), F64), od), od
        m = s_bin("/", _gsum(vals, F64), np.float64(len(vals)), F64)
        return s_cast(s_where(inv, np.float64(np.nan), m, F64) if dt.kind != "f" else m, od), od
    if f in (2, 3):
        op = "<" if f == 2 else ">"
        if not xs:
            return (inv_of(dt) if dt != BOOL else np.bool_(True)), dt
        if dt == BOOL:
            return mkbool((z3.And if f == 2 else z3.Or)(*[zb(x) for x in xs])), dt
        best, have = inv_of(dt), np.bool_(False)
        for v, x in zip(isv, xs):
            take = mkbool(z3.And(z3.Not(zb(v)), z3.Or(z3.Not(zb(have)), zb(s_cmp(op, x, best)))))
            best = s_where(take, x, best, dt)
            have = mkbool(z3.Or(zb(have), z3.Not(zb(v))))
        if not nan:
            best = s_where(inv, inv_of(dt), best, dt)
        return best, dt
    raise Unsupported(f"group aggregate {f}")


def _gindex(a):
    return [int(x) for x in elems(fork_index(a) if has_sym(a) else a)]


def _concvals(name, values, rest):
    """kernels without a symbolic model: concrete values, group numbers forked, compiled function called."""
    if has_sym(values):
        raise Unsupported("values")

    def fx(a):
        if isinstance(a, _nd) and isobj(a) and has_sym(a):
            if a.dtype.kind not in "biu":
                raise Unsupported("non-integer argument")
            return fork_index(a).view(fa_cls())
        if type(a) in (list, tuple):
            return type(a)(fx(x) for x in a)
        return operator.index(a) if isinstance(a, Sym) else a
    return real_call(name, (values,) + tuple(fx(a) for a in rest), {})


@model()
def GroupByAll32(values, ikey, uniq, funcs, los, his, param=0):
    uniq = operator.index(uniq)
    if any(v.dtype.kind not in "biuf" for v in values) or any(int(f) % 50 > 3 for f in funcs):
        return _concvals("GroupByAll32", values, (ikey, uniq, funcs, los, his, param))
    ik = _gindex(ikey)
    out = []
    for v, f, lo, hi in zip(values, funcs, los, his):
        el, f = elems(v), int(f)
        res = [None] * (uniq + 1)
        od = None
        for g in range(uniq + 1):
            xs = [x for x, k in zip(el, ik) if k == g] if lo <= g < hi else []
            res[g], od = _gagg(f, xs, v.dtype)
        out.append(mkfa(res, od))
    return tuple(out)


def _gdefault(dt):
    return b"" if dt.kind == "S" else "" if dt.kind == "U" else (inv_of(dt) if dt != BOOL else np.bool_(False))


@model()
def GroupByAllPack32(values, ikey, igroup, ifirst, ncount, uniq, funcs, los, his, param=0):
    uniq = operator.index(uniq)
    ig, fi, nc = _gindex(igroup), _gindex(ifirst), _gindex(ncount)
    fs = set(int(f) for f in funcs)
    if not fs <= {100, 101, 102, 200, 201, 202, 203, 204, 205, 206}:
        return _concvals("GroupByAllPack32", values, (ikey, igroup, ifirst, ncount, uniq, funcs, los, his, param))
    out = []
    p = operator.index(param) if not isinstance(param, (tuple, list)) else param
    for v, f, lo, hi in zip(values, funcs, los, his):
        f = int(f)
        el, dt = elems(v), v.dtype
        rows = [ig[fi[g]:fi[g] + nc[g]] if lo <= g < hi else [] for g in range(len(nc))]
        if f < 200:
            res = []
            for r in rows:
                k = 0 if f == 100 else len(r) - 1 if f == 102 else p
                res.append(el[r[k]] if 0 <= k < len(r) else _gdefault(dt))
            out.append(mkfa(res, dt))
            continue
        n = len(el)
        if dt.kind not in "biuf" and f != 203:
            raise Unsupported("string rolling")
        if f == 204:
            res = [np.int32(INV[I32])] * n
            for r in rows[1:]:
                for c, i in enumerate(r if p >= 0 else r[::-1]):
                    res[i] = np.int32(c)
            out.append(mkfa(res, I32))
            continue
        if f in (200, 201):
            od = dt if dt.kind == "f" else I64
        elif f in (205, 206):
            od = dt if dt.kind == "f" and dt.itemsize == 4 else F64
            od = F64
        else:
            od = dt
        res = [_gdefault(od)] * n
        for r in rows[1:]:
            for c, i in enumerate(r):
                if f in (202, 203):
                    q = c - p
                    if not 0 <= q < len(r):
                        continue
                    res[i] = el[r[q]] if f == 203 else s_bin("-", el[i], el[r[q]], dt)
                    continue
                # float rolling sums of the kernel are running sums: a NaN poisons the rest of the group
                start = max(0, c - p + 1)
                win = r[start:c + 1]
                xs = [el[k] for k in win]
                if f in (200, 205):
                    if dt.kind == "f":
                        bad = _or(s_isnan(el[k]) for k in r[:c + 1])
                        s = s_where(bad, od.type(np.nan), _gsum(xs, od), od)
                    else:
                        s = _gsum(xs, od if f == 200 else F64)
                    res[i] = s if f == 200 else s_bin("/", s, np.float64(len(xs)), F64)
                else:
                    isv = [s_isinv(x, dt) if dt != BOOL else np.bool_(False) for x in xs]
                    if f == 201:
                        res[i] = _gsum([s_where(b, dt.type(0), x, dt) for b, x in zip(isv, xs)], od)
                    else:
                        good = [x for b, x in zip(isv, xs) if not bool(b)]
                        res[i] = s_bin("/", _gsum(good, F64), np.float64(len(good)), F64) if good else np.float64(np.nan)
        out.append(mkfa(res, od))
    return tuple(out)


@model()
def EmaAll32(values, ikey, uniq, func, param):
    func = int(func)
    if func not in (300, 303):
        return _concvals("EmaAll32", values, (ikey, uniq, func, param))
    ik = _gindex(ikey)
    _, tm, filt, reset = param
    n = len(ik)
    fl = [np.bool_(True)] * n if filt is None else [x for x in elems(filt)]
    rs = [np.bool_(False)] * n if reset is None else [x for x in elems(reset)]
    out = []
    for v in values:
        el, dt = elems(v), v.dtype
        if dt.kind not in "biuf":
            raise Unsupported("string cum")
        if func == 303:
            cnt, res = {}, []
            for i, g in enumerate(ik):
                if g == 0 or not bool(fl[i]):
                    res.append(np.int32(0))
                    continue
                cnt[g] = cnt.get(g, 0) + 1
                res.append(np.int32(cnt[g]))
            out.append(mkfa(res, I32))
            continue
        if func == 300:
            od = dt if dt.kind == "f" else I64
            tot, res = {}, []
            for i, g in enumerate(ik):
                if g == 0:
                    res.append(inv_of(od))
                    continue
                t = tot.get(g, od.type(0))
                if bool(rs[i]):
                    t = od.type(0)
                if bool(fl[i]):
                    t = s_bin("+", t, s_cast(el[i], od), od)
                tot[g] = t
                res.append(t)
            out.append(mkfa(res, od))
            continue
        raise Unsupported("cummin/cummax")
    return out


@model()
def Rolling(a, func, window):
    """the grouped rolling kernel over one group of all rows."""
    f = {0: 200, 1: 201, 102: 205, 103: 206}.get(int(func))
    if f is None:
        raise Unsupported("rolling quantile of symbolic values")
    n = len(a)
    z = lambda l: mkfa([np.int32(x) for x in l], I32)
    return MODELS["GroupByAllPack32"]((a,), z([1] * n), z(range(n)), z([0, 0]), z([0, n]), 1, [f], [0], [2], window)[0]


@model()
def TimeWindow(a, time, func, dist):
    el, tm, dt = elems(a), elems(time), a.dtype
    if np.dtype(time.dtype).kind != "i" or dt.kind not in "biuf":
        raise Unsupported("time window")
    od = dt if dt.kind == "f" else np.dtype(np.uint64) if dt.kind == "u" else I64
    res = []
    for i in range(len(el)):
        acc = s_cast(el[i], od)
        for j in range(i - 1, -1, -1):
            if not bool(s_cmp("<=", s_bin("-", s_cast(tm[i], I64), s_cast(tm[j], I64), I64), s_cast(dist, I64))):
                break
            acc = s_bin("+" if int(func) == 0 else "*", acc, s_cast(el[j], od), od)
        res.append(acc)
    return mkfa(res, od)
