"""Loads riptable from /repo so that it runs on symbolic arrays.

* riptable modules are compiled from their current source, with `numpy`,
  `numba` and `riptide_cpp` replaced by the symbolic counterparts;
* builtins such as isinstance/int/len are shadowed by versions that treat a
  symbolic scalar as the numpy scalar it stands for;
* jitted functions run as plain Python over symbolic arrays.
"""
import sys, os, ast, types, importlib, importlib.abc, importlib.machinery, builtins, functools, operator
import numpy as np
import z3
from . import engine as E
from .engine import *
from . import symnd as N
from .symnd import SymNd, mk, mklist, has_sym, isobj, elems, is_snd, promote

REPO = os.environ.get("VERIF_REPO", "/repo")


# ---------------------------------------------------------------------------
# builtins shims
# ---------------------------------------------------------------------------
_isinstance, _type, _int, _float, _bool, _len, _range, _min, _max, _sum, _abs, _any, _all, _round, _sorted, _hash, _str, _callable = (
    isinstance, type, int, float, bool, len, range, min, max, sum, abs, any, all, round, sorted, hash, str, callable)


def _rep(x):
    if _isinstance(x, SymBool):
        return np.False_
    if _isinstance(x, SymBytes):
        return np.bytes_(b"") if x.dt.kind == "S" else np.str_("")
    return x.dtype.type(0)


def _fix_cls(c):
    if c is np.ndarray:
        return c
    return c


def sx_isinstance(x, c):
    if _isinstance(x, Sym):
        if c is Sym:
            return True
        if getattr(x, "py", False):
            r = 0 if _isinstance(x, SymInt) else 0.0
        else:
            r = _rep(x)
        if _isinstance(c, tuple):
            c = tuple(_shim_types.get(k, k) if not _isinstance(k, tuple) else k for k in c)
        return _isinstance(r, c)
    return _isinstance(x, c)


class _TypeMeta(type):
    def __instancecheck__(cls, x):
        return _isinstance(x, _type)

    def __call__(cls, *a, **k):
        if _len(a) == 1:
            x = a[0]
            if _isinstance(x, Sym):
                if getattr(x, "py", False):
                    return _int if _isinstance(x, SymInt) else _float
                return _type(_rep(x))
            return _type(x)
        return _type(*a, **k)


def _mkshim(name, base, conv):
    class M(_type):
        def __instancecheck__(cls, x):
            return sx_isinstance(x, base)

        def __subclasscheck__(cls, c):
            return issubclass(c, base)

        def __call__(cls, *a, **k):
            if _len(a) == 1 and not k:
                x = a[0]
                if _isinstance(x, np.ndarray) and isobj(x) and x.size == 1:
                    x = elems(x)[0]
                if _isinstance(x, Sym):
                    return conv(x)
                return base(x)
            return base(*a, **k)

        def __eq__(cls, o):
            return o is cls or o is base

        def __hash__(cls):
            return _hash(base)

    return M


def conv_int(x):
    if _isinstance(x, SymInt):
        return x
    if _isinstance(x, SymBool):
        return x._int()
    return s_cast(x, I64)


def conv_float(x):
    return s_cast(x, F64)


def conv_bool(x):
    return _bool(x)


def sx_int(*a, **k):
    if _len(a) == 1 and not k:
        x = a[0]
        if _isinstance(x, np.ndarray) and isobj(x) and x.size == 1:
            x = elems(x)[0]
        if _isinstance(x, Sym):
            return conv_int(x)
    return _int(*a, **k)


def sx_float(*a):
    if _len(a) == 1:
        x = a[0]
        if _isinstance(x, np.ndarray) and isobj(x) and x.size == 1:
            x = elems(x)[0]
        if _isinstance(x, Sym):
            return conv_float(x)
    return _float(*a)


def sx_range(*a):
    return _range(*[operator.index(x) if _isinstance(x, Sym) else x for x in a])


def _fold(f, is_max):
    def g(*a, **k):
        if k:
            return f(*a, **k)
        xs = list(a[0]) if _len(a) == 1 else list(a)
        if any(_isinstance(x, Sym) for x in xs):
            r = xs[0]
            for x in xs[1:]:
                # python semantics: replace when strictly greater/less
                c = s_cmp(">" if is_max else "<", x, r)
                r = s_where(c, x, r)
            return r
        if _len(a) == 1:
            return f(xs)
        return f(*a)
    return g


sx_min = _fold(min, False)
sx_max = _fold(max, True)


def sx_round(x, nd=None):
    if _isinstance(x, Sym):
        return N.s_round(x, "rint", F64)
    return _round(x) if nd is None else _round(x, nd)


def sx_len(x):
    return _len(x)


# calls of these builtins are rewritten: name -> replacement
CALLS = {
    "isinstance": sx_isinstance, "int": sx_int, "float": sx_float, "range": sx_range, "min": sx_min, "max": sx_max,
    "type": lambda *a, **k: _TypeMeta.__call__(None, *a, **k), "round": sx_round,
}
_shim_types = {}


def sx_npcall(t, *a, **k):
    """np.int64(x), np.float64(x), ... on symbolic scalars."""
    if _isinstance(t, _nb.types.Type):
        if _len(a) == 1 and not k and _isinstance(a[0], (_int, Sym, np.generic)):
            return s_cast(a[0], np.dtype(_str(t)))
        return t(*a, **k)
    if _len(a) == 1 and not k:
        x = a[0]
        if _isinstance(x, np.ndarray) and isobj(x):
            if x.ndim == 0 or x.size == 1 and x.ndim == 0:
                x = elems(x)[0]
            else:
                return x.astype(t)
        if _isinstance(x, Sym):
            return s_cast(x, np.dtype(t))
    return t(*a, **k)


NPTYPES = {"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "bool_", "intp", "longlong"}


class Rewrite(ast.NodeTransformer):
    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in CALLS:
            node.func = ast.copy_location(ast.Name(id=f"__sx_{f.id}__", ctx=ast.Load()), f)
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("np", "nb") and f.attr in NPTYPES:
            node.args.insert(0, f)
            node.func = ast.copy_location(ast.Name(id="__sx_npcall__", ctx=ast.Load()), f)
        elif isinstance(f, ast.Attribute) and f.attr == "type" and len(node.args) == 1 and not node.keywords:
            # dtype.type(x)
            node.args.insert(0, f)
            node.func = ast.copy_location(ast.Name(id="__sx_npcall__", ctx=ast.Load()), f)
        return node

    def visit_Import(self, node):
        out = []
        for a in node.names:
            if a.name == "numpy":
                out.append(_imp("sx.symnp", a.asname or "numpy"))
            elif a.name == "numba":
                out.append(_imp("sx.symnb", a.asname or "numba"))
            elif a.name == "re":
                out.append(_imp("sx.symre", a.asname or "re"))
            elif a.name == "riptide_cpp":
                out.append(_imp("sx.symrc", a.asname or "riptide_cpp"))
            else:
                out.append(ast.Import(names=[a]))
        return [ast.copy_location(o, node) for o in out]

    def visit_ImportFrom(self, node):
        if node.level == 0 and node.module == "numpy":
            node.module = "sx.symnp"
        elif node.level == 0 and node.module == "numba":
            node.module = "sx.symnb"
        elif node.level == 0 and node.module == "numba.extending":
            node.module = "sx.symnb"
        elif node.level == 0 and node.module == "numba.core.dispatcher":
            node.module = "sx.symnb"
        elif node.level == 0 and node.module == "riptide_cpp":
            node.module = "sx.symrc"
        return node


def _imp(mod, name):
    # "import sx.symnp" binds sx; use "from sx import symnp as name"
    pkg, sub = mod.split(".")
    return ast.ImportFrom(module=pkg, names=[ast.alias(name=sub, asname=name)], level=0)


class Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data, path)
        if "/tests/" not in path:
            tree = Rewrite().visit(tree)
            ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True)

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def exec_module(self, module):
        d = module.__dict__
        for k, v in CALLS.items():
            d[f"__sx_{k}__"] = v
        d["__sx_npcall__"] = sx_npcall
        super().exec_module(module)
        if module.__name__ == "riptable.rt_enum":
            # the compiled operator hook is not installed here, so module-level
            # array arithmetic needs the dispatch object before it is registered
            from . import rcmodel

            class _Boot:
                _BASICMATH_TWO_INPUTS = staticmethod(lambda t, f, n: rcmodel.symrc.BasicMathTwoInputs(t, f, n))
                _BASICMATH_ONE_INPUT = staticmethod(lambda t, f, n: rcmodel.symrc.BasicMathOneInput(t, f, n))
                _REDUCE = staticmethod(lambda a, f: rcmodel.symrc.Reduce(a, f))
                _ARRAY_UFUNC = staticmethod(lambda f, u, m, *a, **k: f.__array_ufunc__(u, m, *a, **k))
                _AS_FA_TYPE = staticmethod(lambda a, n, *r, **k: rcmodel.symrc.ConvertSafe(a, n))
                _AS_FA_TYPE_UNSAFE = staticmethod(lambda a, n, *r, **k: rcmodel.symrc.ConvertUnsafe(a, n))
                _ASTYPE = staticmethod(lambda f, d, *a, **k: f.astype(d, *a, **k))
                _INDEX_BOOL = staticmethod(lambda *a: rcmodel.symrc.BooleanIndex(*a))
                _GETITEM = staticmethod(lambda f, *a: f.__getitem__(*a))
                _MBGET = staticmethod(lambda *a: rcmodel.symrc.MBGet(*a))
                _COPY = staticmethod(lambda f, *a, **k: f.copy(*a, **k))

            if module.TypeRegister.MathLedger is None:
                module.TypeRegister.MathLedger = _Boot


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != "riptable" and not name.startswith("riptable."):
            return None
        rel = name.replace(".", "/")
        base = os.path.join(REPO, rel)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            f = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(name, f, loader=Loader(name, f), submodule_search_locations=[base])
        f = base + ".py"
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(name, f, loader=Loader(name, f))
        return None


# ---------------------------------------------------------------------------
# numpy proxy
# ---------------------------------------------------------------------------
def _active():
    return Engine.cur is not None


class SymNp(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith("__") and k not in ("__version__", "__name__"):
            raise AttributeError(k)
        return getattr(np, k)


symnp = SymNp("sx.symnp")
symnp.ndarray = SymNd


def _shape(s):
    if _isinstance(s, Sym):
        return (operator.index(s),)
    if _isinstance(s, (_int, np.integer)):
        return (_int(s),)
    if _isinstance(s, np.ndarray):
        return tuple(operator.index(x) for x in elems(s))
    return tuple(operator.index(x) for x in s)


def _creator(name, fillv):
    real = getattr(np, name)

    def f(shape, dtype=None, order="C", like=None, **k):
        if like is not None:
            k["like"] = like
        dt = np.dtype(dtype if dtype is not None else _float)
        shape = _shape(shape)
        if _active() and dt.kind in "biuf":
            n = 1
            for s in shape:
                n *= s
            v = dt.type(fillv)
            return mk([v] * n, dt, shape, SymNd, force=True)
        r = np.ndarray.view(real(shape, dtype=dt, order=order), SymNd)
        return r
    f.__name__ = name
    return f


symnp.empty = _creator("empty", 0)
symnp.zeros = _creator("zeros", 0)
symnp.ones = _creator("ones", 1)


def _full(shape, fill_value, dtype=None, order="C", like=None):
    if dtype is None:
        dtype = np.asarray(N.rep_of(fill_value)).dtype
    dt = np.dtype(dtype)
    if _active() and dt.kind in "biuf":
        r = symnp.empty(shape, dtype=dt)
        r[...] = fill_value
        return r
    return np.ndarray.view(np.full(_shape(shape), fill_value, dtype=dt, order=order), SymNd)


symnp.full = _full


def _arange(*a, **k):
    a = [operator.index(x) if _isinstance(x, SymInt) else x for x in a]
    k = {n: (operator.index(x) if _isinstance(x, SymInt) else x) for n, x in k.items()}
    r = np.ndarray.view(np.arange(*a, **k), SymNd)
    return r


symnp.arange = _arange


def _like(name):
    real = getattr(np, name)

    def f(a, *args, **k):
        if _active() and _isinstance(a, np.ndarray):
            return N.NPF[real](a, *args, **k)
        return N._wrap(real(a, *args, **k))
    return f


for _n in ("empty_like", "zeros_like", "ones_like", "full_like"):
    setattr(symnp, _n, _like(_n))


def _deepobj(x):
    return N.any_obj(x)


def _mkarray(x, dtype=None, copy=True, order="K", subok=False, ndmin=0, like=None):
    if _isinstance(x, Sym):
        dt = np.dtype(dtype) if dtype is not None else x.dtype
        r = mk([s_cast(x, dt) if dt.kind in "biuf" else x], dt, ())
    elif _isinstance(x, (list, tuple)) and has_sym(x):
        r = mklist(list(x))
        if dtype is not None and np.dtype(dtype) != r.dtype:
            r = r.astype(dtype)
    elif _isinstance(x, np.ndarray) and isobj(x):
        r = x
        if not subok and _type(r) is not SymNd:
            r = r.view(SymNd)
        if dtype is not None and np.dtype(dtype) != r.dtype:
            r = SymNd.astype(r, dtype)
        elif copy:
            r = SymNd.copy(r)
    else:
        if _isinstance(x, (list, tuple)):
            x = [N.demote(v) if _isinstance(v, np.ndarray) else v for v in x]
        return N._wrap(np.array(x, dtype=dtype, copy=copy, order=order, subok=subok, ndmin=ndmin))
    while r.ndim < ndmin:
        r = r.reshape((1,) + r.shape)
    return r


symnp.array = _mkarray
symnp.asarray = lambda x, dtype=None, order=None, like=None: _mkarray(x, dtype, False)
symnp.asanyarray = lambda x, dtype=None, order=None, like=None: _mkarray(x, dtype, False, subok=True)
symnp.ascontiguousarray = lambda x, dtype=None, like=None: _mkarray(x, dtype, False) if not _isinstance(x, np.ndarray) or isobj(x) else N._wrap(np.ascontiguousarray(x, dtype))
symnp.isscalar = lambda x: True if _isinstance(x, Sym) else np.isscalar(x)


def _np_func(name):
    real = getattr(np, name)

    def f(*a, **k):
        if any(_isinstance(x, Sym) for x in a) or any(_isinstance(x, (list, tuple)) and has_sym(x) for x in a):
            m = N.NPF.get(real)
            if m is not None:
                return m(*a, **k)
        return N._wrap(real(*a, **k))
    f.__name__ = name
    return f


for _n in ("where", "concatenate", "hstack", "searchsorted", "any", "all", "isin", "result_type", "min_scalar_type", "lexsort", "max", "min", "sum"):
    setattr(symnp, _n, _np_func(_n))


# ---------------------------------------------------------------------------
# numba proxy
# ---------------------------------------------------------------------------
import numba as _nb

JIT_DEPTH = [0]
OVERLOADS = {}


class SymNb(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return getattr(_nb, k)


symnb = SymNb("sx.symnb")


def _jit_args(a):
    if is_snd(a):
        if Engine.cur is not None and not isobj(a):
            promote(a)
        return a.view(SymNd) if _type(a) is not SymNd else a
    if _isinstance(a, tuple):
        return tuple(_jit_args(x) for x in a)
    return a


class Jitted:
    """callable standing for a compiled function; runs the Python body."""

    def __init__(self, fn):
        functools.update_wrapper(self, fn)
        self.py_func = fn

    def __call__(self, *a, **k):
        JIT_DEPTH[0] += 1
        try:
            return self.py_func(*[_jit_args(x) for x in a], **{n: _jit_args(v) for n, v in k.items()})
        finally:
            JIT_DEPTH[0] -= 1

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        return functools.partial(self, obj)

    targetoptions = {}
    signatures = []

    def compile(self, *a, **k):
        return self

    def disable_compile(self, *a):
        pass

    @property
    def overloads(self):
        return {}


Dispatcher = Jitted


def sx_jit(*a, **k):
    if _len(a) >= 1 and _callable(a[0]) and not _isinstance(a[0], (_str, _nb.core.typing.templates.Signature)):
        return Jitted(a[0])
    return lambda f: Jitted(f)


symnb.jit = symnb.njit = sx_jit
symnb.generated_jit = sx_jit
symnb.Dispatcher = Jitted
symnb.prange = sx_range


def sx_vectorize(*a, **k):
    def deco(f):
        v = np.frompyfunc(f, f.__code__.co_argcount, 1)

        @functools.wraps(f)
        def g(*args, **kw):
            out = kw.get("out")
            shape = N._bshape([x for x in args if _isinstance(x, np.ndarray)])
            cols = [N._belems(x, shape) for x in args]
            vals = [f(*t) for t in zip(*cols)]
            if shape == ():
                return vals[0]
            dts = [dtype_of(x) for x in vals]
            dt = functools.reduce(np.promote_types, dts) if dts else F64
            return mk(vals, dt, shape)
        g.py_func = f
        return g
    if _len(a) == 1 and _callable(a[0]):
        return deco(a[0])
    return deco


symnb.vectorize = sx_vectorize


def sx_guvectorize(sigs, layout, **k):
    """(n)->(n)-style generalized ufunc over 1-d arguments: call the body once."""
    def deco(f):
        @functools.wraps(f)
        def g(*args, **kw):
            JIT_DEPTH[0] += 1
            try:
                nin = layout.split("->")[0].count("(")
                outs = list(args[nin:])
                if "out" in kw:
                    o = kw["out"]
                    outs = list(o) if _isinstance(o, tuple) else [o]
                ins = []
                specs = layout.split("->")[0].replace(" ", "").strip("()").split("),(")
                for x, sp in zip(args[:nin], specs):
                    ins.append(_jit_args(x))
                if not outs:
                    raise Unsupported("guvectorize without out")
                f(*ins, *[_jit_args(o) for o in outs])
                return outs[0] if _len(outs) == 1 else tuple(outs)
            finally:
                JIT_DEPTH[0] -= 1
        g.py_func = f
        return g
    return deco


symnb.guvectorize = sx_guvectorize


class _Extending(types.ModuleType):
    def __getattr__(self, k):
        return getattr(_nb.extending, k)


class _Typ:
    """numba type stand-in derived from a runtime value."""


def nbtype(x):
    if _isinstance(x, np.ndarray):
        d = x.dtype
        return _nb.types.Array(_nb.from_dtype(d), x.ndim, "C")
    if _isinstance(x, Sym):
        return _nb.from_dtype(x.dtype)
    if _isinstance(x, np.generic):
        return _nb.from_dtype(x.dtype)
    if x is None:
        return _nb.types.none
    return _nb.typeof(x)


def sx_overload(target, **kw):
    def deco(gen):
        import inspect
        OVERLOADS[target] = gen
        mod = sys.modules.get(target.__module__)
        name = target.__name__
        orig = target

        @functools.wraps(target)
        def tramp(*a, **k):
            if JIT_DEPTH[0] == 0:
                return orig(*a, **k)
            impl = gen(*[nbtype(x) for x in a], **{n: nbtype(v) for n, v in k.items()})
            return impl(*a, **k)
        if mod is not None and getattr(mod, name, None) is target:
            setattr(mod, name, tramp)
        # other modules that imported the plain function by name
        for m in list(sys.modules.values()):
            if m is not None and getattr(m, "__name__", "").startswith("riptable"):
                for n, v in list(vars(m).items()):
                    if v is target:
                        setattr(m, n, tramp)
        return gen
    return deco


symext = _Extending("sx.symext")
symext.overload = sx_overload
symext.register_jitable = lambda *a, **k: (a[0] if a and _callable(a[0]) else (lambda f: f))
symnb.extending = symext
symnb.overload = sx_overload
symnb.register_jitable = symext.register_jitable


# ---------------------------------------------------------------------------
# regular expressions: the C engine runs on concrete text, so symbolic strings fork
# ---------------------------------------------------------------------------
import re as _re


def _text(x):
    if _isinstance(x, N.SymBytes):
        c = []
        for v in x.c:
            v = operator.index(v)
            if v == 0:
                break
            c.append(v)
        return "".join(map(chr, c)) if x.dt.kind == "U" else bytes(c)
    return x


class SymPattern:
    def __init__(self, p):
        self.p = p

    def __getattr__(self, k):
        v = getattr(self.p, k)
        if not _callable(v):
            return v
        return lambda *a, **kw: v(*[_text(x) for x in a], **{n: _text(x) for n, x in kw.items()})


class SymRe(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        v = getattr(_re, k)
        if k in ("search", "match", "fullmatch", "sub", "subn", "split", "findall", "finditer"):
            return lambda *a, **kw: v(*[x.p if _isinstance(x, SymPattern) else _text(x) for x in a], **kw)
        return v

    @staticmethod
    def compile(*a, **k):
        return SymPattern(_re.compile(*a, **k))


symre = SymRe("sx.symre")


def _np_vectorize(f, otypes=None, **kw):
    real = np.vectorize(f, otypes=otypes, **kw)

    def g(*a, **k):
        if not any(_isinstance(x, np.ndarray) and isobj(x) for x in a):
            return N._wrap(real(*a, **k))
        if otypes is not None or k or _len(a) != 1:
            raise Unsupported("vectorize")
        if _len(a[0]) == 0:
            raise ValueError("cannot call `vectorize` on size 0 inputs unless `otypes` is set")
        r = [f(x) for x in N.elems(a[0])]
        return (mklist(r) if has_sym(r) else N._wrap(np.array(r))).view(_type(a[0]))
    return g


symnp.vectorize = _np_vectorize


def install():
    import sx
    from . import rcmodel, sdsmodel
    sdsmodel.install()
    sx.symnp, sx.symnb, sx.symrc = symnp, symnb, rcmodel.symrc
    sys.modules["sx.symnp"] = symnp
    sys.modules["sx.symnb"] = symnb
    sx.symre = sys.modules["sx.symre"] = symre
    sys.modules["sx.symrc"] = rcmodel.symrc
    sys.meta_path.insert(0, Finder())
    import riptable
    return riptable
