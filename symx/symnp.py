"""The `np` seen by the shadow modules."""
import math
import types

import numpy as np

from . import core, nd
from .core import Num, Bool, Unsupported
from .nd import SA, as_sa, has_sa, has_sym, raw, wrap, from_real, make, cast, to_obj, Masked

_passthrough = {
    'ndarray', 'generic', 'number', 'integer', 'floating', 'inexact', 'bool_', 'dtype', 'pi', 'e', 'inf',
    'nan', 'newaxis', 'errstate', 'seterr', 'finfo', 'iinfo', 'float64', 'float32', 'float16', 'int8',
    'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'object_', 'str_', 'void',
    'intp', 'complex128', 'complex64', 'exceptions', 'random', 'typing', 'testing', 'lib', 'rec',
    'vectorize', 'ndindex', 's_', 'index_exp', 'issubdtype', 'inexact', 'euler_gamma', 'promote_types', 'can_cast',
    'broadcast_shapes', 'get_printoptions', 'set_printoptions', 'printoptions', 'nditer', 'ogrid', 'mgrid', 'r_', 'c_',
    'character', 'flexible', 'isdtype', 'signedinteger', 'unsignedinteger', 'double', 'single', 'byte', 'ubyte', 'longdouble',
    'True_', 'False_', 'bool', 'int_', 'float_', 'long', 'uint', 'timedelta64', 'datetime64', 'memmap', 'sctypeDict', 'ufunc', 'emath',
}


def _new(shape, dtype, v):
    if isinstance(shape, Num):
        shape = shape.__index__()
    if isinstance(shape, (list, tuple, np.ndarray)):
        shape = tuple(int(x) for x in shape)
    dt = np.dtype(dtype if dtype is not None else float)
    if dt.names is not None:
        return np.zeros(shape, dtype=dt)
    o = np.empty(shape, dtype=object)
    if dt != object or v is not None:
        o[...] = cast(v, dt) if v is not None else None
    r = make(o, dt)
    return r


class _Linalg:
    def __getattr__(self, n):
        f = getattr(np.linalg, n)
        if isinstance(f, type):
            return f
        h = nd.HANDLERS.get('linalg.' + n) or nd.HANDLERS.get(n)

        def g(*a, **k):
            if has_sym(a) and h is not None:
                return h(*a, **k)
            if has_sym(a) or has_sym(list(k.values())):
                raise Unsupported('np.linalg.' + n)
            return wrap(f(*raw(a), **raw(k)))
        g.__name__ = n
        return g


class SymNP(types.ModuleType):
    def __init__(self):
        super().__init__('symnp')
        self.__dict__['linalg'] = _Linalg()
        from .ma import MaProxy
        self.__dict__['ma'] = MaProxy()
        self.__dict__['bool'] = np.bool_
        self.__dict__['_cache'] = {}

    # creation -------------------------------------------------------------
    def zeros(self, shape, dtype=float, order='C', **kw):
        return _new(shape, dtype, 0)

    def ones(self, shape, dtype=float, order='C', **kw):
        return _new(shape, dtype, 1)

    def empty(self, shape, dtype=float, order='C', **kw):
        if dtype is object or (dtype is not None and np.dtype(dtype) == object):
            return make(np.empty(shape, dtype=object), object)
        return _new(shape, dtype, 0)

    def full(self, shape, fill_value, dtype=None, order='C', **kw):
        if dtype is None:
            dtype = nd.elem_dt(fill_value) if not isinstance(fill_value, (list, np.ndarray)) else as_sa(fill_value)._dt
        r = _new(shape, dtype, 0)
        r[...] = fill_value
        return r

    def array(self, obj, dtype=None, copy=True, order='K', subok=False, ndmin=0, **kw):
        if isinstance(obj, types.GeneratorType):
            raise Unsupported('np.array(generator)')
        r = as_sa(obj, dtype)
        if isinstance(r, SA) and r is obj and copy:
            r = r.copy()
        elif isinstance(r, SA) and copy and isinstance(obj, np.ndarray):
            r = r.copy()
        if ndmin and r.ndim < ndmin:
            r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
        return r

    def asarray(self, obj, dtype=None, order=None, **kw):
        return as_sa(obj, dtype)
    asanyarray = asarray

    def ascontiguousarray(self, obj, dtype=None, **kw):
        r = as_sa(obj, dtype)
        if not r.nd().flags.c_contiguous:
            r = r.copy()
        return r
    asfortranarray = asarray

    def copy(self, a, order='K', subok=False):
        r = as_sa(a)
        return r.copy()

    def fromiter(self, it, dtype=float, count=-1, **kw):
        return as_sa(list(it), dtype)

    def frombuffer(self, buf, dtype=float, count=-1, offset=0, **kw):
        return wrap(np.frombuffer(buf, dtype=dtype, count=count, offset=offset))

    def dot(self, a, b, out=None):
        return nd.fn_dot(a, b)

    def iterable(self, x):
        return np.iterable(x)

    def isscalar(self, x):
        return isinstance(x, (Num, Bool)) or np.isscalar(x)

    def where(self, *a):
        if len(a) == 1 or has_sa(a):
            return nd.fn_where(*a)
        return wrap(np.where(*a))

    def arange(self, *a, dtype=None, step=None, **kw):
        if not has_sym([*a, step]):
            return wrap(np.arange(*raw(a), **({'dtype': dtype} if dtype is not None else {}), **({'step': step} if step is not None else {})))
        start, stop = (0, a[0]) if len(a) == 1 else a[:2]
        step = a[2] if len(a) > 2 else 1 if step is None else step
        n = -core.pfloor(-((Num.const(stop) - start) / step))
        n = max(0, int(n) if not isinstance(n, Num) else n.__index__())
        r = as_sa([Num.const(start) + Num.const(step) * i for i in range(n)], None) if n else wrap(np.arange(0))
        return r.astype(dtype) if dtype is not None else r

    def meshgrid(self, *xs, **kw):
        return [wrap(x) if x.dtype != object else make(x, nd.infer_dt(x))
                for x in np.meshgrid(*[to_obj(x) if has_sa(x) else x for x in xs], **kw)]

    def loadtxt(self, fname, **kw):
        from .text import loadtxt
        return loadtxt(fname, **kw)

    def genfromtxt(self, fname, **kw):
        from .text import loadtxt
        return loadtxt(fname, **kw)

    def fromfile(self, *a, **kw):
        from .text import fromfile
        return fromfile(*a, **kw)

    def load(self, *a, **kw):
        from .text import load
        return load(*a, **kw)

    def savetxt(self, *a, **kw):
        from .text import savetxt
        return savetxt(*a, **kw)

    def fromstring(self, s, dtype=float, sep='', **kw):
        from .text import parse_number
        return as_sa([parse_number(x) for x in (s.split() if sep.strip() == '' else s.split(sep))], dtype)

    def __getattr__(self, n):
        c = self.__dict__['_cache']
        if n in c:
            return c[n]
        v = getattr(np, n)
        if n in _passthrough or isinstance(v, type) or not callable(v):
            return v
        h = nd.HANDLERS.get(n)
        isu = isinstance(v, np.ufunc)

        if isu:
            w = _UF(v)
        else:
            def w(*a, **k):
                if has_sa(a) or has_sa(k):
                    a = tuple(as_sa(x) if isinstance(x, (list, tuple)) and has_sym(x) and n not in nd.STRUCTURAL and n not in ('select', 'einsum') else x for x in a)
                    return nd.array_function(v, (), a, k)
                return wrap(v(*a, **k))
            w.__name__ = n
            w.__wrapped__ = v
        c[n] = w
        return w


class _UF:
    """callable ufunc wrapper that lifts lists containing symbolic values."""

    def __init__(self, uf):
        self.uf = uf
        self.__name__ = uf.__name__
        self.nin = uf.nin

    def __call__(self, *a, **k):
        nout = self.uf.nin
        ins, outs = a[:nout], a[nout:]
        if outs:
            k['out'] = outs
        if 'out' in k and not isinstance(k['out'], tuple):
            k['out'] = (k['out'],)
        if has_sa(a) or has_sa(k):
            return nd.array_ufunc(self.uf, '__call__', *ins, **k)
        if any(isinstance(x, np.ndarray) for x in ins) or any(isinstance(x, (list, tuple)) for x in ins):
            return nd.array_ufunc(self.uf, '__call__', *ins, **k)
        return self.uf(*ins, **k)

    def reduce(self, a, *r, **k):
        if r:
            k['axis'] = r[0]
        if 'axis' not in k:
            k['axis'] = 0
        return nd.array_ufunc(self.uf, 'reduce', a, **k)

    def outer(self, a, b, **k):
        return nd.array_ufunc(self.uf, 'outer', a, b)

    def accumulate(self, a, *r, **k):
        return nd.array_ufunc(self.uf, 'accumulate', a, **k)

    def at(self, a, *r):
        return nd.array_ufunc(self.uf, 'at', a, *r)


symnp = SymNP()


# ---- builtins as seen by the shadow modules ---------------------------------------
_b_int, _b_float, _b_bool = int, float, bool
_b_max, _b_min, _b_sum, _b_abs, _b_round, _b_sorted, _b_any, _b_all = max, min, sum, abs, round, sorted, any, all
_b_isinstance, _b_len, _b_range, _b_type = isinstance, len, range, type


def sx_int(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SA) and x.size == 1:
            x = x.reshape(-1)[0]
        if isinstance(x, Num):
            return nd.const_fold(core.ptrunc(x)) if x.is_const() else core.ptrunc(x)
        if isinstance(x, Bool):
            return Num.const(x)
        if isinstance(x, (str, bytes)):
            from .text import parse_number
            return parse_number(x, True)
    return _b_int(*a)


def sx_float(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SA) and x.size == 1:
            x = x.reshape(-1)[0]
        if isinstance(x, Num):
            return Num(x.t, 'f')
        if isinstance(x, Bool):
            return Num(Num.const(x).t, 'f')
        if isinstance(x, str):
            from .text import parse_number
            return parse_number(x)
    return _b_float(*a)


def sx_bool(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, (Num, Bool)):
            return core.tobool(x)
    return _b_bool(*a)


def _minmax(sense, args, kw):
    base = _b_max if sense > 0 else _b_min
    if kw.get('key') is None and not ('default' in kw and len(args) == 1 and not args[0]):
        vs = list(args[0]) if len(args) == 1 else list(args)
        if any(isinstance(v, (Num, Bool)) for v in vs):
            return nd.const_fold(nd._vmax([Num.const(v) if isinstance(v, Bool) else v for v in vs], sense))
        return base(vs) if vs or 'default' not in kw else kw['default']
    return base(*args, **kw)


def sx_max(*a, **k):
    return _minmax(1, a, k)


def sx_min(*a, **k):
    return _minmax(-1, a, k)


def sx_sum(it, start=0):
    r = start
    for v in it:
        r = r + v
    return r


def sx_abs(x):
    return nd.const_fold(abs(x)) if isinstance(x, Num) else abs(x)


def sx_any(it):
    out = False
    for v in it:
        v = core.tobool(v)
        if isinstance(v, Bool):
            out = core.bor(out, v)
        elif v:
            return True
    return out


def sx_all(it):
    out = True
    for v in it:
        v = core.tobool(v)
        if isinstance(v, Bool):
            out = core.band(out, v)
        elif not v:
            return False
    return out


def sx_isinstance(x, t):
    if isinstance(x, (Num, Bool)):
        ts = t if isinstance(t, tuple) else (t,)
        for k in ts:
            if k is sx_int or k is sx_float:
                k = int if k is sx_int else float
            if not isinstance(k, type):
                continue
            if isinstance(x, Bool):
                if k in (bool, np.bool_, int, object):
                    return True
                continue
            if k is object:
                return True
            if x.kind == 'i' and (k in (int, np.int64, np.integer) or k.__name__ in ('Integral', 'Number', 'Real', 'number', 'signedinteger')):
                return True
            if x.kind == 'f' and (k in (float, np.float64, np.floating) or k.__name__ in ('Real', 'Number', 'number', 'inexact')):
                return True
        return False
    return isinstance(x, t)


def sx_type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, Num):
            return np.int64 if x.kind == 'i' else np.float64
        if isinstance(x, Bool):
            return np.bool_
        if isinstance(x, SA):
            return np.ndarray
    return type(*a)


def sx_round(x, n=None):
    if isinstance(x, Num):
        return x.__round__(n)
    return _b_round(x, n) if n is not None else _b_round(x)


class SymMath(types.ModuleType):
    def __getattr__(self, n):
        import math as m
        f = getattr(m, n)
        if not callable(f):
            return f
        u = {'sqrt': np.sqrt, 'cos': np.cos, 'sin': np.sin, 'tan': np.tan, 'acos': np.arccos, 'asin': np.arcsin,
             'atan': np.arctan, 'atan2': np.arctan2, 'hypot': np.hypot, 'fabs': np.absolute, 'degrees': np.degrees, 'radians': np.radians}.get(n)

        def w(*a):
            if has_sa(a):
                if u is not None:
                    return nd.scalar_ufunc(u, *[x.item() if isinstance(x, SA) else x for x in a])
                if n == 'floor':
                    return core.pfloor(a[0])
                if n == 'ceil':
                    return -core.pfloor(-a[0])
                if n == 'trunc':
                    return core.ptrunc(a[0])
                if n in ('isnan', 'isinf'):
                    return False
                if n == 'isfinite':
                    return True
                if n == 'isclose':
                    return nd._isclose(*a, rtol=1e-9, atol=0)
                raise Unsupported('math.' + n)
            return f(*a)
        return w


symmath = SymMath('symmath')
