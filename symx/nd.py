"""Symbolic numpy arrays: object ndarray subclass with a pretended dtype."""
import math
import operator
from fractions import Fraction as F

import numpy as np

from . import core
from .core import (Num, Bool, Unsupported, ite, band, bor, bnot, beq, tobool, pmax,
                   pabs, psqrt, pfloor, ptrunc, pround, pcos, psin, parccos, parcsin,
                   parctan2, isb)

FLOAT = np.dtype('f8')
INT = np.dtype('i8')
BOOL = np.dtype(bool)
OBJ = np.dtype(object)


def is_sym(x):
    return isinstance(x, (Num, Bool))


def const_fold(x):
    """constant Num -> numpy scalar"""
    if isinstance(x, Num) and x.is_const():
        v = x.cval()
        if x.kind == 'i' and v.denominator == 1:
            return np.int64(int(v))
        return np.float64(float(v))
    return x


def has_sym(x):
    if isinstance(x, (Num, Bool)):
        return True
    if isinstance(x, SA):
        if x._dt == OBJ:
            return any(has_sym(v) for v in np.ndarray.ravel(x).tolist())
        return any(isinstance(v, (Num, Bool)) for v in x._flat())
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return any(isinstance(v, (Num, Bool)) for v in x.ravel().tolist())
        return False
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    if isinstance(x, Masked):
        return True
    return False


def has_sa(x):
    if isinstance(x, (SA, Num, Bool, Masked)):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_sa(v) for v in x)
    if isinstance(x, dict):
        return any(has_sa(v) for v in x.values())
    return False


def raw(x):
    """real numpy object/ndarray of an SA without pretended dtype; recursive."""
    if isinstance(x, SA):
        return x.real_array()
    if isinstance(x, Num):
        if x.is_const():
            return const_fold(x)
        raise Unsupported('symbolic value at native numpy boundary')
    if isinstance(x, Bool):
        return bool(x)
    if isinstance(x, Masked):
        return raw(x.materialise())
    if isinstance(x, tuple):
        if hasattr(x, '_fields'):
            return x
        return tuple(raw(v) for v in x)
    if isinstance(x, list):
        return [raw(v) for v in x]
    if isinstance(x, dict):
        return {k: raw(v) for k, v in x.items()}
    return x


def wrap(r):
    if isinstance(r, SA):
        return r
    if isinstance(r, np.ndarray):
        if r.dtype.names is not None or r.dtype.kind in 'USMmc':
            return r
        return from_real(r)
    if isinstance(r, tuple):
        if hasattr(r, '_fields'):
            return type(r)(*[wrap(v) for v in r])
        return tuple(wrap(v) for v in r)
    if isinstance(r, list):
        return [wrap(v) for v in r]
    return r


def from_real(a):
    dt = a.dtype
    if dt == object:
        return make(np.ndarray.__array__(a) if type(a) is not np.ndarray else a, infer_dt(a))
    o = np.empty(a.shape, dtype=object)
    of = o.reshape(-1)
    af = a.reshape(-1)
    for i in range(af.size):
        of[i] = af[i]
    return make(o, dt)


def make(o, dt):
    r = o.view(SA)
    r._dt = np.dtype(dt)
    return r


def elem_dt(x):
    if isinstance(x, Num):
        return INT if x.kind == 'i' else FLOAT
    if isinstance(x, (Bool, bool, np.bool_)):
        return BOOL
    if isinstance(x, (np.generic,)):
        return x.dtype
    if isinstance(x, int):
        return INT
    if isinstance(x, float):
        return FLOAT
    return OBJ


def infer_dt(a):
    dt = None
    for v in a.reshape(-1).tolist() if a.size else []:
        d = elem_dt(v)
        if d == OBJ:
            return OBJ
        dt = d if dt is None else promote(dt, d)
    return dt if dt is not None else FLOAT


def promote(a, b):
    try:
        return np.promote_types(a, b)
    except Exception:
        return OBJ


def cast(v, dt, c_cast=True):
    """store/cast of a scalar into dtype dt."""
    k = dt.kind
    if isinstance(v, SA) and v.ndim == 0:
        v = v.item()
    if isinstance(v, SA) and v.size == 1 and dt != OBJ:
        v = v.reshape(-1)[0]
    if k == 'O':
        return v
    if isinstance(v, Num):
        if v.is_const():
            return cast(const_fold(v), dt)
        if k == 'f':
            return Num(v.t, 'f', None, v.tag) if v.kind == 'i' else v
        if k in 'iu':
            r = ptrunc(v)
            if dt.itemsize < 8:
                r = core.ctx().wrap_atom(r, dt.itemsize * 8, k == 'i')
            if v.choices is not None and r.key == v.key:
                return v
            return r
        if k == 'b':
            return v != 0
        raise Unsupported('cast to %s' % dt)
    if isinstance(v, Bool):
        if k == 'b':
            return v
        return cast(Num.const(v), dt)
    if isinstance(v, (str, type(None))) and k in 'fiu':
        if isinstance(v, str):
            from .text import parse_number
            return cast(parse_number(v), dt)
        if k == 'f':
            return np.float64('nan')
        raise TypeError('int() argument must be a string or a number, not NoneType')
    if isinstance(v, core.F):
        v = float(v)
    if k in 'fiub' and isinstance(v, np.ndarray):
        v = v.item() if v.size == 1 else v
        if isinstance(v, np.ndarray):
            raise ValueError('setting an array element with a sequence.')
    with np.errstate(all='ignore'):
        return np.asarray(v).astype(dt)[()]


def getguard():
    c = core.CTX
    if c is not None and c.guards:
        return c.guards
    return None


def gstore(old, new):
    """value to store under current guards."""
    g = getguard()
    if g is None:
        return new
    for b, _ in g:
        pass
    cond = band(*[b for b, _ in g])
    return ite_any(cond, new, old)


def ite_any(c, a, b):
    if isinstance(a, (Num, Bool, bool, int, float, np.generic)) and \
            isinstance(b, (Num, Bool, bool, int, float, np.generic)):
        return ite(c, a, b)
    if a is b:
        return a
    if isinstance(c, Bool):
        core.raise_restart() if core.CTX.guards else None
        raise Unsupported('merge of %s / %s' % (type(a), type(b)))
    return a if c else b


class SA(np.ndarray):
    """symbolic array"""
    __array_priority__ = 900

    def __array_finalize__(self, obj):
        self._dt = getattr(obj, '_dt', OBJ)

    # -- helpers
    def _flat(self):
        return list(np.ndarray.view(self, np.ndarray).reshape(-1))

    def nd(self):
        return np.ndarray.view(self, np.ndarray)

    def real_array(self):
        o = self.nd()
        if self._dt == OBJ:
            out = np.empty(o.shape, dtype=object)
            of, xf = out.reshape(-1), o.reshape(-1)
            for i in range(xf.size):
                of[i] = xf[i]
            return out
        out = np.empty(o.shape, dtype=self._dt)
        of, xf = out.reshape(-1), o.reshape(-1)
        for i in range(xf.size):
            v = xf[i]
            if isinstance(v, Num):
                v = const_fold(v)
                if isinstance(v, Num):
                    raise Unsupported('symbolic array at native numpy boundary')
            elif isinstance(v, Bool):
                v = bool(v)
            of[i] = v
        return out

    @property
    def dtype(self):
        return self._dt

    @dtype.setter
    def dtype(self, v):
        self._dt = np.dtype(v)

    @property
    def itemsize(self):
        return self._dt.itemsize

    @property
    def flat(self):
        return np.ndarray.reshape(self, -1)

    @property
    def real(self):
        return self

    @property
    def flags(self):
        return np.ndarray.view(self, np.ndarray).flags

    def __array__(self, dtype=None, copy=None):
        r = self.real_array()
        return r.astype(dtype) if dtype is not None else r

    def __reduce__(self):
        return (from_real, (self.real_array(),))

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def copy(self, order='C'):
        return make(self.nd().copy(), self._dt)

    def astype(self, dt, copy=True, **kw):
        dt = np.dtype(dt)
        if dt == self._dt:
            return self.copy() if copy else self
        return mapelem(lambda v: cast(v, dt), self, dt)

    def view(self, *a, **k):
        if not a and not k:
            return np.ndarray.view(self)
        if a and isinstance(a[0], type):
            return np.ndarray.view(self, *a, **k)
        raise Unsupported('view')

    def tolist(self):
        def conv(v):
            if isinstance(v, np.generic):
                return v.item()
            return v
        def rec(o):
            if o.ndim == 0:
                return conv(o[()])
            if o.ndim == 1:
                return [conv(v) for v in o]
            return [rec(v) for v in o]
        return rec(self.nd())

    def item(self, *a):
        if a:
            return self.nd().reshape(-1)[a[0]] if len(a) == 1 else self.nd()[a]
        if self.size != 1:
            raise ValueError('can only convert an array of size 1 to a Python scalar')
        v = self.nd().reshape(-1)[0]
        return v.item() if isinstance(v, np.generic) else v

    def tobytes(self, order='C'):
        if not has_sym(self):
            return self.real_array().tobytes(order)
        from .text import SymBytes
        return SymBytes(self)

    def fill(self, v):
        self[...] = v

    def __bool__(self):
        if self.size == 1:
            return bool(self.nd().reshape(-1)[0])
        if self.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    def __float__(self):
        if self.size == 1:
            return float(self.nd().reshape(-1)[0])
        raise TypeError('only 0-dimensional arrays can be converted to Python scalars')

    def __int__(self):
        if self.size == 1:
            return int(self.nd().reshape(-1)[0])
        raise TypeError('only 0-dimensional arrays can be converted to Python scalars')

    def __index__(self):
        if self.size == 1 and self.ndim == 0:
            return operator.index(self.nd()[()])
        raise TypeError('only integer scalar arrays can be converted to a scalar index')

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __repr__(self):
        if not has_sym(self):
            return repr(self.real_array())
        return 'SA(%s, %s)' % (self.shape, self._dt)

    def __str__(self):
        if not has_sym(self):
            return str(self.real_array())
        return repr(self)

    def __format__(self, spec):
        if self.ndim == 0:
            return format(self.item(), spec)
        return format(str(self), spec)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(self.shape[0]):
            yield self[i]

    def __contains__(self, x):
        return bool(bor(*[tobool(v == x) for v in self._flat()]))

    # -- indexing
    def __getitem__(self, key):
        k, mask = norm_key(key, self.shape)
        if mask is not None:
            return masked_get(self, k, mask)
        if isinstance(k, SymKey):
            return symidx_get(self, k)
        r = self.nd()[k]
        if isinstance(r, np.ndarray) and (r.ndim > 0 or _is_ellipsis_key(k)):
            return make(r, self._dt)
        if isinstance(r, np.ndarray):
            r = r[()]
        return r

    def __setitem__(self, key, value):
        k, mask = norm_key(key, self.shape)
        if mask is not None:
            return masked_set(self, k, mask, value)
        if isinstance(k, SymKey):
            return symidx_set(self, k, value)
        o = self.nd()
        if isinstance(value, Masked):
            value = value.materialise()
        tgt = o[k]
        g = getguard()
        if isinstance(tgt, np.ndarray) and (tgt.ndim > 0 or _is_ellipsis_key(k)):
            if self._dt == OBJ and not isinstance(value, np.ndarray):
                if g is not None:
                    core.raise_restart()
                o[k] = value
                return
            val = to_obj(value)
            val = np.broadcast_to(val, tgt.shape) if val.shape != tgt.shape else val
            out = np.empty(tgt.shape, dtype=object)
            of, vf, tf = out.reshape(-1), val.reshape(-1), tgt.reshape(-1)
            dt = self._dt
            for i in range(of.size):
                nv = cast(vf[i], dt)
                of[i] = gstore(tf[i], nv) if g is not None else nv
            o[k] = out
        else:
            if self._dt == OBJ:
                if g is not None:
                    core.raise_restart()
                o[k] = value
                return
            if isinstance(value, (np.ndarray, list, tuple)):
                v = to_obj(value)
                if v.size != 1:
                    raise ValueError('setting an array element with a sequence.')
                value = v.reshape(-1)[0]
            nv = cast(value, self._dt)
            o[k] = gstore(tgt, nv) if g is not None else nv

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return array_ufunc(ufunc, method, *inputs, **kw)

    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, types, args, kwargs)

    # in-place ops must keep dtype (and identity)
    def _iop(self, o, uf):
        r = binop(uf, self, o)
        if isinstance(r, np.ndarray) and not isinstance(r, SA):
            r = from_real(r)
        if self._dt.kind in 'iu' and isinstance(r, SA) and r._dt.kind == 'f':
            raise np.exceptions.DTypePromotionError("Cannot cast ufunc output from float64 to int64") \
                if False else TypeError("Cannot cast ufunc '%s' output from dtype('float64') to dtype('int64') with casting rule 'same_kind'" % uf.__name__)
        self[...] = r
        return self

    def __iadd__(self, o):
        return self._iop(o, np.add)

    def __isub__(self, o):
        return self._iop(o, np.subtract)

    def __imul__(self, o):
        return self._iop(o, np.multiply)

    def __itruediv__(self, o):
        return self._iop(o, np.divide)

    def __ifloordiv__(self, o):
        return self._iop(o, np.floor_divide)

    def __imod__(self, o):
        return self._iop(o, np.remainder)

    def __ipow__(self, o):
        return self._iop(o, np.power)

    def __iand__(self, o):
        return self._iop(o, np.bitwise_and)

    def __ior__(self, o):
        return self._iop(o, np.bitwise_or)

    # methods -> functions
    def max(self, axis=None, out=None, keepdims=False, **kw):
        return fn_max(self, axis, keepdims=keepdims)

    def min(self, axis=None, out=None, keepdims=False, **kw):
        return fn_min(self, axis, keepdims=keepdims)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return fn_sum(self, axis, keepdims=keepdims)

    def prod(self, axis=None, **kw):
        return reduce_axis(self, axis, False, lambda vs: _prod(vs), None)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return fn_mean(self, axis, keepdims=keepdims)

    def std(self, axis=None, **kw):
        return HANDLERS['std'](self, axis)

    def any(self, axis=None, out=None, keepdims=False, **kw):
        return fn_any(self, axis, keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False, **kw):
        return fn_all(self, axis, keepdims=keepdims)

    def argmax(self, axis=None, **kw):
        return fn_argmax(self, axis)

    def argmin(self, axis=None, **kw):
        return fn_argmin(self, axis)

    def nonzero(self):
        return fn_nonzero(self)

    def clip(self, lo=None, hi=None, **kw):
        return fn_clip(self, lo, hi)

    def dot(self, o):
        return fn_dot(self, o)

    def round(self, decimals=0):
        return HANDLERS['round'](self, decimals)

    def argsort(self, axis=-1, **kw):
        return HANDLERS['argsort'](self, axis=axis, **kw)

    def sort(self, axis=-1, **kw):
        self[...] = HANDLERS['sort'](self, axis=axis)

    def cumsum(self, axis=None, **kw):
        return HANDLERS['cumsum'](self, axis)

    def repeat(self, n, axis=None):
        return make(np.repeat(self.nd(), raw(n), axis), self._dt)

    def take(self, idx, axis=None, **kw):
        return HANDLERS['take'](self, idx, axis)

    def flatten(self, order='C'):
        return make(self.nd().flatten(order), self._dt)

    def __matmul__(self, o):
        return fn_matmul(self, o)

    def __rmatmul__(self, o):
        return fn_matmul(o, self)


def _prod(vs):
    r = 1
    for v in vs:
        r = r * v
    return r


def _is_ellipsis_key(k):
    return k is Ellipsis or (isinstance(k, tuple) and any(x is Ellipsis for x in k))


class SymKey:
    """key with symbolic integer components (choices)"""

    def __init__(self, key):
        self.key = key


def norm_key(key, shape):
    """normalise an index. Returns (key, mask) ; mask = (position in tuple, SA bool)."""
    tup = key if isinstance(key, tuple) else (key,)
    out = []
    mask = None
    sym = False
    for i, k in enumerate(tup):
        if isinstance(k, Masked):
            k = k.materialise()
        if isinstance(k, SA):
            if k._dt == BOOL:
                if has_sym(k):
                    if mask is not None:
                        k = concretize_mask(k)
                    else:
                        mask = (len(out), k)
                else:
                    k = k.real_array()
            elif has_sym(k):
                sym = True
            else:
                k = k.real_array()
                if k.dtype.kind == 'f' and k.size == 0:
                    k = k.astype(int)
                if k.dtype == object:
                    k = k.astype(int)
        elif isinstance(k, list):
            if has_sa(k):
                k = as_sa(k)
                if k._dt == BOOL and has_sym(k):
                    mask = (len(out), k)
                elif has_sym(k):
                    sym = True
                else:
                    k = k.real_array()
        elif isinstance(k, Num):
            if k.is_const():
                k = int(k.cval())
            elif k.choices is not None:
                sym = True
            else:
                k = k.__index__()
        elif isinstance(k, Bool):
            k = bool(k)
        elif isinstance(k, slice):
            k = slice(*[None if s is None else operator.index(s) for s in (k.start, k.stop, k.step)])
        out.append(k)
    if mask is not None:
        if sym:
            raise Unsupported('mask and symbolic index together')
        return out, mask
    if sym:
        return SymKey(out), None
    return (tuple(out) if isinstance(key, tuple) else out[0]), None


def concretize_mask(m):
    return np.array([bool(v) for v in m._flat()], dtype=bool).reshape(m.shape)


def _mask_positions(shape, key, mi, mask):
    """for each mask element j -> flat positions selected when only j is True"""
    n = int(np.prod(shape)) if len(shape) else 1
    idx = np.arange(n).reshape(shape)
    res = []
    mm = np.zeros(mask.shape, dtype=bool)
    mf = mm.reshape(-1)
    for j in range(mf.size):
        mf[j] = True
        k = list(key)
        k[mi] = mm
        res.append(idx[tuple(k)].reshape(-1).copy())
        mf[j] = False
    return res


class Masked:
    """x[mask] with a symbolic mask, kept lazily as the full selection."""
    __array_ufunc__ = None
    __array_priority__ = 2000

    def __init__(self, base, key, mi, mask, vals):
        self.base, self.key, self.mi, self.mask = base, key, mi, mask
        self.vals = vals       # list per mask element of list of values

    def _map(self, f):
        return Masked(self.base, self.key, self.mi, self.mask,
                      [[f(v) for v in vs] for vs in self.vals])

    def _bin(self, o, uf, rev=False):
        if isinstance(o, Masked):
            if same_mask(o.mask, self.mask):
                vals = [[scalar_ufunc(uf, *((b, a) if rev else (a, b))) for a, b in zip(x, y)]
                        for x, y in zip(self.vals, o.vals)]
                return Masked(self.base, self.key, self.mi, self.mask, vals)
            o = o.materialise()
        if isinstance(o, np.ndarray) and o.ndim:
            return binop(uf, *((o, self.materialise()) if rev else (self.materialise(), o)))
        return self._map(lambda v: scalar_ufunc(uf, *((o, v) if rev else (v, o))))

    def __mul__(self, o): return self._bin(o, np.multiply)
    __rmul__ = __mul__
    __imul__ = __mul__
    def __add__(self, o): return self._bin(o, np.add)
    __radd__ = __add__
    __iadd__ = __add__
    def __sub__(self, o): return self._bin(o, np.subtract)
    __isub__ = __sub__
    def __rsub__(self, o): return self._bin(o, np.subtract, True)
    def __truediv__(self, o): return self._bin(o, np.divide)
    __itruediv__ = __truediv__
    def __rtruediv__(self, o): return self._bin(o, np.divide, True)
    def __neg__(self): return self._map(lambda v: -v)
    def __pow__(self, o): return self._bin(o, np.power)

    def materialise(self):
        m = concretize_mask(self.mask)
        k = list(self.key)
        k[self.mi] = m
        # rebuild values
        full = self.base.nd().copy()
        ff = full.reshape(-1)
        pos = _mask_positions(self.base.shape, self.key, self.mi, self.mask)
        for ps, vs in zip(pos, self.vals):
            for p, v in zip(ps, vs):
                ff[p] = v
        dt = self.base._dt
        for vs in self.vals:
            for v in vs:
                dt = promote(dt, elem_dt(v)) if dt != OBJ else dt
        return make(full[tuple(k)], dt)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(self.materialise(), n)

    def __getitem__(self, k):
        return self.materialise()[k]

    def __len__(self):
        return len(self.materialise())

    def __iter__(self):
        return iter(self.materialise())

    def __eq__(self, o): return self.materialise() == o
    def __ne__(self, o): return self.materialise() != o
    def __lt__(self, o): return self.materialise() < o
    def __gt__(self, o): return self.materialise() > o
    def __le__(self, o): return self.materialise() <= o
    def __ge__(self, o): return self.materialise() >= o
    def __abs__(self): return self._map(abs)


def same_mask(a, b):
    if a.shape != b.shape:
        return False
    for x, y in zip(a._flat(), b._flat()):
        if isinstance(x, Bool) and isinstance(y, Bool):
            if not x.z.eq(y.z):
                return False
        elif isinstance(x, Bool) or isinstance(y, Bool) or bool(x) != bool(y):
            return False
    return True


def masked_get(a, key, mask):
    mi, m = mask
    pos = _mask_positions(a.shape, key, mi, m)
    f = a.nd().reshape(-1) if a.nd().flags.c_contiguous else a.nd().flatten()
    return Masked(a, key, mi, m, [[f[p] for p in ps] for ps in pos])


def masked_set(a, key, mask, value):
    mi, m = mask
    if isinstance(value, Masked) and not same_mask(value.mask, m):
        value = value.materialise()
    pos = _mask_positions(a.shape, key, mi, m)
    if isinstance(value, (np.ndarray, list, tuple)) and np.ndim(value) > 0 and not isinstance(value, Masked):
        v = as_sa(value)
        if v.size != 1:
            # does it broadcast against any number of selected items?
            ok = False
            if all(len(ps) == v.size for ps in pos):
                ok = v.ndim >= 2 or (mi == 0 and v.ndim >= 1)
            if ok and mi == 0:
                vf = v._flat()
                vals = [vf for _ in pos]
            else:
                k = list(key)
                k[mi] = concretize_mask(m)
                a[tuple(k)] = v
                return
        else:
            x = v.reshape(-1)[0]
            vals = [[x] * len(ps) for ps in pos]
    elif isinstance(value, Masked):
        vals = value.vals
    else:
        vals = [[value] * len(ps) for ps in pos]
    o = a.nd()
    dt = a._dt
    for mj, ps, vs in zip(m._flat(), pos, vals):
        for p, v in zip(ps, vs):
            ix = np.unravel_index(p, o.shape)
            old = o[ix]
            nv = ite_any(mj, cast(v, dt), old)
            o[ix] = gstore(old, nv) if getguard() else nv


def _choice_list(v):
    """symbolic int -> list of (cond, int)"""
    if isinstance(v, Num):
        if v.is_const():
            return [(np.bool_(True), int(v.cval()))]
        if v.choices is not None:
            return v.choices
        return [(np.bool_(True), v.__index__())]
    return [(np.bool_(True), int(v))]


def symidx_get(a, sk):
    """fancy/scalar indexing with symbolic choices; scalars and equal-length 1-d index
    arrays combined with concrete slices."""
    keys = sk.key
    arrs = []
    for k in keys:
        if isinstance(k, SA):
            arrs.append(k)
        elif isinstance(k, np.ndarray):
            arrs.append(k)
        elif isinstance(k, (list, range)):
            arrs.append(np.asarray(k))
    if not arrs:
        # scalar symbolic
        si = [i for i, k in enumerate(keys) if isinstance(k, Num)]
        return _sel(a, keys, si)
    shp = np.broadcast_shapes(*[x.shape for x in arrs])
    if len(shp) > 1:
        raise Unsupported('nd symbolic fancy index')
    res = []
    for j in range(shp[0]):
        kk = []
        for k in keys:
            if isinstance(k, (np.ndarray, list, range)):
                kb = np.broadcast_to(k.nd() if isinstance(k, SA) else np.asarray(k), shp)
                kk.append(kb[j])
            else:
                kk.append(k)
        si = [i for i, k in enumerate(kk) if isinstance(k, Num)]
        res.append(_sel(a, kk, si))
    # adjacency of advanced indices: result dim position
    adv = [i for i, k in enumerate(keys) if not isinstance(k, slice)]
    contiguous = adv == list(range(adv[0], adv[-1] + 1))
    if res and isinstance(res[0], SA):
        st = np.stack([r.nd() for r in res], axis=0)
        if contiguous and adv[0] > 0:
            st = np.moveaxis(st, 0, adv[0])
        return make(st, a._dt)
    o = np.empty(len(res), dtype=object)
    for i, r in enumerate(res):
        o[i] = r
    return make(o, a._dt)


def _sel(a, keys, si):
    if not si:
        return a[tuple(keys)]
    i = si[0]
    ch = _choice_list(keys[i])
    vals = []
    for cnd, v in ch:
        kk = list(keys)
        kk[i] = v
        vals.append((cnd, _sel(a, kk, si[1:])))
    return select(vals, keys[i].tag)


def select(vals, tag=None):
    """vals: [(cond, value)] one-hot."""
    v0 = vals[0][1]
    if isinstance(v0, SA):
        out = np.empty(v0.shape, dtype=object)
        of = out.reshape(-1)
        fl = [v._flat() for _, v in vals]
        for j in range(of.size):
            of[j] = select([(c, f[j]) for (c, _), f in zip(vals, fl)], tag)
        return make(out, v0._dt)
    if tag is not None and tag[0] in ('argmax', 'argmin'):
        if len(vals) == len(tag[1]) and all(
                not isb(v) and (isinstance(v, Num) or math.isfinite(v)) and Num.const(v).key == k
                for (_, v), k in zip(vals, tag[1])):
            return pmax([v for _, v in vals], 1 if tag[0] == 'argmax' else -1)
    r = vals[-1][1]
    for c, v in reversed(vals[:-1]):
        r = ite_any(c, v, r)
    return r


def symidx_set(a, sk, value):
    keys = []
    for k in sk.key:
        if isinstance(k, Num):
            keys.append(k.__index__())
        elif isinstance(k, SA):
            keys.append(np.array([operator.index(v) for v in k._flat()], dtype=int).reshape(k.shape))
        else:
            keys.append(k)
    a[tuple(keys)] = value


# ---- conversion ---------------------------------------------------------------
def to_obj(x):
    """anything -> plain object ndarray (or 0-d)."""
    if isinstance(x, SA):
        return x.nd()
    if isinstance(x, Masked):
        return x.materialise().nd()
    if isinstance(x, np.ndarray):
        return from_real(x).nd() if x.dtype != object else x
    if isinstance(x, (Num, Bool)):
        o = np.empty((), dtype=object)
        o[()] = x
        return o
    if isinstance(x, (list, tuple, range)):
        return _seq_to_obj(list(x))
    o = np.empty((), dtype=object)
    if isinstance(x, (bool, int, float, complex)):
        x = np.asarray(x)[()]
    o[()] = x
    return o


def _seq_to_obj(x):
    if len(x) == 0:
        return np.empty((0,), dtype=object)
    if not any(isinstance(v, (list, tuple, np.ndarray, range, Masked)) for v in x):
        o = np.empty(len(x), dtype=object)
        for i, v in enumerate(x):
            if isinstance(v, (bool, int, float)):
                v = np.asarray(v)[()]
            o[i] = v
        return o
    subs = [to_obj(v) for v in x]
    shp = subs[0].shape
    if any(s.shape != shp for s in subs):
        raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
    o = np.empty((len(x),) + shp, dtype=object)
    for i, s in enumerate(subs):
        o[i] = s
    return o


def as_sa(x, dtype=None):
    if isinstance(x, Masked):
        x = x.materialise()
    sa = getattr(x, '_as_sa', None)
    if sa is not None:
        x = sa()
    if isinstance(x, SA):
        r = x
    elif isinstance(x, np.ndarray) and x.dtype != object:
        if x.dtype.names is not None or x.dtype.kind in 'USMmc':
            if dtype is not None:
                return from_real(x.astype(dtype))
            return x
        r = from_real(x)
    elif isinstance(x, np.ndarray):
        r = make(x, infer_dt(x))
    else:
        if not has_sa(x):
            if isinstance(x, (list, tuple)) and any(isinstance(v, str) for v in x):
                return np.array(x, dtype=dtype)
            a = np.array(x) if dtype is None or np.dtype(dtype) != OBJ else np.array(x, dtype=object)
            if a.dtype.kind in 'US' and dtype is None:
                return a
            r = from_real(a) if a.dtype.kind not in 'US' else from_real(a.astype(dtype))
        else:
            o = to_obj(x)
            r = make(o, infer_dt(o))
    if dtype is not None and r._dt != np.dtype(dtype):
        r = r.astype(dtype)
    return r


def mapelem(f, a, dt=None):
    o = np.empty(a.shape, dtype=object)
    of = o.reshape(-1)
    for i, v in enumerate(a._flat()):
        of[i] = f(v)
    return make(o, dt if dt is not None else infer_dt(o))


# ---- ufuncs ---------------------------------------------------------------------
def _nz(x):
    return tobool(x)


def _div(a, b):
    if is_sym(a) or is_sym(b):
        if isb(a):
            a = Num.const(a)
        if isb(b):
            b = Num.const(b)
        if not is_sym(a) and isinstance(a, (float, np.floating)) and not math.isfinite(a):
            return a if a != a else a * core.sign_fork(b)
        return a / b
    with np.errstate(all='ignore'):
        return np.divide(a, b)


def _n(x):
    return Num.const(x) if is_sym(x) else x


def _maximum(a, b):
    for x in (a, b):
        if isinstance(x, (float, np.floating)) and not math.isfinite(x):
            y = b if x is a else a
            if x != x:
                return x
            return x if x > 0 else y
    return pmax([a, b])


def _minimum(a, b):
    for x in (a, b):
        if isinstance(x, (float, np.floating)) and not math.isfinite(x):
            y = b if x is a else a
            if x != x:
                return x
            return x if x < 0 else y
    return pmax([a, b], -1)


def _sgn(x):
    return ite(x > 0, 1.0, ite(x < 0, -1.0, 0.0))


def _isfinite(x):
    return np.bool_(True) if is_sym(x) else np.isfinite(x)


def _isnan(x):
    return np.bool_(False) if is_sym(x) else np.isnan(x)


def _rem(a, b):
    return Num.const(a) % b


def _pow(a, b):
    return Num.const(a) ** b


SCALAR = {
    'add': lambda a, b: _n(a) + _n(b),
    'subtract': lambda a, b: _n(a) - _n(b),
    'multiply': lambda a, b: band(a, b) if isb(a) and isb(b) else _n(a) * _n(b),
    'divide': _div, 'true_divide': _div,
    'floor_divide': lambda a, b: Num.const(a) // b,
    'gcd': lambda a, b: core.pgcd([a, b]),
    'remainder': _rem, 'mod': _rem,
    'power': _pow, 'float_power': _pow,
    'square': lambda a: _n(a) * _n(a),
    'negative': lambda a: -a, 'positive': lambda a: a,
    'absolute': lambda a: abs(_n(a)), 'fabs': lambda a: abs(_n(a)),
    'sqrt': lambda a: psqrt(_n(a)),
    'cos': lambda a: pcos(_n(a)), 'sin': lambda a: psin(_n(a)),
    'tan': lambda a: _n(a).tan(),
    'arccos': lambda a: parccos(_n(a)), 'arcsin': lambda a: parcsin(_n(a)),
    'arctan': lambda a: parctan2(_n(a), Num.const(1)),
    'arctan2': lambda a, b: parctan2(a, b),
    'hypot': lambda a, b: psqrt(_n(a) * _n(a) + _n(b) * _n(b)),
    'maximum': _maximum, 'minimum': _minimum, 'fmax': _maximum, 'fmin': _minimum,
    'less': lambda a, b: _n(a) < _n(b), 'less_equal': lambda a, b: _n(a) <= _n(b),
    'greater': lambda a, b: _n(a) > _n(b), 'greater_equal': lambda a, b: _n(a) >= _n(b),
    'equal': lambda a, b: a == b, 'not_equal': lambda a, b: a != b,
    'logical_and': lambda a, b: band(a, b), 'logical_or': lambda a, b: bor(a, b),
    'logical_not': lambda a: bnot(a), 'logical_xor': lambda a, b: bnot(beq(a, b)),
    'bitwise_and': lambda a, b: band(a, b), 'bitwise_or': lambda a, b: bor(a, b),
    'bitwise_xor': lambda a, b: bnot(beq(a, b)),
    'invert': lambda a: bnot(a),
    'floor': lambda a: Num(pfloor(_n(a)).t, 'f'), 'ceil': lambda a: Num((-pfloor(-_n(a))).t, 'f'),
    'trunc': lambda a: Num(ptrunc(_n(a)).t, 'f'), 'rint': lambda a: Num(pround(_n(a)).t, 'f'),
    'sign': _sgn, 'isfinite': _isfinite, 'isnan': _isnan,
    'isinf': lambda a: np.bool_(False) if is_sym(a) else np.isinf(a),
    'deg2rad': lambda a: _n(a) * math.pi / 180, 'radians': lambda a: _n(a) * math.pi / 180,
    'rad2deg': lambda a: _n(a) * 180 / Num.const(math.pi), 'degrees': lambda a: _n(a) * 180 / Num.const(math.pi),
    'reciprocal': lambda a: _div(1.0, a),
    'conjugate': lambda a: a,
    'modf': None,
}
BOOLOUT = {'less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal', 'logical_and',
           'logical_or', 'logical_not', 'logical_xor', 'isfinite', 'isnan', 'isinf'}
FLOATOUT = {'divide', 'true_divide', 'sqrt', 'cos', 'sin', 'tan', 'arccos', 'arcsin', 'arctan',
            'arctan2', 'hypot', 'deg2rad', 'rad2deg', 'radians', 'degrees', 'floor', 'ceil',
            'trunc', 'rint', 'float_power'}


def scalar_ufunc(uf, *args):
    if not any(is_sym(a) for a in args):
        with np.errstate(all='ignore'):
            r = uf(*args)
        if uf in (np.add, np.subtract) and isinstance(r, float) and r != 0 and len(args) == 2 and \
                abs(r) <= 8e-16 * max(abs(args[0]), abs(args[1])):
            r = np.float64(0)   # cancellation: rounding only
        return r
    f = SCALAR.get(uf.__name__)
    if f is None:
        raise Unsupported('ufunc %s' % uf.__name__)
    args = [a.item() if isinstance(a, np.generic) or (isinstance(a, np.ndarray) and a.ndim == 0) else a for a in args]
    nm = uf.__name__
    if nm in ('bitwise_and', 'bitwise_or', 'bitwise_xor', 'invert'):
        if not all(isb(a) for a in args):
            raise Unsupported('bitwise op on ints')
    try:
        r = f(*args)
    except core.NonFinite:
        # non-finite partner
        if nm in ('less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal'):
            raise
        return np.float64('nan')
    return const_fold(r)


def binop(uf, a, b):
    return array_ufunc(uf, '__call__', a, b)


def result_dt(uf, ins):
    n = uf.__name__
    if n in BOOLOUT:
        return BOOL
    dts = []
    for x in ins:
        if isinstance(x, SA):
            dts.append(x._dt)
        elif isinstance(x, np.ndarray):
            dts.append(x.dtype)
    sc = [x for x in ins if not isinstance(x, np.ndarray)]
    dt = None
    for d in dts:
        dt = d if dt is None else promote(dt, d)
    for s in sc:
        k = elem_dt(s).kind
        if dt is None:
            dt = elem_dt(s)
            continue
        if k == 'f' and dt.kind in 'iub':
            dt = FLOAT
        elif k in 'iu' and dt.kind == 'b':
            dt = INT
        elif k == 'O':
            dt = OBJ
        elif isinstance(s, np.generic):
            dt = promote(dt, s.dtype)
    if n in FLOATOUT and dt.kind in 'iub':
        dt = FLOAT
    if n in ('bitwise_and', 'bitwise_or', 'bitwise_xor', 'invert') and dt.kind == 'b':
        return BOOL
    if dt.kind == 'b' and n in ('add', 'multiply', 'maximum', 'minimum'):
        return BOOL
    return dt


def array_ufunc(ufunc, method, *inputs, **kw):
    out = kw.pop('out', None)
    where = kw.pop('where', True)
    kw.pop('casting', None)
    dtype = kw.pop('dtype', None)
    inputs = [x.materialise() if isinstance(x, Masked) else x for x in inputs]
    if method == 'reduce':
        return _ufunc_reduce(ufunc, inputs[0], **kw)
    if method == 'outer':
        a, b = as_sa(inputs[0]), as_sa(inputs[1])
        return array_ufunc(ufunc, '__call__', a.reshape(a.shape + (1,) * b.ndim), b)
    if method == 'accumulate':
        a = as_sa(inputs[0])
        if ufunc is np.add:
            return HANDLERS['cumsum'](a, kw.get('axis', 0))
        raise Unsupported('accumulate')
    if method == 'at':
        a, idx, v = inputs
        idx = raw(idx)
        vb = np.broadcast_to(to_obj(v), np.shape(idx)).reshape(-1)
        for n_, i in enumerate(np.asarray(idx).reshape(-1)):
            a[int(i)] = scalar_ufunc(ufunc, a[int(i)], vb[n_])
        return None
    if method != '__call__':
        raise Unsupported('ufunc method ' + method)
    if ufunc is np.matmul:
        return fn_matmul(*inputs)
    if where is not True:
        wh = to_obj(where)
    if ufunc in (np.divmod, np.modf):
        if ufunc is np.divmod:
            return (array_ufunc(np.floor_divide, '__call__', *inputs),
                    array_ufunc(np.remainder, '__call__', *inputs))
    anysym = any(has_sym(x) for x in inputs)
    if not anysym and where is True:
        ins = [raw(x) for x in inputs]
        if any(isinstance(x, np.ndarray) and x.dtype == object for x in ins):
            pass
        else:
            with np.errstate(all='ignore'):
                r = ufunc(*ins)
            if isinstance(r, tuple):
                r = tuple(wrap(x) for x in r)
                return r
            if not isinstance(r, np.ndarray):
                r = r if out is None else from_real(np.asarray(r))
            else:
                r = from_real(r)
            return _finish(r, out, dtype)
    lists = [x for x in inputs]
    lists = [as_sa(x) if isinstance(x, (list, tuple)) else x for x in lists]
    objs = [to_obj(x) for x in lists]
    dt = result_dt(ufunc, lists)
    if all(o.ndim == 0 for o in objs) and where is True:
        r = scalar_ufunc(ufunc, *[o[()] for o in objs])
        return _finish(r, out, dtype)
    shp = np.broadcast_shapes(*[o.shape for o in objs])
    bs = [np.broadcast_to(o, shp) for o in objs]
    res = np.empty(shp, dtype=object)
    if where is not True:
        wb = np.broadcast_to(wh, shp)
    it = np.ndindex(*shp)
    for ix in it:
        if where is not True:
            w = wb[ix]
            old = out[0][ix] if out is not None else np.float64(0)
            if not is_sym(w) and not w:
                res[ix] = old
                continue
            v = scalar_ufunc(ufunc, *[b[ix] for b in bs])
            res[ix] = ite_any(w, v, old)
            continue
        res[ix] = scalar_ufunc(ufunc, *[b[ix] for b in bs])
    r = make(res, dt if dt.kind != 'O' else (infer_dt(res) if ufunc.__name__ not in () else dt))
    return _finish(r, out, dtype)


def _finish(r, out, dtype=None):
    if dtype is not None:
        r = r.astype(dtype) if isinstance(r, SA) else cast(r, np.dtype(dtype))
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if isinstance(o, SA):
            o[...] = r
            return o
        if isinstance(o, np.ndarray):
            o[...] = raw(r)
            return o
    return r


def _ufunc_reduce(ufunc, a, axis=0, keepdims=False, initial=None, **kw):
    a = as_sa(a)
    f = {np.add: fn_sum, np.maximum: fn_max, np.minimum: fn_min, np.logical_and: fn_all,
         np.logical_or: fn_any, np.bitwise_or: fn_any, np.bitwise_and: fn_all}.get(ufunc)
    if f is not None:
        return f(a, axis, keepdims=keepdims)
    if ufunc is np.multiply:
        return reduce_axis(a, axis, keepdims, _prod, None)
    if ufunc is np.gcd:
        return reduce_axis(a, axis, keepdims, core.pgcd, np.dtype(int))
    raise Unsupported('reduce %s' % ufunc)


# ---- reductions -----------------------------------------------------------------
def reduce_axis(a, axis, keepdims, f, dt):
    """f: list of values -> value"""
    a = as_sa(a)
    if isinstance(axis, Num):
        axis = axis.__index__()
    if axis is None:
        r = f(a._flat())
        r = const_fold(r)
        if keepdims:
            o = np.empty((1,) * a.ndim, dtype=object)
            o.reshape(-1)[0] = r
            return make(o, dt or elem_dt(r))
        return r
    if isinstance(axis, (tuple, list)):
        axs = sorted(x % a.ndim for x in axis)
        m = np.moveaxis(a.nd(), axs, range(len(axs)))
        m = m.reshape((-1,) + m.shape[len(axs):])
        return reduce_axis(make(m, a._dt), 0, False, f, dt)
    axis = int(axis)
    if not -a.ndim <= axis < a.ndim:
        raise np.exceptions.AxisError(axis, a.ndim)
    m = np.moveaxis(a.nd(), axis, 0)
    shp = m.shape[1:]
    if shp == ():
        r = const_fold(f(list(m)))
        if keepdims:
            o = np.empty((1,), dtype=object)
            o[0] = r
            return make(o, dt or elem_dt(r))
        return r
    o = np.empty(shp, dtype=object)
    for ix in np.ndindex(*shp):
        o[ix] = const_fold(f([m[(i,) + ix] for i in range(m.shape[0])]))
    r = make(o, dt or infer_dt(o))
    if keepdims:
        r = np.expand_dims(r.nd(), axis)
        r = make(r, dt or infer_dt(o))
    return r


def _sum(vs):
    r = None
    for v in vs:
        if isb(v):
            v = Num.const(v) if isinstance(v, Bool) else np.int64(bool(v))
        r = v if r is None else r + v
    return np.float64(0.0) if r is None else r


def fn_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None, **kw):
    a = as_sa(a)
    if a.size == 0 and axis is None:
        return cast(0, a._dt if a._dt.kind != 'b' else INT)
    return reduce_axis(a, axis, keepdims, _sum, None)


def _vmax(vs, sense):
    if not vs:
        raise ValueError('zero-size array to reduction operation %s which has no identity'
                         % ('maximum' if sense > 0 else 'minimum'))
    if not any(is_sym(v) for v in vs):
        if any(v != v for v in vs):
            return np.float64('nan')
        return max(vs) if sense > 0 else min(vs)
    if all(isb(v) for v in vs):
        return bor(*vs) if sense > 0 else band(*vs)
    fin = []
    for v in vs:
        if isinstance(v, (float, np.floating)) and not math.isfinite(v):
            if v != v:
                return v
            if (v > 0) == (sense > 0):
                return v
            continue
        fin.append(v)
    r = pmax(fin, sense)
    return r


def fn_max(a, axis=None, out=None, keepdims=False, **kw):
    return reduce_axis(a, axis, keepdims, lambda vs: _vmax(vs, 1), None)


def fn_min(a, axis=None, out=None, keepdims=False, **kw):
    return reduce_axis(a, axis, keepdims, lambda vs: _vmax(vs, -1), None)


def fn_mean(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    def f(vs):
        if not vs:
            return np.float64('nan')
        s = _sum(vs)
        return _div(_n(s), len(vs))
    return reduce_axis(a, axis, keepdims, f, None)


def fn_any(a, axis=None, out=None, keepdims=False, **kw):
    return reduce_axis(a, axis, keepdims, lambda vs: bor(*vs), BOOL)


def fn_all(a, axis=None, out=None, keepdims=False, **kw):
    return reduce_axis(a, axis, keepdims, lambda vs: band(*vs), BOOL)


def _argbest(vs, sense, skipnan=False):
    if not vs:
        raise ValueError('attempt to get argmax of an empty sequence')
    if not any(is_sym(v) for v in vs):
        a = np.array([float(v) for v in vs])
        if skipnan:
            if np.all(np.isnan(a)):
                raise ValueError('All-NaN slice encountered')
            return np.int64(np.nanargmax(a) if sense > 0 else np.nanargmin(a))
        return np.int64(np.argmax(a) if sense > 0 else np.argmin(a))
    n = len(vs)
    boolean = all(isb(v) for v in vs)
    live = []
    for i, v in enumerate(vs):
        if isinstance(v, (float, np.floating)) and not math.isfinite(v):
            if v != v:
                if skipnan:
                    continue
                return np.int64(i)
            if (v > 0) == (sense > 0):
                return np.int64(i)
            continue
        live.append((i, v))
    if boolean:
        # first True (argmax) / first False
        conds = []
        none_before = np.bool_(True)
        for i, v in live:
            hit = v if sense > 0 else bnot(v)
            conds.append((band(none_before, hit), i))
            none_before = band(none_before, bnot(hit))
        # none -> 0
        c0 = bor(conds[0][0], none_before)
        conds[0] = (c0, conds[0][1])
    else:
        conds = []
        nums = [(i, Num.const(v)) for i, v in live]
        pair = len(nums) <= 30 and all(core.is_angle(v) for _, v in nums)
        best = None if pair else pmax([v for _, v in nums], sense)
        # first index attaining the best value
        prev = np.bool_(True)
        for i, v in nums:
            if pair:
                # angles are compared through their cosines
                hit = band(*[tobool((v >= w) if sense > 0 else (v <= w)) for _, w in nums if w.key != v.key])
            else:
                hit = (v >= best) if sense > 0 else (v <= best)
            hit = tobool(hit)
            conds.append((band(prev, hit), i))
            prev = band(prev, bnot(hit))
    if core.CTX.engine.prune:
        dec = [(core.CTX.decide(c), c, i) for c, i in conds]
        conds = [(np.bool_(True) if d else c, i) for d, c, i in dec if d is not False]
    conds = [(c, i) for c, i in conds if isinstance(c, Bool) or c]
    if len(conds) == 1:
        return np.int64(conds[0][1])
    for c, i in conds:
        if not isinstance(c, Bool) and c:
            return np.int64(i)
    # symbolic index
    cx = core.ctx()
    r = Num.const(conds[-1][1])
    for c, i in reversed(conds[:-1]):
        r = ite(c, Num.const(i), r)
    tag = None
    if not boolean and len(live) == n:
        tag = ('argmax' if sense > 0 else 'argmin', [Num.const(v).key for v in vs])
    if r.is_const():
        return const_fold(r)
    return Num(r.t, 'i', conds, tag)


def fn_argmax(a, axis=None, **kw):
    return reduce_axis(a, axis, False, lambda vs: _argbest(vs, 1), INT)


def fn_argmin(a, axis=None, **kw):
    return reduce_axis(a, axis, False, lambda vs: _argbest(vs, -1), INT)


def fn_nonzero(a):
    a = as_sa(a)
    m = np.array([bool(tobool(v)) for v in a._flat()], dtype=bool).reshape(a.shape)
    return tuple(from_real(x) for x in np.nonzero(m))


def fn_clip(a, lo=None, hi=None, out=None, min=None, max=None, **kw):
    lo = lo if lo is not None else min
    hi = hi if hi is not None else max
    r = a
    if lo is not None:
        r = array_ufunc(np.maximum, '__call__', r, lo)
    if hi is not None:
        r = array_ufunc(np.minimum, '__call__', r, hi)
    return _finish(r, out)


def fn_dot(a, b, out=None):
    a, b = as_sa(a), as_sa(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if a.ndim == 1 and b.ndim == 1:
        if a.shape != b.shape:
            raise ValueError('shapes %s and %s not aligned' % (a.shape, b.shape))
        return const_fold(_dotlist(a._flat(), b._flat()))
    if b.ndim == 1:
        if a.shape[-1] != b.shape[0]:
            raise ValueError('shapes %s and %s not aligned' % (a.shape, b.shape))
        bf = b._flat()
        return reduce_axis(a, -1, False, lambda vs: _dotlist(vs, bf), None)
    if a.shape[-1] != b.shape[-2]:
        raise ValueError('shapes %s and %s not aligned' % (a.shape, b.shape))
    ao, bo = a.nd(), b.nd()
    shp = a.shape[:-1] + b.shape[:-2] + b.shape[-1:]
    o = np.empty(shp, dtype=object)
    for i in np.ndindex(*a.shape[:-1]):
        for j in np.ndindex(*b.shape[:-2]):
            for k in range(b.shape[-1]):
                o[i + j + (k,)] = const_fold(_dotlist(list(ao[i]), [bo[j + (r, k)] for r in range(b.shape[-2])]))
    return make(o, infer_dt(o)) if o.shape else o[()]


def _lift(v):
    return Num.const(v) if isinstance(v, float) and math.isfinite(v) else v


def _dotlist(x, y):
    r = None
    if any(is_sym(v) for v in x) or any(is_sym(v) for v in y):
        x, y = [_lift(v) for v in x], [_lift(v) for v in y]
    for p, q in zip(x, y):
        v = scalar_ufunc(np.multiply, p, q)
        r = v if r is None else scalar_ufunc(np.add, r, v)
    return np.float64(0) if r is None else r


def fn_matmul(a, b, out=None, **kw):
    a, b = as_sa(a), as_sa(b)
    if a.ndim <= 2 and b.ndim <= 2:
        return fn_dot(a, b)
    if a.ndim == 1:
        return fn_matmul(a.reshape(1, -1), b)[..., 0, :]
    if b.ndim == 1:
        return fn_dot(a, b)
    shp = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    ab = np.broadcast_to(a.nd(), shp + a.shape[-2:])
    bb = np.broadcast_to(b.nd(), shp + b.shape[-2:])
    o = np.empty(shp + (a.shape[-2], b.shape[-1]), dtype=object)
    for i in np.ndindex(*shp):
        o[i] = fn_dot(make(ab[i], a._dt), make(bb[i], b._dt)).nd()
    return make(o, infer_dt(o))


# ---- __array_function__ ------------------------------------------------------------
HANDLERS = {}


def handler(*names):
    def deco(f):
        for n in names:
            HANDLERS[n] = f
        return f
    return deco


for _n_, _f_ in (('sum', fn_sum), ('max', fn_max), ('amax', fn_max), ('min', fn_min), ('amin', fn_min),
                 ('mean', fn_mean), ('any', fn_any), ('all', fn_all), ('argmax', fn_argmax),
                 ('argmin', fn_argmin), ('nonzero', fn_nonzero), ('clip', fn_clip), ('dot', fn_dot),
                 ('matmul', fn_matmul)):
    HANDLERS[_n_] = _f_

#: functions that only move elements around: numpy's own object implementation is exact
STRUCTURAL = {'concatenate', 'stack', 'vstack', 'hstack', 'dstack', 'column_stack', 'row_stack', 'reshape',
              'ravel', 'transpose', 'moveaxis', 'swapaxes', 'squeeze', 'expand_dims', 'tile', 'repeat',
              'roll', 'flip', 'fliplr', 'flipud', 'rot90', 'broadcast_to', 'broadcast_arrays', 'atleast_1d',
              'atleast_2d', 'atleast_3d', 'split', 'array_split', 'vsplit', 'hsplit', 'diag', 'diagonal', 'append', 'delete',
              'insert', 'pad', 'copy', 'meshgrid', 'ix_', 'compress', 'rollaxis', 'triu', 'tril', 'resize',
              'array_split', 'fill_diagonal', 'permute_dims', 'trim_zeros', 'block', 'matrix_transpose', 'unstack'}


def _deep_nd(x):
    if isinstance(x, SA):
        return x.nd()
    if isinstance(x, (Num, Bool)):
        return to_obj(x)
    if isinstance(x, Masked):
        return x.materialise().nd()
    if isinstance(x, tuple):
        return tuple(_deep_nd(v) for v in x)
    if isinstance(x, list):
        return [_deep_nd(v) for v in x]
    return x


def _collect_dt(x):
    if isinstance(x, SA):
        return x._dt
    if isinstance(x, np.ndarray):
        return x.dtype
    if isinstance(x, (list, tuple)):
        dt = None
        for v in x:
            d = _collect_dt(v)
            if d is not None:
                dt = d if dt is None else promote(dt, d)
        return dt
    if is_sym(x):
        return elem_dt(x)
    return None


def array_function(func, types, args, kwargs):
    name = func.__name__
    mod = getattr(func, '__module__', '')
    if not has_sym(args) and not has_sym(list(kwargs.values())) and name not in (
            'empty_like', 'zeros_like', 'ones_like', 'full_like', 'copyto', 'put', 'put_along_axis', 'fill_diagonal', 'place', 'putmask') \
            and 'out' not in kwargs:
        ra = raw(tuple(args))
        rk = raw(kwargs)
        if not _any_obj(ra):
            with np.errstate(all='ignore'):
                r = func(*ra, **rk)
            return wrap(r)
    h = HANDLERS.get(name if 'linalg' not in mod else 'linalg.' + name) or HANDLERS.get(name)
    if h is not None:
        return h(*args, **kwargs)
    if name in STRUCTURAL:
        dt = None
        for a in args[:1] if name not in ('append', 'insert', 'broadcast_arrays', 'meshgrid') else args:
            d = _collect_dt(a)
            if d is not None:
                dt = d if dt is None else promote(dt, d)
        ra = [_deep_nd(a) for a in args]
        rk = {k: (raw(v) if not has_sym(v) else _deep_nd(v)) for k, v in kwargs.items()}
        if name in ('delete', 'insert'):
            ra[1] = raw(args[1])
        r = func(*ra, **rk)
        if isinstance(r, np.ndarray):
            return make(r, dt)
        if isinstance(r, (list, tuple)):
            return type(r)(make(x, _collect_dt(args[i]) if name == 'broadcast_arrays' else dt)
                           if isinstance(x, np.ndarray) and x.dtype == object else wrap(x)
                           for i, x in enumerate(r))
        return r
    raise Unsupported('numpy function %s' % name)


def _any_obj(x):
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(_any_obj(v) for v in x)
    return False


@handler('empty_like', 'zeros_like', 'ones_like', 'full_like')
def _like(a, *args, **kw):
    raise Unsupported('like')


def _mk_like(val):
    def f(a, *args, dtype=None, **kw):
        a = as_sa(a)
        v = val
        if val is None:
            v = args[0] if args else kw.get('fill_value')
            args = args[1:]
        if dtype is None and args:
            dtype = args[0]
        dt = np.dtype(dtype) if dtype is not None else a._dt
        o = np.empty(a.shape if kw.get('shape') is None else kw['shape'], dtype=object)
        of = o.reshape(-1)
        for i in range(of.size):
            of[i] = cast(v, dt)
        return make(o, dt)
    return f


HANDLERS['zeros_like'] = _mk_like(0)
HANDLERS['empty_like'] = _mk_like(0)
HANDLERS['ones_like'] = _mk_like(1)
HANDLERS['full_like'] = _mk_like(None)


@handler('where')
def fn_where(c, a=None, b=None):
    if a is None:
        return fn_nonzero(c)
    co, ao, bo = to_obj(c), to_obj(a), to_obj(b)
    shp = np.broadcast_shapes(co.shape, ao.shape, bo.shape)
    cb, ab, bb = (np.broadcast_to(x, shp) for x in (co, ao, bo))
    o = np.empty(shp, dtype=object)
    for ix in np.ndindex(*shp):
        cv = tobool(cb[ix])
        x, y = ab[ix], bb[ix]
        if isinstance(cv, Bool):
            nonfin = [isinstance(v, (float, np.floating)) and not math.isfinite(v) for v in (x, y)]
            if any(nonfin):
                o[ix] = x if bool(cv) else y     # fork
            else:
                o[ix] = ite_any(cv, x, y)
        else:
            o[ix] = x if cv else y
    dt = None
    for s in (a, b):
        d = _collect_dt(s)
        if d is None:
            d = elem_dt(s)
        dt = d if dt is None else promote(dt, d)
    if not shp:
        return o[()]
    return make(o, dt)


@handler('nanargmin')
def _nanargmin(a, axis=None, **kw):
    return reduce_axis(a, axis, False, lambda vs: _argbest(vs, -1, True), INT)


@handler('nanargmax')
def _nanargmax(a, axis=None, **kw):
    return reduce_axis(a, axis, False, lambda vs: _argbest(vs, 1, True), INT)


def _dropnan(vs):
    return [v for v in vs if is_sym(v) or v == v]


@handler('nanmax')
def _nanmax(a, axis=None, **kw):
    return reduce_axis(a, axis, False, lambda vs: _vmax(_dropnan(vs), 1), None)


@handler('nanmin')
def _nanmin(a, axis=None, **kw):
    return reduce_axis(a, axis, False, lambda vs: _vmax(_dropnan(vs), -1), None)


@handler('nanmean')
def _nanmean(a, axis=None, **kw):
    def f(vs):
        vs = _dropnan(vs)
        return _div(_n(_sum(vs)), len(vs)) if vs else np.float64('nan')
    return reduce_axis(a, axis, False, f, None)


@handler('nansum')
def _nansum(a, axis=None, **kw):
    return reduce_axis(a, axis, False, lambda vs: _sum(_dropnan(vs)), None)


@handler('average')
def _average(a, axis=None, weights=None, **kw):
    a = as_sa(a)
    if weights is None:
        return fn_mean(a, axis)
    w = as_sa(weights)
    if axis is None and w.shape == a.shape:
        return fn_sum(a * w) / fn_sum(w)
    wf = w._flat()

    def f(vs):
        return _div(_n(_dotlist(vs, wf)), _n(_sum(wf)))
    return reduce_axis(a, axis, False, f, None)


@handler('std')
def _std(a, axis=None, ddof=0, **kw):
    def f(vs):
        m = _div(_n(_sum(vs)), len(vs))
        return SCALAR['sqrt'](Num.const(_div(_n(_sum([(v - m) * (v - m) for v in vs])), len(vs) - ddof)))
    return reduce_axis(a, axis, False, f, None)


@handler('var')
def _var(a, axis=None, ddof=0, **kw):
    def f(vs):
        m = _div(_n(_sum(vs)), len(vs))
        return _div(_n(_sum([(v - m) * (v - m) for v in vs])), len(vs) - ddof)
    return reduce_axis(a, axis, False, f, None)


@handler('ptp')
def _ptp(a, axis=None, **kw):
    return fn_max(a, axis) - fn_min(a, axis)


@handler('median')
def _median(a, axis=None, **kw):
    def f(vs):
        vs = sort_list(vs)
        n = len(vs)
        return vs[n // 2] if n % 2 else (vs[n // 2 - 1] + vs[n // 2]) / 2
    return reduce_axis(a, axis, False, f, None)


@handler('prod')
def _np_prod(a, axis=None, **kw):
    return reduce_axis(a, axis, kw.get('keepdims', False), _prod, None)


@handler('cumsum')
def _cumsum(a, axis=None, **kw):
    a = as_sa(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    m = np.moveaxis(a.nd(), axis, 0)
    o = np.empty(m.shape, dtype=object)
    for i in range(m.shape[0]):
        for ix in np.ndindex(*m.shape[1:]):
            v = m[(i,) + ix]
            if isb(v):
                v = Num.const(v)
            o[(i,) + ix] = v if i == 0 else o[(i - 1,) + ix] + v
    return make(np.moveaxis(o, 0, axis), infer_dt(o))


@handler('cumprod')
def _cumprod(a, axis=None, **kw):
    a = as_sa(a).reshape(-1)
    o = np.empty(a.shape, dtype=object)
    r = 1
    for i, v in enumerate(a._flat()):
        r = r * v
        o[i] = r
    return make(o, infer_dt(o))


@handler('diff')
def _diff(a, n=1, axis=-1, **kw):
    a = as_sa(a)
    for _ in range(n):
        m = make(np.moveaxis(a.nd(), axis, 0), a._dt)
        r = m[1:] - m[:-1]
        a = make(np.moveaxis(r.nd(), 0, axis), r._dt)
    return a


@handler('cross')
def _cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    if axis is not None:
        axisa = axisb = axisc = axis
    a, b = as_sa(a), as_sa(b)
    ao, bo = np.moveaxis(a.nd(), axisa, -1), np.moveaxis(b.nd(), axisb, -1)
    if ao.shape[-1] != 3 or bo.shape[-1] != 3:
        if ao.shape[-1] == 2 and bo.shape[-1] == 2:
            return make(ao[..., 0], a._dt) * make(bo[..., 1], b._dt) - make(ao[..., 1], a._dt) * make(bo[..., 0], b._dt)
        raise ValueError('incompatible dimensions for cross product')
    A = [make(ao[..., i], a._dt) if ao.ndim > 1 else ao[i] for i in range(3)]
    B = [make(bo[..., i], b._dt) if bo.ndim > 1 else bo[i] for i in range(3)]

    def mul(x, y):
        return binop(np.multiply, x, y)
    r = [binop(np.subtract, mul(A[1], B[2]), mul(A[2], B[1])),
         binop(np.subtract, mul(A[2], B[0]), mul(A[0], B[2])),
         binop(np.subtract, mul(A[0], B[1]), mul(A[1], B[0]))]
    ro = [to_obj(x) for x in r]
    st = np.stack([np.asarray(x) for x in ro], axis=-1) if ro[0].ndim else np.array([x[()] for x in ro], dtype=object)
    if ro[0].ndim:
        st = np.moveaxis(st, -1, axisc)
    return make(st, infer_dt(st))


@handler('einsum')
def _einsum(sub, *ops, **kw):
    ops = [as_sa(o) for o in ops]
    sub = sub.replace(' ', '')
    if '->' in sub:
        ins, outp = sub.split('->')
    else:
        ins = sub
        letters = [c for c in sub if c.isalpha()]
        outp = ''.join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = ins.split(',')
    if '.' in sub:
        if '->' not in sub:
            raise Unsupported('einsum ellipsis without output')
        n_ell = [o.ndim - len(s.replace('...', '')) if '...' in s else 0 for s, o in zip(ins, ops)]
        free = [c for c in 'ABCDEFGHIJKLMNOPQRSTUVWXYZ' if c not in sub][:max(n_ell)]
        ins = [s.replace('...', ''.join(free[len(free) - n:])) for s, n in zip(ins, n_ell)]
        outp = outp.replace('...', ''.join(free))
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError('einsum dims')
        for c, n in zip(s, o.shape):
            if dims.setdefault(c, n) != n and n != 1:
                if dims[c] == 1:
                    dims[c] = n
                else:
                    raise ValueError('einsum shape mismatch')
    summ = [c for c in dims if c not in outp]
    res = np.empty([dims[c] for c in outp], dtype=object)
    nds = [o.nd() for o in ops]
    for ix in np.ndindex(*res.shape):
        env = dict(zip(outp, ix))
        tot = None
        for jx in np.ndindex(*[dims[c] for c in summ]):
            env.update(zip(summ, jx))
            v = None
            for s, o in zip(ins, nds):
                e = o[tuple(env[c] if o.shape[i] != 1 else 0 for i, c in enumerate(s))]
                v = e if v is None else scalar_ufunc(np.multiply, v, e)
            tot = v if tot is None else scalar_ufunc(np.add, tot, v)
        res[ix] = const_fold(tot if tot is not None else np.float64(0))
    if res.ndim == 0:
        return res[()]
    return make(res, infer_dt(res))


@handler('inner')
def _inner(a, b):
    a, b = as_sa(a), as_sa(b)
    if a.ndim == 1 and b.ndim == 1:
        return fn_dot(a, b)
    return fn_dot(a, b.T)


@handler('outer')
def _outer(a, b, **kw):
    a, b = as_sa(a).reshape(-1), as_sa(b).reshape(-1)
    return a.reshape(-1, 1) * b.reshape(1, -1)


@handler('vdot')
def _vdot(a, b):
    return fn_dot(as_sa(a).reshape(-1), as_sa(b).reshape(-1))


@handler('tensordot')
def _tensordot(a, b, axes=2):
    if axes == 1:
        return fn_dot(a, b) if as_sa(b).ndim <= 2 else _un('tensordot')
    a, b = as_sa(a), as_sa(b)
    if axes == 2 and a.ndim == 2 and b.ndim == 2:
        return fn_dot(a.reshape(-1), b.reshape(-1))
    _un('tensordot')


def _un(n):
    raise Unsupported(n)


@handler('trace')
def _trace(a, *args, **kw):
    a = as_sa(a)
    if a.ndim == 2:
        return _sum([a.nd()[i, i] for i in range(min(a.shape))])
    ax1, ax2 = kw.get('axis1', 0), kw.get('axis2', 1)
    if args:
        ax1, ax2 = args[1], args[2]
    m = np.moveaxis(a.nd(), (ax1, ax2), (0, 1))
    r = m[0, 0]
    for i in range(1, m.shape[0]):
        r = make(np.asarray(r), a._dt) + make(m[i, i], a._dt)
    return r


@handler('linalg.norm', 'norm')
def _norm(a, ord=None, axis=None, keepdims=False):
    a = as_sa(a)
    if ord not in (None, 2, 'fro'):
        _un('norm ord')
    if axis is None:
        if a.ndim > 2:
            _un('norm nd')
        return const_fold(psqrt(Num.const(_dotlist(a._flat(), a._flat()))))
    return reduce_axis(a, axis, keepdims, lambda vs: const_fold(psqrt(Num.const(_dotlist(vs, vs)))), None)


@handler('linalg.det', 'det')
def _det(a):
    a = as_sa(a)
    o = a.nd()
    if a.ndim > 2:
        r = np.empty(a.shape[:-2], dtype=object)
        for ix in np.ndindex(*r.shape):
            r[ix] = _det(make(o[ix], a._dt))
        return make(r, FLOAT)
    n = a.shape[0]
    if n == 1:
        return o[0, 0]
    if n == 2:
        return o[0, 0] * o[1, 1] - o[0, 1] * o[1, 0]
    if n == 3:
        return (o[0, 0] * (o[1, 1] * o[2, 2] - o[1, 2] * o[2, 1])
                - o[0, 1] * (o[1, 0] * o[2, 2] - o[1, 2] * o[2, 0])
                + o[0, 2] * (o[1, 0] * o[2, 1] - o[1, 1] * o[2, 0]))
    _un('det')


@handler('linalg.inv', 'inv')
def _inv(a):
    a = as_sa(a)
    o = a.nd()
    d = _det(a)
    n = a.shape[-1]
    if a.ndim != 2 or n > 3:
        _un('inv')
    if n == 2:
        adj = [[o[1, 1], -o[0, 1]], [-o[1, 0], o[0, 0]]]
    else:
        adj = [[None] * 3 for _ in range(3)]
        for i in range(3):
            for j in range(3):
                r = [x for x in range(3) if x != j]
                c = [x for x in range(3) if x != i]
                adj[i][j] = (o[r[0], c[0]] * o[r[1], c[1]] - o[r[0], c[1]] * o[r[1], c[0]]) * (-1) ** (i + j)
    d = Num.const(d)
    if not d.is_const() and bool(d == 0) or d.is_const() and d.cval() == 0:
        raise np.linalg.LinAlgError('Singular matrix')
    return as_sa([[x / d for x in row] for row in adj])


@handler('linalg.solve', 'solve')
def _solve(a, b):
    return fn_dot(_inv(a), b)


@handler('unique')
def _unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **kw):
    if axis is not None:
        _un('unique axis')
    a = as_sa(a)
    vals = [v.__index__() if isinstance(v, Num) and v.kind == 'i' else v for v in a._flat()]
    if any(is_sym(v) for v in vals):
        vals = [bool(v) if isinstance(v, Bool) else v for v in vals]
        if any(is_sym(v) for v in vals):
            srt = sort_list(vals)
            out = []
            for v in srt:
                if not out or bool(bnot(beqv(out[-1], v))):
                    out.append(v)
            if return_index or return_inverse or return_counts:
                _un('unique real')
            return as_sa(out)
    return wrap(np.unique(np.array(vals, dtype=a._dt), return_index, return_inverse, return_counts))


def beqv(a, b):
    return tobool(a == b)


@handler('digitize')
def _digitize(x, bins, right=False):
    bl = as_sa(bins)._flat()
    if any(is_sym(b) for b in bl):
        _un('digitize with symbolic bins')
    if any(b < a for a, b in zip(bl, bl[1:])):
        _un('digitize with decreasing bins')

    def f(v):
        r = Num.const(0)
        for b in bl:
            r = r + Num.const(tobool(v > b if right else v >= b))
        return r
    return mapelem(f, as_sa(x), INT)


@handler('isin', 'in1d')
def _isin(a, b, assume_unique=False, invert=False, **kw):
    a, b = as_sa(a), as_sa(b)
    bl = b._flat()
    r = mapelem(lambda v: bor(*[beqv(v, w) for w in bl]) if bl else np.bool_(False), a, BOOL)
    return mapelem(bnot, r, BOOL) if invert else r


def sort_list(vs):
    """insertion sort, forking on symbolic comparisons."""
    out = []
    for v in vs:
        i = len(out)
        while i > 0 and bool(v < out[i - 1]):
            i -= 1
        out.insert(i, v)
    return out


@handler('sort')
def _sort(a, axis=-1, **kw):
    a = as_sa(a)
    m = np.moveaxis(a.nd(), axis, -1)
    o = np.empty(m.shape, dtype=object)
    for ix in np.ndindex(*m.shape[:-1]):
        o[ix] = np.array(sort_list(list(m[ix])) + [None], dtype=object)[:-1]
    return make(np.moveaxis(o, -1, axis), a._dt)


@handler('argsort')
def _argsort(a, axis=-1, **kw):
    a = as_sa(a)
    if a.ndim != 1:
        _un('argsort nd')
    vs = a._flat()
    out = []
    for j, v in enumerate(vs):
        i = len(out)
        while i > 0 and bool(v < vs[out[i - 1]]):
            i -= 1
        out.insert(i, j)
    return from_real(np.array(out, dtype=int))


@handler('round', 'around', 'round_')
def _round(a, decimals=0, out=None):
    if isinstance(a, Num):
        r = pround(a * 10 ** decimals)
        return Num(r.t, 'f') / 10 ** decimals if decimals else Num(r.t, a.kind)
    a = as_sa(a)
    return mapelem(lambda v: np.round(v, decimals) if not isinstance(v, Num) else _round(v, decimals), a, a._dt)


@handler('isclose')
def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    d = binop(np.subtract, a, b)
    lim = binop(np.add, atol, binop(np.multiply, rtol, array_ufunc(np.absolute, '__call__', b) if is_sym(b) or isinstance(b, np.ndarray) else abs(b)))
    return binop(np.less_equal, array_ufunc(np.absolute, '__call__', d), lim)


@handler('allclose')
def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = _isclose(a, b, rtol, atol)
    return fn_all(r) if isinstance(r, np.ndarray) else r


@handler('array_equal')
def _array_equal(a, b, **kw):
    a, b = as_sa(a), as_sa(b)
    if a.shape != b.shape:
        return False
    return band(*[beqv(x, y) for x, y in zip(a._flat(), b._flat())])


@handler('count_nonzero')
def _count_nonzero(a, axis=None, **kw):
    a = as_sa(a)
    return fn_sum(mapelem(lambda v: Num.const(tobool(v)), a, INT), axis)


@handler('nan_to_num')
def _nan_to_num(a, nan=0.0, **kw):
    if is_sym(a):
        return a
    a = as_sa(a)
    return mapelem(lambda v: v if is_sym(v) else np.nan_to_num(v, nan=nan), a, a._dt)


@handler('argwhere')
def _argwhere(a):
    return from_real(np.argwhere(np.array([bool(tobool(v)) for v in as_sa(a)._flat()]).reshape(a.shape)))


@handler('flatnonzero')
def _flatnonzero(a):
    return fn_nonzero(as_sa(a).reshape(-1))[0]


@handler('take')
def _take(a, idx, axis=None, **kw):
    a = as_sa(a)
    if axis is None:
        return a.reshape(-1)[idx]
    return a[(slice(None),) * (axis % a.ndim) + (idx,)]


@handler('take_along_axis')
def _take_along_axis(a, idx, axis=-1):
    a, idx = as_sa(a), as_sa(idx)
    if axis is None:
        return a.reshape(-1)[idx]
    am, im = np.moveaxis(a.nd(), axis, 0), np.moveaxis(idx.nd(), axis, 0)
    am = np.broadcast_to(am, am.shape[:1] + np.broadcast_shapes(am.shape[1:], im.shape[1:]))
    o = np.empty((im.shape[0],) + am.shape[1:], dtype=object)
    imb = np.broadcast_to(im, o.shape)
    for ix in np.ndindex(*o.shape):
        col = make(np.array([am[(r,) + ix[1:]] for r in range(am.shape[0])] + [None], dtype=object)[:-1], a._dt)
        o[ix] = col[imb[ix]]
    return make(np.moveaxis(o, 0, axis), a._dt)


@handler('choose')
def _choose(i, ch, **kw):
    _un('choose')


@handler('select')
def _np_select(conds, choices, default=0):
    r = default
    for c, v in reversed(list(zip(conds, choices))):
        r = fn_where(c, v, r)
    return r


@handler('copyto')
def _copyto(dst, src, **kw):
    if 'where' in kw:
        dst[...] = fn_where(kw['where'], src, dst)
    else:
        dst[...] = src


@handler('gradient')
def _gradient(f, *varargs, axis=None, edge_order=1):
    f = as_sa(f)
    axes = tuple(range(f.ndim)) if axis is None else ((axis,) if np.ndim(axis) == 0 else tuple(axis))
    axes = tuple(a % f.ndim for a in axes)
    if len(varargs) == 0:
        dx = [1.0] * len(axes)
    elif len(varargs) == 1 and np.ndim(varargs[0]) == 0:
        dx = list(varargs) * len(axes)
    else:
        dx = list(varargs)
    if any(isinstance(d, np.ndarray) and d.ndim for d in dx) or edge_order != 1:
        _un('gradient spacing')
    outs = []
    for a, h in zip(axes, dx):
        m = make(np.moveaxis(f.nd(), a, 0), f._dt)
        n = m.shape[0]
        if n < 2:
            raise ValueError('Shape of array too small to calculate a numerical gradient, at least 2 elements are required.')
        rows = []
        for i in range(n):
            if i == 0:
                r = binop(np.divide, binop(np.subtract, m[1], m[0]), h)
            elif i == n - 1:
                r = binop(np.divide, binop(np.subtract, m[n - 1], m[n - 2]), h)
            else:
                r = binop(np.divide, binop(np.subtract, m[i + 1], m[i - 1]), binop(np.multiply, 2.0, h))
            rows.append(to_obj(r))
        st = np.empty((n,) + m.shape[1:], dtype=object)
        for i, r in enumerate(rows):
            st[i] = r if r.ndim else r[()]
        outs.append(make(np.moveaxis(st, 0, a), FLOAT))
    if len(axes) == 1:
        return outs[0]
    return tuple(outs)


@handler('bincount')
def _bincount(x, weights=None, minlength=0):
    x = as_sa(x)
    xi = np.array([operator.index(v) for v in x._flat()], dtype=int)
    n = max(int(xi.max()) + 1 if xi.size else 0, minlength)
    w = as_sa(weights)._flat() if weights is not None else [1] * len(xi)
    out = [0] * n if weights is None else [0.0] * n
    for i, v in zip(xi, w):
        out[i] = out[i] + v
    return as_sa(out)


@handler('apply_along_axis')
def _aaa(f, axis, arr, *a, **k):
    arr = as_sa(arr)
    m = np.moveaxis(arr.nd(), axis, -1)
    res = [f(make(m[ix], arr._dt), *a, **k) for ix in np.ndindex(*m.shape[:-1])]
    st = as_sa(res)
    st = st.reshape(m.shape[:-1] + st.shape[1:])
    return make(np.moveaxis(st.nd(), -1, axis), st._dt) if st.ndim == arr.ndim else st


@handler('shape')
def _shape(a):
    return as_sa(a).shape


@handler('ndim')
def _ndim(a):
    return as_sa(a).ndim


@handler('size')
def _size(a, axis=None):
    a = as_sa(a)
    return a.size if axis is None else a.shape[axis]


@handler('result_type')
def _rt(*a):
    return np.result_type(*[x._dt if isinstance(x, SA) else (elem_dt(x) if is_sym(x) else x) for x in a])


@handler('may_share_memory', 'shares_memory')
def _share(a, b, *r):
    return np.may_share_memory(_deep_nd(a), _deep_nd(b))


@handler('iscomplexobj')
def _icx(a):
    return False


@handler('isrealobj')
def _irx(a):
    return True


@handler('array_repr', 'array_str', 'array2string')
def _arepr(a, *r, **k):
    return repr(a)


@handler('logical_and.reduce')
def _lar(a, axis=0):
    return fn_all(a, axis)


@handler('interp')
def _interp(*a, **k):
    _un('interp')


@handler('savetxt')
def _savetxt(fname, X, fmt='%.18e', delimiter=' ', newline='\n', header='', footer='', comments='# ', **kw):
    from .text import savetxt
    return savetxt(fname, X, fmt, delimiter, newline, header, footer, comments)
