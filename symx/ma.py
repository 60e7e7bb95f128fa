"""Masked arrays with symbolic data and masks: the np.ma subset reachable in the shadow modules."""
import numpy as np

from . import nd
from .core import Unsupported
from .nd import SA, as_sa, from_real, make, binop, fn_where


def _mask_of(mask, shape):
    if mask is None or mask is np.ma.nomask or (isinstance(mask, (bool, np.bool_)) and not mask):
        return make(np.broadcast_to(np.array(False, dtype=object), shape).copy(), bool)
    m = as_sa(mask, bool)
    if m.shape != shape:
        if m.ndim == 0:
            m = make(np.broadcast_to(m.nd(), shape).copy(), bool)
        elif m.size == int(np.prod(shape)):
            m = m.reshape(shape)
        else:
            raise np.ma.MaskError('Mask and data not compatible: data size is %d, mask size is %d.' % (int(np.prod(shape)), m.size))
    return m


class MaskedSA:
    __array_ufunc__ = None
    __array_priority__ = 3000

    def __init__(self, data, mask, fill_value=None):
        self.data = as_sa(data)
        self.mask = _mask_of(mask, self.data.shape)
        self.fill_value = fill_value

    shape = property(lambda self: self.data.shape)
    ndim = property(lambda self: self.data.ndim)
    size = property(lambda self: self.data.size)
    dtype = property(lambda self: self.data.dtype)
    T = property(lambda self: MaskedSA(self.data.T, self.mask.T, self.fill_value))

    def __len__(self):
        return len(self.data)

    def __getitem__(self, k):
        d, m = self.data[k], self.mask[k]
        if isinstance(d, np.ndarray) and d.ndim:
            return MaskedSA(d, m, self.fill_value)
        if bool(nd.tobool(m if not isinstance(m, np.ndarray) else m[()])):
            return np.ma.masked
        return d

    def __iter__(self):
        return iter([self[i] for i in range(len(self))])

    def __setitem__(self, k, v):
        if v is np.ma.masked:
            self.mask[k] = True
            return
        self.data[k] = v.data if isinstance(v, MaskedSA) else v
        self.mask[k] = v.mask if isinstance(v, MaskedSA) else False

    def filled(self, fill_value=None):
        fv = fill_value if fill_value is not None else self.fill_value
        if fv is None:
            fv = np.ma.default_fill_value(np.dtype(self.data.dtype))
        return fn_where(self.mask, fv, self.data)

    def compressed(self):
        m = nd.concretize_mask(self.mask)
        return self.data[np.logical_not(np.asarray(m, dtype=bool))]

    def copy(self):
        return MaskedSA(self.data.copy(), self.mask.copy(), self.fill_value)

    def reshape(self, *s):
        return MaskedSA(self.data.reshape(*s), self.mask.reshape(*s), self.fill_value)

    def ravel(self):
        return self.reshape(-1)

    def astype(self, dt):
        return MaskedSA(self.data.astype(dt), self.mask, self.fill_value)

    def _bin(self, o, uf, rev=False):
        m = self.mask
        if isinstance(o, MaskedSA):
            m, o = binop(np.logical_or, m, o.mask), o.data
        return MaskedSA(binop(uf, *((o, self.data) if rev else (self.data, o))), m, self.fill_value)

    def __add__(self, o): return self._bin(o, np.add)
    __radd__ = __add__
    def __mul__(self, o): return self._bin(o, np.multiply)
    __rmul__ = __mul__
    def __sub__(self, o): return self._bin(o, np.subtract)
    def __rsub__(self, o): return self._bin(o, np.subtract, True)
    def __truediv__(self, o): return self._bin(o, np.divide)
    def __neg__(self): return MaskedSA(-self.data, self.mask, self.fill_value)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('masked array attribute ' + n)


class MaProxy:
    MaskedArray = (MaskedSA, np.ma.MaskedArray)
    masked = np.ma.masked
    nomask = np.ma.nomask
    MaskError = np.ma.MaskError

    def array(self, data, dtype=None, copy=False, order=None, mask=np.ma.nomask, fill_value=None, keep_mask=True, **kw):
        if kw:
            raise Unsupported('masked array options')
        old = None
        if isinstance(data, MaskedSA):
            old, data = data.mask, data.data
        d = as_sa(data, dtype)
        if copy:
            d = d.copy()
        r = MaskedSA(d, mask, fill_value)
        if old is not None and keep_mask:
            r.mask = binop(np.logical_or, r.mask, old)
        return r

    masked_array = array

    def masked_where(self, condition, a, copy=True):
        return self.array(a, mask=condition, copy=copy)

    def getmaskarray(self, a):
        return a.mask if isinstance(a, MaskedSA) else _mask_of(None, as_sa(a).shape)

    getmask = getmaskarray

    def getdata(self, a, subok=True):
        return a.data if isinstance(a, MaskedSA) else as_sa(a)

    def filled(self, a, fill_value=None):
        return a.filled(fill_value) if isinstance(a, MaskedSA) else a

    def isMaskedArray(self, a):
        return isinstance(a, MaskedSA)

    isMA = isarray = isMaskedArray

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('np.ma.' + n)
