"""Replacement of FFI functions inside shadow modules, by object identity.

Each stub implements the documented contract of the library function on
symbolic values; with concrete data the library itself is called."""
import numpy as np

from . import core, nd
from .core import Num, Bool, Unsupported
from .nd import SA, has_sym, raw, wrap, as_sa


def _guarded_native(f, name):
    def g(*a, **k):
        if has_sym(a) or has_sym(list(k.values())):
            raise Unsupported('native function %s on symbolic data' % name)
        out = k.get('out')
        r = wrap(f(*raw(a), **raw(k)))
        if isinstance(out, SA):
            out[...] = r
            return out
        return r
    g.__name__ = name
    g.__wrapped__ = f
    return g


class ModProxy:
    """module whose functions receive real arrays"""

    def __init__(self, mod, name, over=None):
        self._mod, self._name, self._over = mod, name, over or {}

    def __getattr__(self, n):
        if n in self._over:
            return self._over[n]
        v = getattr(self._mod, n)
        if isinstance(v, type) or not callable(v):
            return v
        return _guarded_native(v, self._name + '.' + n)


def _su(a, dtype=None, **k):
    """numpy.lib.recfunctions.structured_to_unstructured"""
    from numpy.lib.recfunctions import structured_to_unstructured as f
    if type(a).__name__ == 'SymRec':
        return a.unstructured(dtype)
    return wrap(f(raw(a), dtype=dtype, **k))


def _mode(a, axis=0, **k):
    """scipy.stats.mode: smallest of the most common values"""
    from scipy.stats import mode
    a = as_sa(a)
    if has_sym(a):
        vals = [v.__index__() if isinstance(v, Num) else v for v in a._flat()]
        a = np.array(vals).reshape(a.shape)
    else:
        a = raw(a)
    return mode(a, axis=axis, **k)


def _linregress(x, y=None, **k):
    from scipy.stats import linregress
    if not has_sym([x, y]):
        return linregress(raw(x), raw(y), **k)
    x, y = as_sa(x)._flat(), as_sa(y)._flat()
    n = len(x)
    mx, my = sum(x[1:], x[0]) / n, sum(y[1:], y[0]) / n
    sxx = sum(((v - mx) * (v - mx) for v in x), 0)
    sxy = sum(((u - mx) * (v - my) for u, v in zip(x, y)), 0)
    if bool(sxx == 0):
        raise ValueError('Cannot calculate a linear regression if all x values are identical')
    slope = sxy / sxx
    icpt = my - slope * mx

    class R(tuple):
        pass
    r = R((slope, icpt, 0.0, 0.0, 0.0))
    r.slope, r.intercept = slope, icpt
    return r


def _binary_dilation(a, structure=None, iterations=1, mask=None, output=None, **k):
    from scipy.ndimage import binary_dilation, generate_binary_structure
    if not has_sym([a]):
        return wrap(binary_dilation(raw(a), structure=raw(structure), iterations=iterations, **k))
    a = as_sa(a)
    st = generate_binary_structure(a.ndim, 1) if structure is None else np.asarray(raw(structure)).astype(bool)
    cur = a
    for _ in range(int(iterations)):
        o = np.empty(a.shape, dtype=object)
        c = np.array(st.shape) // 2
        offs = [tuple(np.array(i) - c) for i in zip(*np.nonzero(st))]
        cn = cur.nd()
        for ix in np.ndindex(*a.shape):
            vs = []
            for of in offs:
                p = tuple(i - d for i, d in zip(ix, of))
                if all(0 <= q < s for q, s in zip(p, a.shape)):
                    vs.append(cn[p])
            o[ix] = core.bor(*vs)
        cur = nd.make(o, bool)
    return cur


def _nd_line(*a, **k):
    from skimage.draw import line
    a = [x.__index__() if isinstance(x, Num) else x for x in a]
    return wrap(line(*raw(tuple(a)), **k))


def _pts(p):
    p = as_sa(p)
    if p.ndim != 2 or p.shape[1] != 2:
        raise Unsupported('points for a transform')
    return p


def _fold(M):
    for ix in np.ndindex(*M.shape):
        if isinstance(M[ix], Num) and M[ix].is_const():
            M[ix] = float(M[ix].cval())
    return M


class SymAffine:
    """skimage.transform.AffineTransform; with symbolic points only the exactly determined fit of three points"""

    def __init__(self, matrix=None, scale=None, shear=None, rotation=None, translation=None, *, dimensionality=None):
        if matrix is None:
            from skimage.transform import AffineTransform
            if has_sym([scale, shear, rotation, translation]):
                raise Unsupported('symbolic affine parameters')
            kw = dict(scale=raw(scale), rotation=rotation, translation=raw(translation))
            if shear is not None:
                kw['shear'] = raw(shear)
            matrix = AffineTransform(**kw).params
        self.params = as_sa(matrix)

    def real(self):
        from skimage.transform import AffineTransform
        return AffineTransform(matrix=np.array(raw(self.params), dtype=float))

    def estimate(self, src, dst, weights=None):
        if not has_sym([src, dst, weights]):
            from skimage.transform import AffineTransform
            import warnings
            t = AffineTransform()
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                ok = t.estimate(np.array(raw(src), dtype=float), np.array(raw(dst), dtype=float), **({} if weights is None else {'weights': raw(weights)}))
            self.params = wrap(t.params)
            return ok
        s, d = _pts(src).nd(), _pts(dst).nd()
        if len(s) != 3 or len(d) != 3 or weights is not None:
            raise Unsupported('affine fit other than through three points')
        p, q = [[Num.const(v[i]) for v in s] for i in (0, 1)], [[Num.const(v[i]) for v in d] for i in (0, 1)]
        a, b, c, e = p[0][1] - p[0][0], p[0][2] - p[0][0], p[1][1] - p[1][0], p[1][2] - p[1][0]
        det = a * e - b * c
        if bool(Num.const(det) == 0):
            raise Unsupported('collinear points')
        M = np.empty((3, 3), dtype=object)
        for i in (0, 1):
            u, v = q[i][1] - q[i][0], q[i][2] - q[i][0]
            M[i, 0] = (u * e - v * c) / det
            M[i, 1] = (v * a - u * b) / det
            M[i, 2] = q[i][0] - M[i, 0] * p[0][0] - M[i, 1] * p[1][0]
        M[2] = [0.0, 0.0, 1.0]
        self.params = nd.make(_fold(M), float)
        return True

    def __call__(self, coords):
        c = as_sa(coords)
        if c.ndim == 1:
            return self(c.reshape(1, -1))
        M, x = self.params.nd(), c.nd()
        o = np.empty(x.shape, dtype=object)
        for k in range(len(x)):
            for i in (0, 1):
                o[k, i] = M[i, 0] * x[k, 0] + M[i, 1] * x[k, 1] + M[i, 2]
        return nd.make(o, float)

    @property
    def inverse(self):
        if not has_sym([self.params]):
            return SymAffine(np.linalg.inv(np.array(raw(self.params), dtype=float)))
        M = self.params.nd()
        a, b, c, d, e, f = M[0, 0], M[0, 1], M[0, 2], M[1, 0], M[1, 1], M[1, 2]
        det = a * e - b * d
        o = np.empty((3, 3), dtype=object)
        o[0] = [e / det, -1 * b / det, (b * f - c * e) / det]
        o[1] = [-1 * d / det, a / det, (c * d - a * f) / det]
        o[2] = [0.0, 0.0, 1.0]
        return SymAffine(nd.make(_fold(o), float))

    @property
    def translation(self):
        return self.params[0:2, 2]

    @property
    def scale(self):
        M = self.params
        return np.array([(M[0, i] * M[0, i] + M[1, i] * M[1, i]) ** 0.5 for i in (0, 1)]) if not has_sym([M]) else \
            nd.make(np.array([Num.const(M[0, i] * M[0, i] + M[1, i] * M[1, i]) ** 0.5 for i in (0, 1)], dtype=object), float)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if has_sym([self.params]):
            raise Unsupported('AffineTransform.' + n)
        return wrap(getattr(self.real(), n))


def _interp_class(name, need):
    """transform types known only through the points they are fitted to: a fit through exactly as many points as it has freedom maps
    every point to its partner"""
    class T:
        def __init__(self, *a, **k):
            if a or k:
                raise Unsupported(name + ' arguments')
            self.native = self.src = self.dst = None

        def estimate(self, src, dst, **kw):
            if not has_sym([src, dst]):
                from skimage import transform
                import warnings
                self.native = getattr(transform, name)()
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    return self.native.estimate(np.array(raw(src), dtype=float), np.array(raw(dst), dtype=float), **raw(kw))
            n = need(kw)
            if n is not None and len(src) != n:
                raise Unsupported('overdetermined fit')
            self.src, self.dst = _pts(src), _pts(dst)
            return True

        def __call__(self, coords):
            if self.native is not None:
                return wrap(self.native(np.array(raw(coords), dtype=float)))
            c = _pts(coords)
            o = np.empty(c.shape, dtype=object)
            for k, p in enumerate(c.nd()):
                for s, d in zip(self.src.nd(), self.dst.nd()):
                    if bool(core.band(Num.const(p[0]) == s[0], Num.const(p[1]) == s[1])):
                        o[k] = list(d)
                        break
                else:
                    raise Unsupported(name + ' away from the fitted points')
            return nd.make(o, float)

        @property
        def inverse(self):
            if name == 'PolynomialTransform':
                raise NotImplementedError('There is no explicit way to do the inverse polynomial transformation.')
            t = T()
            if self.native is not None:
                t.native = self.native.inverse
            else:
                t.src, t.dst = self.dst, self.src
            return t
    T.__name__ = name
    return T


def _warp(image, inverse_map, map_args=None, output_shape=None, order=None, mode='constant', cval=0.0, clip=True, preserve_range=False):
    """skimage.transform.warp; symbolically nearest neighbour sampling"""
    from skimage.transform import warp
    params = getattr(inverse_map, 'params', None)
    if not has_sym([image, params]) and getattr(inverse_map, 'src', None) is None:
        im = inverse_map.real() if isinstance(inverse_map, SymAffine) else getattr(inverse_map, 'native', inverse_map)
        return wrap(warp(np.array(raw(image)), im, map_args=map_args, output_shape=raw(output_shape), order=order, mode=mode, cval=cval,
                         clip=clip, preserve_range=preserve_range))
    image = as_sa(image)
    if order is None:
        order = 0 if np.dtype(image.dtype) == bool else 1
    if order != 0 or mode != 'constant' or map_args or image.ndim != 2:
        raise Unsupported('warp options on symbolic data')
    h, w = image.shape
    shape = tuple(int(v) for v in (image.shape if output_shape is None else output_shape))
    o = np.empty(shape, dtype=object)
    im = image.nd()
    for r in range(shape[0]):
        for c in range(shape[1]):
            x, y = [core.pfloor(Num.const(v) + 0.5) for v in inverse_map(np.array([[float(c), float(r)]]))[0].nd()]
            v = im.dtype.type(cval) if im.dtype != object else (int(cval) if np.dtype(image.dtype).kind in 'iu' else cval)
            for j in range(h):
                for i in range(w):
                    v = core.ite(core.band(Num.const(x) == i, Num.const(y) == j), im[j, i], v)
            o[r, c] = v
    return nd.make(o, image._dt)


class _Prop:
    def __init__(self, p):
        self._p = p

    def __getattr__(self, n):
        return wrap(getattr(self._p, n))

    def __getitem__(self, n):
        return wrap(self._p[n])


def _regionprops(label_image, *a, **k):
    from skimage.measure import regionprops
    im = as_sa(label_image)
    if has_sym([im]):
        im = np.array([v.__index__() if isinstance(v, Num) else v for v in im._flat()], dtype=im.dtype).reshape(im.shape)
    return [_Prop(p) for p in regionprops(np.array(raw(im)), *raw(a), **raw(k))]


_TABLE = None


def table():
    global _TABLE
    if _TABLE is None:
        from numpy.lib.recfunctions import structured_to_unstructured
        from scipy.stats import mode, linregress
        from scipy.ndimage import binary_dilation
        from skimage import morphology, transform, measure
        from skimage.draw import line
        from skimage.measure import profile_line
        import pandas as pd
        import copy
        from . import text
        _TABLE = {
            id(structured_to_unstructured): _su,
            id(mode): _mode,
            id(linregress): _linregress,
            id(binary_dilation): _binary_dilation,
            id(line): _nd_line,
            id(profile_line): _guarded_native(profile_line, 'profile_line'),
            id(morphology): ModProxy(morphology, 'skimage.morphology'),
            id(transform): ModProxy(transform, 'skimage.transform', dict(
                AffineTransform=SymAffine, warp=_warp,
                ProjectiveTransform=_interp_class('ProjectiveTransform', lambda kw: 4),
                PiecewiseAffineTransform=_interp_class('PiecewiseAffineTransform', lambda kw: None),
                PolynomialTransform=_interp_class('PolynomialTransform', lambda kw: (kw.get('order', 2) + 1) * (kw.get('order', 2) + 2) // 2))),
            id(measure): ModProxy(measure, 'skimage.measure', dict(regionprops=_regionprops)),
            id(pd): text.PandasProxy(pd),
            id(np): None,
        }
        import ast as _ast
        _TABLE[id(_ast)] = text.AstProxy(_ast)
        _TABLE['keep'] = (structured_to_unstructured, mode, linregress, binary_dilation, line, profile_line, morphology, transform, measure, pd, _ast)
    return _TABLE


def patch(module):
    t = table()
    for k, v in list(module.__dict__.items()):
        if k.startswith('__'):
            continue
        r = t.get(id(v))
        if r is not None:
            module.__dict__[k] = r
