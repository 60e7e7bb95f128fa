"""Symbolic values passing through text and binary files.

A symbolic number formatted into text becomes a token string of decimal digits
(9-prefixed 'magic' number) which the symbolic parsers map back to the value the
text denotes: the exact value, or a fresh value within half a unit of the last
printed digit."""
import re
from fractions import Fraction as F

import numpy as np

from . import core, nd
from .core import Num, Bool, Unsupported, ptrunc
from .nd import SA, as_sa, has_sym, raw, wrap, from_real, make

_SPEC = re.compile(r'^(?:(?P<fill>.)?(?P<align>[<>=^]))?(?P<sign>[+\- ])?(?P<zero>0)?(?P<width>\d+)?(?:\.(?P<prec>\d+))?(?P<type>[dfgesnrF])?$')
MAGIC = '7070'


def format_token(tk, num, spec):
    m = _SPEC.match(spec or '')
    if not m:
        raise Unsupported('format spec %r on symbolic value' % spec)
    ty = m.group('type') or ('d' if num.kind == 'i' else 'r')
    prec = m.group('prec')
    key = (num.key, ty, prec)
    tok = tk.by.get(key)
    if tok is None:
        c = tk.ctx
        if ty == 'd':
            if num.kind != 'i':
                raise ValueError("Unknown format code 'd' for object of type 'float'")
            val = num
        elif ty in ('f', 'F'):
            p = int(prec) if prec is not None else 6
            # the printed decimal: round(x * 10^p) / 10^p
            n = core.pround(num * 10 ** p)
            val = Num((n / 10 ** p).t, 'f')
        elif ty in ('r', 's', 'n'):
            val = num
        elif ty in ('g', 'e'):
            raise Unsupported('format %s of symbolic value' % spec)
        tk.n += 1
        sign = ''
        if num.kind == 'i':
            tok = '%s%05d' % (MAGIC, tk.n)
        else:
            tok = '%s%05d.0' % (MAGIC, tk.n)
        tk.by[key] = tok
        tk.by[tok] = val
    w = int(m.group('width') or 0)
    al = m.group('align') or '>'
    fill = m.group('fill') or ' '
    if al == '<':
        return tok.ljust(w, fill)
    if al == '^':
        return tok.center(w, fill)
    return tok.rjust(w, fill)


_TOK = re.compile(r'^[+-]?7070\d{5}(?:\.0)?$')


def parse_number(s, as_int=False):
    if isinstance(s, bytes):
        s = s.decode()
    t = s.strip()
    c = core.CTX
    if c is not None and c.tokens.active:
        neg = t.startswith('-')
        u = t.lstrip('+-')
        v = c.tokens.by.get(u)
        if v is not None and isinstance(v, Num):
            if as_int and v.kind != 'i':
                raise ValueError("invalid literal for int() with base 10: '%s'" % s)
            v = -v if neg else v
            return v if as_int else v
    return int(s) if as_int else float(s)


class SymBytes(bytes):
    """tobytes() of a symbolic bool array: only find() of a True byte."""

    def __new__(cls, arr):
        b = bytes.__new__(cls, b'')
        b.arr = arr
        return b

    def find(self, sub, *a):
        if sub != b'\x01' or a:
            raise Unsupported('find on symbolic bytes')
        for i, v in enumerate(self.arr._flat()):
            if bool(v):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError('subsection not found')
        return r

    def __getattr__(self, n):
        raise Unsupported('bytes.' + n)


def _lines(fname, skip):
    if hasattr(fname, 'read'):
        data = fname.read()
        lines = data.decode().splitlines() if isinstance(data, bytes) else data.splitlines()
    else:
        with open(fname) as f:
            lines = f.read().splitlines()
    return lines[skip:]


def loadtxt(fname, dtype=float, comments='#', delimiter=None, converters=None, skiprows=0, usecols=None,
            unpack=False, ndmin=0, encoding=None, max_rows=None, skip_header=None, names=None, **kw):
    """np.loadtxt / np.genfromtxt subset."""
    if skip_header is not None:
        skiprows = skip_header
    rows = []
    for ln in _lines(fname, int(skiprows)):
        for cm in ([comments] if isinstance(comments, str) else (comments or [])):
            ln = ln.split(cm)[0]
        if not ln.strip():
            continue
        parts = ln.split(delimiter) if delimiter is not None else ln.split()
        if max_rows is not None and len(rows) >= max_rows:
            break
        rows.append(parts)
    dt = np.dtype(dtype) if dtype is not None else np.dtype(float)
    cols = None
    if usecols is not None:
        cols = [int(usecols)] if np.ndim(usecols) == 0 else [int(c) for c in usecols]
    if dt.names is not None:
        return SymRec.from_rows(rows, dt, cols)
    out = []
    for r in rows:
        rr = [r[c] for c in cols] if cols is not None else r
        out.append([parse_number(x) for x in rr])
    n = {len(r) for r in out}
    if len(n) > 1:
        raise ValueError('the number of columns changed')
    a = as_sa(out, None)
    if a.size == 0:
        a = from_real(np.empty((0,)))
    a = a.astype(dt)
    if a.ndim == 2 and ndmin < 2:
        if a.shape[0] == 1 or a.shape[1] == 1:
            a = a.reshape(-1) if not (a.shape == (1, 1)) else a.reshape(())
            if ndmin == 1:
                a = a.reshape(-1)
    return a.T if unpack else a


class SymRec:
    """structured array with symbolic columns"""

    def __init__(self, cols, dt, shape):
        self.cols, self._dt, self._shape = cols, dt, shape

    @property
    def dtype(self):
        return self._dt

    @property
    def shape(self):
        return self._shape

    @property
    def size(self):
        return int(np.prod(self._shape))

    @property
    def ndim(self):
        return len(self._shape)

    def __len__(self):
        return self._shape[0]

    @classmethod
    def from_rows(cls, rows, dt, cols):
        names = dt.names
        if cols is not None and len(cols) != len(names):
            raise TypeError('the number of columns in `usecols` must match the effective number of fields')
        if cols is None and any(len(r) != len(names) for r in rows):
            raise ValueError('the dtype passed requires %d columns' % len(names))
        data = {}
        for j, nme in enumerate(names):
            src = cols[j] if cols is not None else j
            vals = [parse_number(r[src]) for r in rows]
            data[nme] = as_sa(vals, None).astype(dt[nme]) if vals else from_real(np.empty(0, dt[nme]))
        return cls(data, dt, (len(rows),))

    @classmethod
    def from_real(cls, a):
        return cls({n: from_real(np.ascontiguousarray(a[n])) for n in a.dtype.names}, a.dtype, a.shape)

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.cols:
                raise ValueError('no field of name %s' % k)
            return self.cols[k]
        if isinstance(k, list) and k and all(isinstance(x, str) for x in k):
            dt = np.dtype([(n, self._dt[n]) for n in k])
            return SymRec({n: self.cols[n] for n in k}, dt, self._shape)
        d = {n: v[k] for n, v in self.cols.items()}
        s = next(iter(d.values()))
        return SymRec(d, self._dt, s.shape if isinstance(s, np.ndarray) else ())

    def __setitem__(self, k, v):
        if isinstance(k, str):
            self.cols[k][...] = v
            return
        raise Unsupported('SymRec store')

    def reshape(self, *s):
        s = s[0] if len(s) == 1 and isinstance(s[0], tuple) else s
        d = {n: v.reshape(s) for n, v in self.cols.items()}
        return SymRec(d, self._dt, next(iter(d.values())).shape)

    def flatten(self):
        return self.reshape(-1)

    def copy(self):
        return SymRec({n: v.copy() for n, v in self.cols.items()}, self._dt, self._shape)

    def unstructured(self, dtype=None):
        names = list(self._dt.names)
        st = np.stack([self.cols[n].nd() for n in names], axis=-1)
        dt = None
        for n in names:
            dt = self._dt[n] if dt is None else np.promote_types(dt, self._dt[n])
        r = make(st, dt)
        return r.astype(dtype) if dtype is not None else r


#: files whose binary content is symbolic: path -> provider(dtype,count,offset)
BINARY = {}


def fromfile(fname, dtype=float, count=-1, sep='', offset=0, **kw):
    p = BINARY.get(str(getattr(fname, 'name', fname)))
    if p is not None:
        return p(fname, dtype, count, offset)
    r = np.fromfile(fname, dtype=dtype, count=count, sep=sep, offset=offset)
    if r.dtype.names is not None:
        return SymRec.from_real(r)
    return wrap(r)


#: .npz archives with symbolic content: path -> dict of arrays
ARCHIVE = {}


def load(fname, *a, **kw):
    p = ARCHIVE.get(str(getattr(fname, 'name', fname))) if not isinstance(fname, (str,)) and hasattr(fname, 'read') else ARCHIVE.get(str(fname))
    if p is not None:
        return p
    r = np.load(fname, *a, **kw)
    return wrap(r) if isinstance(r, np.ndarray) else {k: wrap(v) if v.dtype.kind not in 'US' else v for k, v in r.items()}


def savetxt(fname, X, fmt='%.18e', delimiter=' ', newline='\n', header='', footer='', comments='# ', **kw):
    X = as_sa(X)
    if X.ndim == 1:
        X = X.reshape(-1, 1)
    lines = []
    if header:
        lines.append(comments + header)
    for row in X:
        fm = [fmt] * len(row) if isinstance(fmt, str) else list(fmt)
        vals = []
        for f, v in zip(fm, row):
            m = re.match(r'^%([^%]*)$', f)
            if isinstance(v, (Num, Bool)):
                sp = m.group(1)
                if sp.endswith('d') and isinstance(v, Num) and v.kind != 'i':
                    v = ptrunc(v)
                vals.append(format(v if isinstance(v, Num) else Num.const(v), sp))
            else:
                vals.append(f % v)
        lines.append(delimiter.join(vals))
    s = newline.join(lines) + newline
    if hasattr(fname, 'write'):
        fname.write(s)
    else:
        with open(fname, 'w') as f:
            f.write(s)


class PandasProxy:
    def __init__(self, pd):
        self._pd = pd

    def __getattr__(self, n):
        return getattr(self._pd, n)

    def read_csv(self, fname, delimiter=None, sep=None, header='infer', skiprows=None, dtype=None, usecols=None,
                 names=None, comment=None, delim_whitespace=False, index_col=None, **kw):
        if core.CTX is None or not core.CTX.tokens.active:
            k = dict(kw)
            if delim_whitespace:
                k['delim_whitespace'] = True
            if delimiter is not None:
                k['delimiter'] = delimiter
            if sep is not None:
                k['sep'] = sep
            return FrameProxy(self._pd.read_csv(fname, header=header, skiprows=skiprows, dtype=dtype, usecols=usecols,
                                     names=names, comment=comment, index_col=index_col, **k))
        d = delimiter if delimiter is not None else (sep if sep is not None else ',')
        if d in (r'\s+',) or delim_whitespace:
            d = None
        skip = skiprows or 0
        rows = []
        for ln in _lines(fname, int(skip)):
            if comment is not None:
                ln = ln.split(comment)[0]
            if not ln.strip():
                continue
            rows.append([x.strip() for x in (ln.split(d) if d is not None else ln.split())])
        cn = names
        if header == 'infer':
            header = 0 if names is None else None
        if header is not None:
            cn = rows[int(header)]
            rows = rows[int(header) + 1:]
        if cn is None:
            cn = list(range(len(rows[0]) if rows else 0))
        cn = list(cn)
        if usecols is not None:
            us = list(usecols)
            keep = [i for i, c in enumerate(cn) if (c in us if any(isinstance(u, str) for u in us) else i in us)]
        else:
            keep = list(range(len(cn)))
        cols = {}
        for i in keep:
            vals = [parse_number(r[i]) if i < len(r) and r[i] != '' else np.nan for r in rows]
            a = as_sa(vals, None)
            if dtype is not None:
                a = a.astype(dtype if not isinstance(dtype, dict) else dtype.get(cn[i], a._dt))
            cols[cn[i]] = a
        return SymFrame(cols, len(rows))


    def read_table(self, fname, delimiter=None, sep=None, **kw):
        return self.read_csv(fname, delimiter=delimiter, sep=sep if sep is not None or delimiter is not None else '\t', **kw)


class SymFrame:
    def __init__(self, cols, n):
        self.cols, self.n = cols, n

    @property
    def columns(self):
        return list(self.cols)

    @property
    def shape(self):
        return (self.n, len(self.cols))

    def __len__(self):
        return self.n

    def _arr(self):
        cs = list(self.cols.values())
        if not cs:
            return from_real(np.empty((self.n, 0)))
        st = np.stack([c.nd() for c in cs], axis=-1)
        dt = None
        for c in cs:
            dt = c._dt if dt is None else nd.promote(dt, c._dt)
        return make(st, dt)

    _as_sa = _arr

    @property
    def values(self):
        return self._arr()

    def to_numpy(self, *a, **k):
        return self._arr()

    def to_records(self, index=True, **k):
        dt = np.dtype([(str(n), c._dt) for n, c in self.cols.items()])
        return SymRec({str(n): c for n, c in self.cols.items()}, dt, (self.n,))

    def __array__(self, *a, **k):
        return self._arr().real_array()

    def __getitem__(self, k):
        if isinstance(k, list):
            return SymFrame({c: self.cols[c] for c in k}, self.n)
        return _Series(self.cols[k])

    def __getattr__(self, n):
        if n in ('cols', 'n') or n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('DataFrame.' + n)


class FrameProxy:
    def __init__(self, df):
        self._df = df

    def __getattr__(self, n):
        v = getattr(self._df, n)
        return wrap(v) if isinstance(v, np.ndarray) and not hasattr(v, 'columns') else v

    def __getitem__(self, k):
        return self._df[k]

    def __len__(self):
        return len(self._df)


class _Series:
    def __init__(self, a):
        self.values = a

    def _as_sa(self):
        return self.values

    def to_numpy(self, *a, **k):
        return self.values

    def __array__(self, *a, **k):
        return self.values.real_array()

    def __getattr__(self, n):
        return getattr(self.values, n)

    def __len__(self):
        return len(self.values)

    def __getitem__(self, k):
        return self.values[k]


class AstProxy:
    """ast.literal_eval over text that contains value tokens"""

    def __init__(self, mod):
        self._mod = mod

    def __getattr__(self, n):
        return getattr(self._mod, n)

    def literal_eval(self, s):
        r = self._mod.literal_eval(s)
        c = core.CTX
        if c is None or not c.tokens.active:
            return r

        def conv(v):
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                neg = v < 0
                k = repr(abs(v))
                t = c.tokens.by.get(k)
                if isinstance(t, Num):
                    return -t if neg else t
                return v
            if isinstance(v, list):
                return [conv(x) for x in v]
            if isinstance(v, tuple):
                return tuple(conv(x) for x in v)
            if isinstance(v, dict):
                return {conv(a): conv(b) for a, b in v.items()}
            return v
        return conv(r)
