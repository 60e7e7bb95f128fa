"""Symbolic values, path context and solver interface.

Num   -- a polynomial normal form (monomial -> Fraction) over *atoms*
Bool  -- a z3 boolean plus the atoms it mentions
Ctx   -- one execution path: decisions, path condition, definitional constraints

Atoms are hash-consed per path.  Every non-polynomial operation (sqrt, abs, max,
ite, floor, division, cos/sin, ...) creates an atom whose meaning is given by
definitional constraints that are conjoined (by cone of influence) to every
query that mentions it.
"""
import math
import sys
import time
from fractions import Fraction as F

import numpy as np

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402


class Unsupported(Exception):
    """The engine cannot encode an operation: the check gives no answer."""


class Restart(BaseException):
    """Abort this run; rerun the same decision prefix (an if-site now forks)."""


class PathEnd(BaseException):
    """Path pruned (assumption infeasible)."""


class BudgetExceeded(BaseException):
    pass


# --------------------------------------------------------------------------
class Atom:
    __slots__ = ('id', 'name', 'kind', 'z', 'sq', 'lo', 'hi', 'sign', 'key',
                 'angle', 'ctx', 'nz', 'inv_of', 'iz', 'info')

    def __init__(self, ctx, id_, name, kind, lo=None, hi=None):
        self.ctx, self.id, self.name, self.kind = ctx, id_, name, kind
        self.z = z3.Int(name) if kind == 'i' else z3.Real(name)
        self.sq = None        # Num: rewrite atom**2
        self.lo, self.hi = lo, hi
        self.sign = False     # +-1 valued
        self.angle = None     # Angle info
        self.nz = False
        self.inv_of = None
        self.iz = None
        self.key = None
        self.info = None


_R2 = math.sqrt(2)
_R3 = math.sqrt(3)
_R6 = math.sqrt(6)

_snap_cache = {}


def _try_frac(x, maxden=2000, tol=2e-15):
    f = F(x).limit_denominator(maxden)
    if abs(float(f) - x) <= tol * max(abs(x), 1e-300):
        return f
    return None


def snap(x):
    """float -> (Fraction, tag) with tag in '', r2, r3, r6, pi, ipi."""
    r = _snap_cache.get(x)
    if r is not None:
        return r
    if x == int(x) and abs(x) < 2 ** 60:
        r = (F(int(x)), '')
    else:
        r = None
        # short decimal literals
        s = repr(x)
        if len(s) <= 14:
            r = (F(s), '')
        if r is None:
            f = _try_frac(x)
            if f is not None:
                r = (f, '')
        if r is None:
            for tag, c in (('r2', _R2), ('r3', _R3), ('r6', _R6)):
                f = _try_frac(x / c, 720)
                if f is not None:
                    r = (f, tag)
                    break
        if r is None:
            f = _try_frac(x / math.pi, 720)
            if f is not None:
                r = (f, 'pi')
        if r is None:
            f = _try_frac(x * math.pi, 720)
            if f is not None:
                r = (f, 'ipi')
        if r is None:
            r = (F(x), '')
    _snap_cache[x] = r
    return r


CTX = None   # current context


def ctx():
    if CTX is None:
        raise RuntimeError('no symbolic context')
    return CTX


# --------------------------------------------------------------------------
def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        ne = d.get(a, 0) + e
        if ne:
            d[a] = ne
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


class Num:
    __slots__ = ('t', 'kind', 'choices', 'tag', '_key', 'tok', 'nn')
    __array_priority__ = 1000

    def __init__(self, terms, kind='f', choices=None, tag=None):
        self.t = terms
        self.kind = kind
        self.choices = choices
        self.tag = tag
        self._key = None
        self.tok = None
        self.nn = False         # built as a sum of squares

    # ---- construction
    @staticmethod
    def const(x, kind=None):
        if isinstance(x, Num):
            return x
        if isinstance(x, Bool):
            return ite(x, 1, 0)
        if isinstance(x, (bool, np.bool_)):
            return Num({(): F(int(x))} if x else {}, 'i')
        if isinstance(x, (int, np.integer)):
            return Num({(): F(int(x))} if x else {}, kind or 'i')
        if isinstance(x, F):
            return Num({(): x} if x else {}, kind or 'f')
        if isinstance(x, np.float32):
            x = float(repr(x)[11:-1]) if repr(x).startswith('np.float32(') else float(x)
        if isinstance(x, (float, np.floating)):
            x = float(x)
            if x != x or x in (math.inf, -math.inf):
                raise NonFinite()
            f, tag = snap(x)
            if not f:
                return Num({}, 'f')
            if tag == '':
                return Num({(): f}, 'f')
            c = ctx()
            if tag == 'pi':
                return Num({((c.pi.id, 1),): f}, 'f')
            if tag == 'ipi':
                return Num({((c.pi.id, -1),): f}, 'f')
            if tag == 'r2':
                return Num({((c.r2.id, 1),): f}, 'f')
            if tag == 'r3':
                return Num({((c.r3.id, 1),): f}, 'f')
            m = tuple(sorted([(c.r2.id, 1), (c.r3.id, 1)]))
            return Num({m: f}, 'f')
        if isinstance(x, np.ndarray) and x.ndim == 0:
            return Num.const(x.item())
        raise TypeError(f'cannot lift {type(x)}')

    @property
    def key(self):
        if self._key is None:
            self._key = frozenset(self.t.items())
        return self._key

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), F(0))

    def atoms(self):
        return {a for m in self.t for a, _ in m}

    # ---- arithmetic
    def _lift(self, o):
        if isinstance(o, Num):
            return o
        try:
            return Num.const(o)
        except TypeError:
            return None

    def _arr(self, o):
        return isinstance(o, np.ndarray) and o.ndim > 0

    def _special(self, o):
        return isinstance(o, (float, np.floating)) and not math.isfinite(o)

    def __add__(self, o):
        if self._arr(o):
            return _nd().binop(np.add, self, o)
        if isinstance(o, (list, str)):
            return NotImplemented
        if self._special(o):
            return np.float64(o)
        o = self._lift(o)
        if o is None:
            return NotImplemented
        return padd(self, o)
    __radd__ = __add__

    def __sub__(self, o):
        if self.kind == 'f' and isinstance(o, (tuple, list)):
            # numpy scalars turn sequences into arrays
            o = _nd().as_sa(o)
        if self._arr(o):
            return _nd().binop(np.subtract, self, o)
        if self._special(o):
            return np.float64(-o)
        o = self._lift(o)
        if o is None:
            return NotImplemented
        return padd(self, pscale(o, -1))

    def __rsub__(self, o):
        if self.kind == 'f' and isinstance(o, (tuple, list)):
            # numpy scalars turn sequences into arrays
            o = _nd().as_sa(o)
        if self._arr(o):
            return _nd().binop(np.subtract, o, self)
        if self._special(o):
            return np.float64(o)
        o = self._lift(o)
        if o is None:
            return NotImplemented
        return padd(o, pscale(self, -1))

    def __mul__(self, o):
        if self._arr(o):
            return _nd().binop(np.multiply, self, o)
        if isinstance(o, (list, str, tuple)):
            if self.kind == 'f' and not isinstance(o, str):
                return _nd().binop(np.multiply, self, _nd().as_sa(o))
            return o * self.__index__()
        if self._special(o):
            if o != o:
                return np.float64(o)
            s = sign_fork(self)
            return np.float64(o * s) if s else np.float64('nan')
        o = self._lift(o)
        if o is None:
            return NotImplemented
        return pmul(self, o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if self.kind == 'f' and isinstance(o, (tuple, list)):
            # numpy scalars turn sequences into arrays
            o = _nd().as_sa(o)
        if self._arr(o):
            return _nd().binop(np.divide, self, o)
        if self._special(o):
            return np.float64(o) if o != o else np.float64(0.0)
        o = self._lift(o)
        if o is None:
            return NotImplemented
        return pdiv(self, o)

    def __rtruediv__(self, o):
        if self.kind == 'f' and isinstance(o, (tuple, list)):
            # numpy scalars turn sequences into arrays
            o = _nd().as_sa(o)
        if self._arr(o):
            return _nd().binop(np.divide, o, self)
        if self._special(o):
            return np.float64(o)
        o = self._lift(o)
        if o is None:
            return NotImplemented
        return pdiv(o, self)

    def __floordiv__(self, o):
        if self._arr(o):
            return _nd().binop(np.floor_divide, self, o)
        o = self._lift(o)
        return pfloordiv(self, o)

    def __rfloordiv__(self, o):
        return pfloordiv(self._lift(o), self)

    def __mod__(self, o):
        if self._arr(o):
            return _nd().binop(np.remainder, self, o)
        o = self._lift(o)
        r = self - o * pfloordiv(self, o)
        return r

    def __rmod__(self, o):
        o = self._lift(o)
        return o - self * pfloordiv(o, self)

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        return pscale(self, -1)

    def __pos__(self):
        return self

    def __abs__(self):
        return pabs(self)

    def __pow__(self, n, mod=None):
        if self._arr(n):
            return _nd().binop(np.power, self, n)
        if isinstance(n, Num) and n.is_const():
            n = n.cval()
        if isinstance(n, (int, np.integer)) or (isinstance(n, (float, np.floating, F)) and n == int(n)):
            n = int(n)
            if n < 0:
                return pdiv(Num.const(1), self ** (-n))
            r = Num.const(1)
            if self.kind == 'f':
                r = Num(r.t, 'f')
            for _ in range(n):
                r = pmul(r, self)
            return r
        if isinstance(n, (float, np.floating, F)):
            n2 = n * 2
            if n2 == int(n2):
                r = psqrt(self)
                return r ** int(n2)
        raise Unsupported('pow %r' % (n,))

    def __rpow__(self, o):
        raise Unsupported('rpow')

    # ---- comparison
    def _cmp(self, o, op):
        if self._arr(o):
            return _nd().binop({'lt': np.less, 'le': np.less_equal, 'eq': np.equal,
                                'ne': np.not_equal, 'gt': np.greater, 'ge': np.greater_equal}[op],
                               self, o)
        if o is None or isinstance(o, (str, list, tuple, dict)):
            if op == 'eq':
                return False
            if op == 'ne':
                return True
            return NotImplemented
        if self._special(o):
            if o != o:
                return op == 'ne'
            pos = o > 0
            return {'lt': pos, 'le': pos, 'gt': not pos, 'ge': not pos,
                    'eq': False, 'ne': True}[op]
        o = self._lift(o)
        if o is None:
            return NotImplemented
        return pcmp(self, o, op)

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __gt__(self, o):
        return self._cmp(o, 'gt')

    def __ge__(self, o):
        return self._cmp(o, 'ge')

    def __eq__(self, o):
        return self._cmp(o, 'eq')

    def __ne__(self, o):
        return self._cmp(o, 'ne')

    def __hash__(self):
        if self.is_const():
            return hash(self.cval())
        if self.kind == 'i':
            return hash(self.__index__())
        return hash(self.key)

    def __bool__(self):
        r = pcmp(self, Num.const(0), 'ne')
        return bool(r)

    def __index__(self):
        if self.kind != 'i':
            if self.is_const():
                raise TypeError('only integers can be used as an index')
            raise TypeError('float object cannot be interpreted as an integer')
        return concretize_int(self)

    def __int__(self):
        return int(concretize_int(ptrunc(self)))

    def __float__(self):
        if self.is_const():
            return float(self.cval())
        raise Unsupported('float() of a symbolic value at a native boundary')

    def __round__(self, n=None):
        if n is None:
            return pround(self)
        s = 10 ** n
        return pround(self * s) / s

    def __trunc__(self):
        return ptrunc(self)

    def __floor__(self):
        return pfloor(self)

    def __ceil__(self):
        return -pfloor(-self)

    def is_integer(self):
        return pcmp(self, pfloor(self), 'eq')

    def item(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def copy(self):
        return self

    def conjugate(self):
        return self

    # numpy object-loop hooks
    def sqrt(self):
        return psqrt(self)

    def cos(self):
        return pcos(self)

    def sin(self):
        return psin(self)

    def tan(self):
        return psin(self) / pcos(self)

    def arccos(self):
        return parccos(self)

    def arcsin(self):
        return parcsin(self)

    def arctan(self):
        return parctan2(self, Num.const(1))

    def rint(self):
        return pround(self)

    def astype(self, dt):
        return _nd().cast(self, np.dtype(dt))

    @property
    def dtype(self):
        return np.dtype('i8') if self.kind == 'i' else np.dtype('f8')

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def tolist(self):
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return _nd().array_ufunc(ufunc, method, *inputs, **kw)

    def __array_function__(self, func, types, args, kwargs):
        return _nd().array_function(func, types, args, kwargs)

    # text
    def __format__(self, spec):
        return ctx().tokens.format(self, spec)

    def __repr__(self):
        if CTX is not None and CTX.tokens.active:
            return CTX.tokens.format(self, 'r')
        return 'Num(%s)' % show(self)
    def __str__(self):
        if CTX is not None and CTX.tokens.active:
            return CTX.tokens.format(self, 'r')
        return 'Num(%s)' % show(self)


class NonFinite(TypeError):
    pass


def _nd():
    from . import nd
    return nd


def show(p, n=6):
    c = CTX
    out = []
    for m, k in list(p.t.items())[:n]:
        names = '*'.join((c.atoms[a].name if c else str(a)) + ('' if e == 1 else '^%d' % e) for a, e in m)
        out.append('%s%s%s' % (k, '*' if names else '', names))
    if len(p.t) > n:
        out.append('...%d' % len(p.t))
    return ' + '.join(out) or '0'


def _k(a, b):
    return 'i' if a.kind == 'i' and b.kind == 'i' else 'f'


def padd(a, b):
    if len(a.t) < len(b.t):
        a, b = b, a
    if not b.t:
        kk = _k(a, b)
        return a if a.kind == kk else Num(a.t, kk)
    t = dict(a.t)
    for m, k in b.t.items():
        v = t.get(m)
        if v is None:
            t[m] = k
        else:
            v = v + k
            if v:
                t[m] = v
            else:
                del t[m]
    r = Num(t, _k(a, b))
    r.nn = isnn(a) and isnn(b)
    return r


def isnn(p):
    return p.nn or not p.t or (len(p.t) == 1 and () in p.t and p.t[()] >= 0)


def pscale(a, k):
    k = F(k)
    if not k:
        return Num({}, a.kind)
    r = Num({m: v * k for m, v in a.t.items()},
            a.kind if k.denominator == 1 else 'f')
    r.nn = a.nn and k > 0
    return r


def _reduce_into(out, m, k, atoms):
    """add k*m to out, applying square rewrites."""
    stack = [(m, k)]
    while stack:
        m, k = stack.pop()
        hit = None
        for a, e in m:
            at = atoms[a]
            if at.sq is not None and (e >= 2 or (e < 0 and (at.sign or at.sq.is_const()))):
                hit = (a, e, at)
                break
        if hit is None:
            v = out.get(m)
            if v is None:
                out[m] = k
            else:
                v = v + k
                if v:
                    out[m] = v
                else:
                    del out[m]
            continue
        a, e, at = hit
        rest = tuple(x for x in m if x[0] != a)
        if at.sign:
            if e % 2:
                rest = _mono_mul(rest, ((a, 1),))
            stack.append((rest, k))
            continue
        if e < 0:   # constant square: x^-1 = x / c
            c = at.sq.cval()
            stack.append((_mono_mul(rest, ((a, e + 2),)) if e + 2 else rest, k / c))
            continue
        base = rest if e == 2 else _mono_mul(rest, ((a, e - 2),))
        for m2, k2 in at.sq.t.items():
            stack.append((_mono_mul(base, m2), k * k2))


MAXTERMS = 60000


def pmul(a, b):
    if a.is_const():
        r = pscale(b, a.cval())
        return _rekind(r, _k(a, b))
    if b.is_const():
        r = pscale(a, b.cval())
        return _rekind(r, _k(a, b))
    c = ctx()
    nn = a is b or (a.nn and b.nn) or a.key == b.key
    if len(a.t) * len(b.t) > MAXTERMS:
        # name the bigger factor to stop blow-up
        if len(a.t) >= len(b.t):
            a = c.name_poly(a)
        else:
            b = c.name_poly(b)
    ck = (a.key, b.key)
    r = c.mulcache.get(ck)
    if r is None:
        out = {}
        atoms = c.atoms
        sqs = c.sqatoms
        for m1, k1 in a.t.items():
            for m2, k2 in b.t.items():
                m = _mono_mul(m1, m2)
                k = k1 * k2
                need = False
                for x, e in m:
                    if (e > 1 or e < 0) and x in sqs:
                        need = True
                        break
                if need:
                    _reduce_into(out, m, k, atoms)
                else:
                    v = out.get(m)
                    if v is None:
                        out[m] = k
                    else:
                        v = v + k
                        if v:
                            out[m] = v
                        else:
                            del out[m]
        r = out
        c.mulcache[ck] = r
    r = Num(r, _k(a, b))
    r.nn = nn
    return r


def _rekind(r, k):
    if r.kind == k:
        return r
    q = Num(r.t, k)
    q.nn = r.nn
    return q


def common_sign_factor(p):
    """split p = s * q with s the product of sign atoms common to all terms."""
    c = ctx()
    ms = list(p.t)
    if not ms:
        return (), p
    com = None
    for m in ms:
        s = {a for a, e in m if c.atoms[a].sign}
        com = s if com is None else com & s
        if not com:
            return (), p
    com = tuple(sorted(com))
    q = {}
    for m, k in p.t.items():
        q[tuple(x for x in m if x[0] not in com)] = k
    return com, Num(q, p.kind)


def lead(p):
    m = min(p.t, key=lambda m: (len(m), m))
    return m, p.t[m]


def canon(p):
    """p = coef * q with q primitive canonical (leading coef 1, sign atoms removed
    when common). returns (coef Fraction, signs tuple, q)."""
    com, q = common_sign_factor(p)
    m, k = lead(q)
    return k, com, pscale(q, 1 / k)


def interval(p, depth=0):
    """(lo, hi) floats / None = unbounded, cheap interval evaluation."""
    r = CTX.ivcache.get(p.key)
    if r is None:
        r = _interval(p)
        if (r[0] < -1 or r[1] > 1) and CTX.units:
            u = _unit_bound(p)
            if u is not None:
                r = (max(r[0], u[0]), min(r[1], u[1]))
        CTX.ivcache[p.key] = r
    return r


def _unit_bound(p):
    """bounds of k + (form in unit vectors): a bilinear form u'Mv of two unit
    vectors is bounded by the largest singular value of M, a quadratic form
    u'Mu by the extreme eigenvalues of M."""
    c = CTX
    com, q = common_sign_factor(p)
    if com:
        b = _unit_bound(q)
        if b is None:
            return None
        m = max(abs(b[0]), abs(b[1]))
        return -m, m
    k0 = 0.0
    ent, us = [], set()
    cst = {c.r2.id: math.sqrt(2), c.r3.id: math.sqrt(3)}
    for m, k in p.t.items():
        k = float(k)
        fs = []
        for a, e in m:
            if a in cst:
                k *= cst[a] ** e
            elif a in c.units and e > 0:
                fs += [c.units[a]] * e
            else:
                return None
        if not fs:
            k0 += k
            continue
        if len(fs) != 2:
            return None
        us |= {f[0] for f in fs}
        if len(us) > 2:
            return None
        ent.append((fs[0], fs[1], k))
    if not us:
        return None
    if len(us) == 1:
        n = c.unitdim[next(iter(us))]
        M = np.zeros((n, n))
        for (u, i), (v, j), k in ent:
            M[i, j] += k / 2
            M[j, i] += k / 2
        w = np.linalg.eigvalsh(M)
        lo, hi = float(w[0]) + k0, float(w[-1]) + k0
    else:
        u0 = min(us)
        u1 = max(us)
        M = np.zeros((c.unitdim[u0], c.unitdim[u1]))
        for f, g, k in ent:
            if f[0] == g[0]:
                return None
            if f[0] != u0:
                f, g = g, f
            M[f[1], g[1]] += k
        w = float(np.linalg.norm(M, 2))
        lo, hi = k0 - w, k0 + w
    # snap bounds that are integers up to rounding
    rl, rh = round(lo), round(hi)
    lo = float(rl) if abs(lo - rl) < 1e-12 else lo - 1e-9
    hi = float(rh) if abs(hi - rh) < 1e-12 else hi + 1e-9
    return lo, hi


def _interval(p):
    lo = hi = 0.0
    at = CTX.atoms
    for m, k in p.t.items():
        l, h = 1.0, 1.0
        for a, e in m:
            x = at[a]
            al = -math.inf if x.lo is None else float(x.lo)
            ah = math.inf if x.hi is None else float(x.hi)
            if e < 0:
                if al > 0:
                    al, ah, e = (0.0 if ah == math.inf else 1 / ah), 1 / al, -e
                else:
                    al, ah, e = -math.inf, math.inf, -e
                    if x.lo is not None and x.lo >= 0:
                        al = 0.0
            if e % 2 == 0:
                mx = max(abs(al), abs(ah))
                mn = 0.0 if al <= 0 <= ah else min(abs(al), abs(ah))
                al, ah = mn ** e, mx ** e
            else:
                al, ah = al ** e, ah ** e
            cands = []
            for u in (l, h):
                for v in (al, ah):
                    w = u * v
                    cands.append(0.0 if w != w else w)
            l, h = min(cands), max(cands)
        k = float(k)
        if k < 0:
            l, h = h, l
        if l:
            lo += l * k
        if h:
            hi += h * k
        if lo != lo or hi != hi:
            return -math.inf, math.inf
        if lo == -math.inf and hi == math.inf:
            return lo, hi
    return lo, hi


def pcmp(a, b, op):
    if op == 'gt':
        return pcmp(b, a, 'lt')
    if op == 'ge':
        return pcmp(b, a, 'le')
    if op == 'ne':
        return bnot(pcmp(a, b, 'eq'))
    d = padd(a, pscale(b, -1))
    if d.is_const():
        v = d.cval()
        return np.bool_({'lt': v < 0, 'le': v <= 0, 'eq': v == 0}[op])
    c = ctx()
    return c.compare0(d, op)


def sign_fork(p):
    if bool(p > 0):
        return 1
    if bool(p < 0):
        return -1
    return 0


def concretize_int(p):
    if p.is_const():
        v = p.cval()
        if v.denominator != 1:
            raise TypeError('not an integer')
        return int(v)
    return ctx().concretize(p)


# ---- non polynomial operations ---------------------------------------------
def pdiv(a, b):
    c = ctx()
    if b.is_const():
        v = b.cval()
        if v == 0:
            return _divzero(a)
        return _rekind(pscale(a, 1 / v), 'f')
    if len(b.t) == 1:
        # single monomial
        if not c.known_nonzero(b):
            if bool(pcmp(b, Num({}, 'f'), 'eq')):
                return _divzero(a)
            if not a.t:
                return Num({}, 'f')
        (m, k), = b.t.items()
        inv = Num({tuple((x, -e) for x, e in m): 1 / k}, 'f')
        out = {}
        _reduce_into(out, next(iter(inv.t)), 1 / k, c.atoms)
        r = pmul(a, Num(out, 'f'))
        return Num(r.t, 'f')
    if not c.known_nonzero(b):
        if bool(pcmp(b, Num({}, 'f'), 'eq')):
            return _divzero(a)
    if not a.t:
        return Num({}, 'f')
    # exact quotient by constant multiple
    q = _const_ratio(a, b)
    if q is not None:
        return Num({(): q}, 'f')
    k, com, cb = canon(b)
    at = c.inv_atom(cb)
    m = tuple(sorted([(at.id, 1)] + [(x, 1) for x in com]))
    r = pmul(a, Num({m: 1 / k}, 'f'))
    return Num(r.t, 'f')


def _const_ratio(a, b):
    if len(a.t) != len(b.t):
        return None
    r = None
    for m, k in a.t.items():
        kb = b.t.get(m)
        if kb is None:
            return None
        if r is None:
            r = k / kb
        elif k != r * kb:
            return None
    return r


def _divzero(a):
    if c_inside_guard():
        raise_restart()
    if a.is_const():
        s = (a.cval() > 0) - (a.cval() < 0)
    else:
        s = sign_fork(a)
    return np.float64('nan') if s == 0 else np.float64(s * math.inf)


def c_inside_guard():
    return bool(CTX.guards)


def raise_restart():
    c = ctx()
    c.engine.nomerge.add(c.guards[0][1])
    raise Restart()


def psqrt(p):
    c = ctx()
    if p.is_const():
        v = p.cval()
        if v < 0:
            return np.float64('nan')
        n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if n * n == v.numerator and d * d == v.denominator:
            return Num.const(F(n, d), 'f')
        # c*sqrt(2|3|6)
        for sq, tag in ((2, 'r2'), (3, 'r3'), (6, 'r6')):
            w = v / sq
            n, d = math.isqrt(w.numerator), math.isqrt(w.denominator)
            if n * n == w.numerator and d * d == w.denominator:
                m = {'r2': ((c.r2.id, 1),), 'r3': ((c.r3.id, 1),),
                     'r6': tuple(sorted([(c.r2.id, 1), (c.r3.id, 1)]))}[tag]
                return Num({m: F(n, d)}, 'f')
        at = c.sqrt_atom(Num({(): v}, 'f'))
        return Num({((at.id, 1),): F(1)}, 'f')
    # perfect-square monomial
    if len(p.t) == 1:
        (m, k), = p.t.items()
        if k > 0 and all(e % 2 == 0 for _, e in m):
            r = psqrt(Num({(): k}, 'f'))
            return pmul(r, pabs(Num({tuple((a, e // 2) for a, e in m): F(1)}, 'f')))
    sq = c.square_root_of.get(p.key)
    if sq is not None:
        return sq
    if not c.known_nonneg(p):
        if not c.domain_ok(pcmp(p, Num({}, 'f'), 'lt'), 'sqrt'):
            return np.float64('nan')
    k, com, q = canon(p)
    if com:
        at = c.sqrt_atom(p)
        return Num({((at.id, 1),): F(1)}, 'f')
    if k < 0:
        k, q = -k, pscale(q, -1)
    at = c.sqrt_atom(q)
    r = psqrt(Num({(): k}, 'f'))
    return pmul(r, Num({((at.id, 1),): F(1)}, 'f'))


def pabs(p):
    if p.is_const():
        return Num.const(abs(p.cval()), p.kind)
    c = ctx()
    lo, hi = interval(p)
    com, q = common_sign_factor(p)
    if com:
        return pabs(q)
    if lo >= 0:
        return p
    if hi <= 0:
        return -p
    # factor single monomial
    k, com, q = canon(p)
    at = c.abs_atom(q, p.kind)
    return Num({((at.id, 1),): abs(k)}, p.kind)


def pmax(args, sense=1):
    """n-ary max (sense=1) or min (sense=-1) on Nums."""
    c = ctx()
    if sense < 0:
        r = pmax([-Num.const(a) for a in args])
        return -r if isinstance(r, Num) else -r
    flat = {}
    const = None
    kind = 'i'
    for a in args:
        a = Num.const(a)
        if a.kind == 'f':
            kind = 'f'
        sub = c.max_members(a)
        for s in sub:
            if s.is_const():
                v = s.cval()
                const = v if const is None else max(const, v)
            else:
                flat[s.key] = s
    if const is not None:
        # drop the constant if clearly below something
        drop = False
        for s in flat.values():
            lo, hi = interval(s)
            if lo >= const:
                drop = True
        if not drop:
            s = Num.const(const, kind)
            flat = {k: v for k, v in flat.items() if not interval(v)[1] <= const}
            flat[s.key] = s
    if len(flat) > 1:
        # members that differ by a constant: keep the largest
        grp = {}
        for s in flat.values():
            g = frozenset((m, v) for m, v in s.t.items() if m != ())
            o = grp.get(g)
            if o is None or s.t.get((), 0) > o.t.get((), 0):
                grp[g] = s
        if len(grp) < len(flat):
            flat = {s.key: s for s in grp.values()}
    if len(flat) == 1:
        return next(iter(flat.values()))
    at = c.max_atom(frozenset(flat), list(flat.values()), kind)
    return Num({((at.id, 1),): F(1)}, kind)


def pfloor(p):
    if p.is_const():
        return Num.const(math.floor(p.cval()))
    c = ctx()
    if p.kind == 'i' or c.int_valued(p):
        return Num(p.t, 'i')
    # split off integral part
    ip, fp = {}, {}
    for m, k in p.t.items():
        if k.denominator == 1 and all(c.atoms[a].kind == 'i' and e > 0 for a, e in m):
            ip[m] = k
        else:
            fp[m] = k
    if ip:
        r = pfloor(Num(fp, 'f'))
        return padd(Num(ip, 'i'), r)
    at = c.floor_atom(Num(fp, 'f'))
    return Num({((at.id, 1),): F(1)}, 'i')


def ptrunc(p):
    if p.kind == 'i':
        return p
    if p.is_const():
        return Num.const(math.trunc(p.cval()))
    if ctx().int_valued(p):
        return Num(p.t, 'i')
    lo, hi = interval(p)
    if lo >= 0:
        return pfloor(p)
    if hi <= 0:
        return -pfloor(-p)
    return ite(pcmp(p, Num({}, 'f'), 'ge'), pfloor(p), -pfloor(-p))


def pround(p):
    """round half to even, as Python/numpy."""
    if p.kind == 'i':
        return p
    if p.is_const():
        return Num.const(round(p.cval()))
    c = ctx()
    if c.int_valued(p):
        return Num(p.t, 'i')
    at = c.round_atom(p)
    return Num({((at.id, 1),): F(1)}, 'i')


def pfloordiv(a, b):
    if b.is_const() and b.cval() == 0:
        raise ZeroDivisionError()
    if not b.is_const():
        raise Unsupported('symbolic divisor in //')
    r = pfloor(pdiv(a, b))
    return Num(r.t, _k(a, b))


def pgcd(xs):
    """greatest common divisor of whole numbers: forks over its value"""
    g0, syms = 0, []
    for x in xs:
        x = Num.const(x)
        if x.is_const():
            if x.cval().denominator != 1:
                raise TypeError('gcd of a float')
            g0 = math.gcd(g0, int(x.cval()))
        else:
            if not (x.kind == 'i' or ctx().int_valued(x)):
                raise TypeError('gcd of a float')
            syms.append(x)
    if not syms:
        return Num.const(g0)
    c = ctx()
    if g0:
        cand = [d for d in range(g0, 1, -1) if g0 % d == 0]
    else:
        b = 0
        for x in syms:
            lo, hi = interval(x)
            b = max(b, abs(lo), abs(hi))
        if b > 200:
            raise Unsupported('gcd of large numbers')
        if bool(tobool(band(*[x == 0 for x in syms]))):
            return Num.const(0)
        cand = range(int(b), 1, -1)
    for d in cand:
        z = z3.And([c.z(Num(x.t, 'i')) % d == 0 for x in syms])
        if bool(Bool(z, frozenset(a for x in syms for a in x.atoms()))):
            return Num.const(d)
    return Num.const(1)


# ---- booleans ----------------------------------------------------------------
class Bool:
    __slots__ = ('z', 'deps', 'lit')
    __array_priority__ = 1000

    def __init__(self, z, deps, lit=None):
        self.z = z
        self.deps = deps

    def __bool__(self):
        return ctx().fork(self)

    def __and__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return _nd().binop(np.logical_and, self, o)
        if isinstance(o, Num):
            return Num.const(self) & o
        return band(self, o)
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return _nd().binop(np.logical_or, self, o)
        return bor(self, o)
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return _nd().binop(np.logical_xor, self, o)
        return bnot(beq(self, o))
    __rxor__ = __xor__

    def __invert__(self):
        return bnot(self)

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_, Bool)):
            return beq(self, o)
        if o is None or isinstance(o, str):
            return False
        return Num.const(self) == o

    def __ne__(self, o):
        r = self == o
        return bnot(r)

    def __hash__(self):
        return hash(bool(self))

    def _n(self):
        return Num.const(self)

    def __add__(self, o):
        return self._n() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._n() - o

    def __rsub__(self, o):
        return o - self._n()

    def __mul__(self, o):
        if isinstance(o, (bool, np.bool_, Bool)):
            return band(self, o)
        return self._n() * o
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._n() / o

    def __lt__(self, o):
        return self._n() < o

    def __le__(self, o):
        return self._n() <= o

    def __gt__(self, o):
        return self._n() > o

    def __ge__(self, o):
        return self._n() >= o

    def __neg__(self):
        return -self._n()

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return _nd().array_ufunc(ufunc, method, *inputs, **kw)

    def __array_function__(self, func, types, args, kwargs):
        return _nd().array_function(func, types, args, kwargs)

    def astype(self, dt):
        return _nd().cast(self, np.dtype(dt))

    def item(self):
        return self

    def any(self):
        return self

    def all(self):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    @property
    def dtype(self):
        return np.dtype(bool)

    shape = ()
    ndim = 0
    size = 1

    def __repr__(self):
        return 'Bool(%s)' % self.z

    def __format__(self, spec):
        return format(bool(self), spec)


_E = frozenset()


def isb(x):
    return isinstance(x, (Bool, bool, np.bool_))


def tobool(x):
    """lift any truth value without forking."""
    if isinstance(x, (Bool, bool, np.bool_)):
        return x
    if isinstance(x, Num):
        return x != 0
    if isinstance(x, np.ndarray):
        if x.size == 1:
            return tobool(x.reshape(-1)[0])
    return bool(x)


def bnot(x):
    x = tobool(x)
    if isinstance(x, Bool):
        z = x.z
        if z3.is_not(z):
            return Bool(z.arg(0), x.deps)
        return Bool(z3.Not(z), x.deps)
    return np.bool_(not x)


def band(*xs):
    zs, deps = [], _E
    seen = set()
    for x in xs:
        x = tobool(x)
        if isinstance(x, Bool):
            i = x.z.get_id()
            if i not in seen:
                seen.add(i)
                zs.append(x.z)
                deps = deps | x.deps
        elif not x:
            return np.bool_(False)
    for z in zs:
        if z3.is_not(z) and z.arg(0).get_id() in seen:
            return np.bool_(False)
    if not zs:
        return np.bool_(True)
    if len(zs) == 1:
        return Bool(zs[0], deps)
    return Bool(z3.And(zs), deps)


def bor(*xs):
    zs, deps = [], _E
    seen = set()
    for x in xs:
        x = tobool(x)
        if isinstance(x, Bool):
            i = x.z.get_id()
            if i not in seen:
                seen.add(i)
                zs.append(x.z)
                deps = deps | x.deps
        elif x:
            return np.bool_(True)
    for z in zs:
        if z3.is_not(z) and z.arg(0).get_id() in seen:
            return np.bool_(True)
    if not zs:
        return np.bool_(False)
    if len(zs) == 1:
        return Bool(zs[0], deps)
    return Bool(z3.Or(zs), deps)


def beq(a, b):
    a, b = tobool(a), tobool(b)
    if not isinstance(a, Bool):
        a, b = b, a
    if not isinstance(a, Bool):
        return np.bool_(bool(a) == bool(b))
    if not isinstance(b, Bool):
        return a if b else bnot(a)
    if a.z.eq(b.z):
        return np.bool_(True)
    return Bool(a.z == b.z, a.deps | b.deps)


def implies(a, b):
    return bor(bnot(a), b)


def ite(c, a, b):
    """scalar if-then-else over Num/Bool/python scalars."""
    c = tobool(c)
    if not isinstance(c, Bool):
        return a if c else b
    if a is b:
        return a
    if CTX.engine.prune:
        d = CTX.decide(c)
        if d is not None:
            return a if d else b
    if isb(a) and isb(b):
        if not isinstance(a, Bool) and not isinstance(b, Bool) and bool(a) == bool(b):
            return a
        return bor(band(c, a), band(bnot(c), b))
    fa = isinstance(a, (float, np.floating)) and not math.isfinite(a)
    fb = isinstance(b, (float, np.floating)) and not math.isfinite(b)
    if fa or fb:
        if fa and fb and (a == b or (a != a and b != b)):
            return a
        if CTX.guards:
            raise_restart()
        return a if bool(c) else b
    a, b = Num.const(a), Num.const(b)
    kind = _k(a, b)
    if a.key == b.key:
        return Num(a.t, kind)
    cx = ctx()
    # condition on the sign of a product of sign atoms
    mm = cx.cmp_info.get((c.z.arg(0) if z3.is_not(c.z) else c.z).get_id())
    if mm is not None and len(mm[1].t) == 1:
        (m, k), = mm[1].t.items()
        if m and all(cx.atoms[i].sign and e == 1 for i, e in m):
            # true branch of the positive form: product = -sign(k)
            t, f = (b, a) if z3.is_not(c.z) else (a, b)
            mid, half = pscale(padd(t, f), F(1, 2)), pscale(padd(f, pscale(t, -1)), F(1, 2) * (1 if k > 0 else -1))
            return Num(padd(mid, pmul(Num({m: F(1)}, 'f'), half)).t, kind)
    # +-x  -> sign atom
    s = padd(a, b)
    if not s.t:
        if kind == 'f' or True:
            sg = cx.sign_atom(c)
            neg = z3.is_not(c.z)
            # sign atom of base condition cb: -1 if cb else 1
            r = pmul(Num({((sg.id, 1),): F(1)}, kind), b if not neg else a)
            return Num(r.t, kind)
    # max / min recognition
    mm = cx.cmp_info.get(c.z.get_id())
    if mm is not None:
        op, d = mm       # c is d < 0 / d <= 0
        dab = padd(a, pscale(b, -1))
        r = _const_ratio(dab, d)
        if r is not None:
            # a-b = r*d ; d<0
            if r > 0:    # a-b<0 -> a : min(a,b)
                return pmax([a, b], -1)
            return pmax([a, b], 1)
    elif z3.is_not(c.z):
        return ite(bnot(c), b, a)
    at = cx.ite_atom(c, a, b, kind)
    return Num({((at.id, 1),): F(1)}, kind)


def is_angle(v):
    """a single inverse cosine"""
    if len(v.t) != 1:
        return False
    (m, k), = v.t.items()
    if k <= 0 or len(m) != 1 or m[0][1] != 1:
        return False
    at = CTX.atoms[m[0][0]]
    return at.angle is not None and at.angle.rng == 'acos'


# ---- trigonometry --------------------------------------------------------------
class Angle:
    """trig information on an angle atom.

    den: the atoms (c, s) are cos/sin of value/den
    rng: 'acos' [0,pi], 'atan2' (-pi,pi], 'asin' [-pi/2,pi/2], '2pi' [0,2pi), 'free'
    """
    __slots__ = ('c', 's', 'den', 'rng', 'half')

    def __init__(self, c, s, den, rng):
        self.c, self.s, self.den, self.rng = c, s, den, rng
        self.half = {}


def _trig_consts(fr):
    """cos, sin of fr*pi (Fraction) as Num."""
    c = ctx()
    fr = fr % 2
    table = {}

    def r2(k):
        return Num({((c.r2.id, 1),): F(k)}, 'f')

    def r3(k):
        return Num({((c.r3.id, 1),): F(k)}, 'f')

    def r6(k):
        return Num({tuple(sorted([(c.r2.id, 1), (c.r3.id, 1)])): F(k)}, 'f')
    q = F(1, 4)
    base = {F(0): Num.const(F(1)), F(1, 6): r3(F(1, 2)), F(1, 4): r2(F(1, 2)),
            F(1, 3): Num.const(F(1, 2)), F(1, 2): Num({}, 'f'),
            F(1, 12): r6(q) + r2(q), F(5, 12): r6(q) - r2(q)}

    def cosv(x):
        x = x % 2
        if x > 1:
            x = 2 - x
        if x > F(1, 2):
            r = cosv(1 - x)
            return -r if r is not None else None
        return base.get(x)
    cv, sv = cosv(fr), cosv(fr - F(1, 2))
    if cv is None or sv is None:
        cv = Num.const(F(math.cos(float(fr) * math.pi)))
        sv = Num.const(F(math.sin(float(fr) * math.pi)))
    return cv, sv


def _lin_angle(p):
    """decompose p = sum k_i*angle_i + r*pi ; None if not of that form."""
    c = ctx()
    parts, piq = [], F(0)
    for m, k in p.t.items():
        if len(m) == 1:
            (a, e), = m
            if e == 1 and a == c.pi.id:
                piq += k
                continue
            if e == 1 and c.atoms[a].angle is not None:
                parts.append((c.atoms[a], k))
                continue
        return None
    return parts, piq


def _cs_base(at, k):
    """cos,sin of k*angle(at), k Fraction."""
    c = ctx()
    an = at.angle
    if k < 0:
        cv, sv = _cs_base(at, -k)
        return cv, -sv
    n = k * an.den
    if n.denominator == 1:
        cc, ss = Num.const(F(1)), Num({}, 'f')
        for _ in range(int(n)):
            cc, ss = cc * an.c - ss * an.s, ss * an.c + cc * an.s
        return cc, ss
    if n.denominator == 2:
        c.split_half(at)
        return _cs_base(at, k)
    if n.denominator == 4:
        c.split_half(at)
        c.split_half(at)
        return _cs_base(at, k)
    raise Unsupported('angle fraction %s' % k)


def psubst(p, a, v):
    """replace atom a (positive powers) by v"""
    out = Num({}, p.kind)
    for m, k in p.t.items():
        e = dict(m).get(a, 0)
        if e < 0:
            raise Unsupported('substitution into a denominator')
        t = Num({tuple(x for x in m if x[0] != a): k}, 'f')
        for _ in range(e):
            t = pmul(t, v)
        out = padd(out, t)
    return out


def trig(p):
    """(cos p, sin p)"""
    c = ctx()
    if p.is_const():
        v = p.cval()
        if v == 0:
            return Num.const(F(1)), Num({}, 'f')
        return Num.const(F(math.cos(v))), Num.const(F(math.sin(v)))
    r = c.trigcache.get(p.key)
    if r is not None:
        return r
    la = _lin_angle(p)
    if la is None:
        # branch on an if-then-else inside the angle
        for a in sorted(p.atoms(), reverse=True):
            inf = c.atoms[a].info
            if c.atoms[a].angle is None and isinstance(inf, tuple) and inf[0] == 'ite':
                pa, pb = psubst(p, a, inf[2]), psubst(p, a, inf[3])
                (ca, sa), (cb, sb) = trig(pa), trig(pb)
                r = (ite(inf[1], ca, cb), ite(inf[1], sa, sb))
                c.trigcache[p.key] = r
                return r
        r = c.abstract_trig(p)
    else:
        parts, piq = la
        cc, ss = _trig_consts(piq)
        try:
            for at, k in parts:
                c1, s1 = _cs_base(at, k)
                cc, ss = cc * c1 - ss * s1, ss * c1 + cc * s1
            r = (cc, ss)
        except Unsupported:
            r = c.abstract_trig(p)
    c.trigcache[p.key] = r
    return r


def pcos(p):
    return trig(p)[0]


def psin(p):
    return trig(p)[1]


def _known_angle(cv):
    """exact multiples of pi for constant cos."""
    if not cv.is_const():
        if cv.atoms() <= {ctx().r2.id, ctx().r3.id}:
            for n in range(0, 25):
                tc, _ = _trig_consts(F(n, 24) * 1)
                if tc.key == cv.key:
                    return F(n, 24)
        return None
    tab = {F(1): F(0), F(1, 2): F(1, 3), F(0): F(1, 2), F(-1, 2): F(2, 3), F(-1): F(1)}
    return tab.get(cv.cval())


def _pi_num(fr):
    c = ctx()
    return Num({((c.pi.id, 1),): fr}, 'f') if fr else Num({}, 'f')


def parccos(p):
    c = ctx()
    fr = _known_angle(p)
    if fr is not None:
        return _pi_num(fr)
    if p.is_const():
        v = p.cval()
        if abs(v) > 1:
            return np.float64('nan')
        return Num.const(math.acos(v))
    lo, hi = interval(p)
    if not (lo >= -1 and hi <= 1):
        if not c.domain_ok(bor(pcmp(p, Num.const(F(1)), 'gt'), pcmp(p, Num.const(F(-1)), 'lt')), 'arccos'):
            return np.float64('nan')
    # arccos(cos(kx)) for x in acos range
    at = c.acos_atom(p)
    return at if isinstance(at, Num) else Num({((at.id, 1),): F(1)}, 'f')


def parcsin(p):
    r = parccos(p)
    if isinstance(r, float):
        return r
    return _pi_num(F(1, 2)) - r


def parctan2(y, x):
    c = ctx()
    y, x = Num.const(y), Num.const(x)
    if y.is_const() and x.is_const():
        vy, vx = y.cval(), x.cval()
        if vy == 0:
            return _pi_num(F(0) if vx >= 0 else F(1))
        if vx == 0:
            return _pi_num(F(1, 2) if vy > 0 else F(-1, 2))
        return Num.const(math.atan2(vy, vx))
    at = c.atan2_atom(y, x)
    return at if isinstance(at, Num) else Num({((at.id, 1),): F(1)}, 'f')


# --------------------------------------------------------------------------
class Tokens:
    """symbolic values written to / read from text."""

    def __init__(self, c):
        self.ctx = c
        self.active = False
        self.by = {}
        self.n = 0

    def format(self, num, spec):
        """Return a token of the form  <digits>  that parses back."""
        if num.is_const():
            v = num.cval()
            v = int(v) if num.kind == 'i' else float(v)
            return repr(v) if spec == 'r' else format(v, spec)
        if not self.active:
            return 'sym'
        from .text import format_token
        return format_token(self, num, spec)


# --------------------------------------------------------------------------
class Ctx:
    def __init__(self, engine, prefix=()):
        self.engine = engine
        self.prefix = list(prefix)
        self.decisions = []       # list of (taken, alternatives_feasible)
        self.pc = []              # list of Bool
        self.assumes = []
        self.atoms = []
        self.sqatoms = set()
        self.units, self.unitdim, self.ivcache = {}, [], {}
        self.defs = {}            # atom id -> list of (z3 constraint, deps)
        self.tab = {}             # hash-cons
        self.mulcache = {}
        self.trigcache = {}
        self.square_root_of = {}
        self.cmp_info = {}
        self.cmptab = {}
        self.guards = []
        self.inputs = {}          # name -> descriptor
        self.obligations = []
        self.observations = {}
        self.tokens = Tokens(self)
        self.notes = set()
        self.angles = []
        self.names = {}
        self.factcache = {}
        self.eq_info = {}
        self.zcache = {}
        self.keep = []
        self.incs = None
        self.inc_done = set()
        self.r2 = self._atom('r2c', 'f', F(14142, 10000), F(14143, 10000))
        self.r3 = self._atom('r3c', 'f', F(17320, 10000), F(17321, 10000))
        self.pi = self._atom('pic', 'f', F(31415926535897, 10 ** 13), F(31415926535898, 10 ** 13))
        for a, v in ((self.r2, 2), (self.r3, 3)):
            a.sq = Num({(): F(v)}, 'f')
            self.sqatoms.add(a.id)
            a.nz = True
            self.defs[a.id] = [(z3.And(a.z > 0, a.z * a.z == v), frozenset([a.id]))]
        self.pi.nz = True
        self.defs[self.pi.id] = [(z3.And(self.pi.z > _q(self.pi.lo), self.pi.z < _q(self.pi.hi)),
                                  frozenset([self.pi.id]))]

    # ---- atoms
    def _atom(self, name, kind='f', lo=None, hi=None):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        if n:
            name = '%s#%d' % (name, n)
        a = Atom(self, len(self.atoms), name, 'i' if kind == 'i' else 'r', lo, hi)
        self.atoms.append(a)
        return a

    def num(self, at, kind=None):
        return Num({((at.id, 1),): F(1)}, kind or ('i' if at.kind == 'i' else 'f'))

    def _define(self, at, z, deps):
        self.defs.setdefault(at.id, []).append((z, frozenset(deps)))

    def var(self, name, kind='f', lo=None, hi=None):
        at = self._atom(name, kind, None if lo is None else F(lo), None if hi is None else F(hi))
        if lo is not None:
            self._define(at, at.z >= _q(at.lo), [at.id])
        if hi is not None:
            self._define(at, at.z <= _q(at.hi), [at.id])
        return self.num(at)

    def bvar(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        if n:
            name = '%s#%d' % (name, n)
        at = Atom(self, len(self.atoms), name, 'b')
        at.z = z3.Bool(name)
        self.atoms.append(at)
        return Bool(at.z, frozenset([at.id]))

    def known_nonneg(self, p):
        lo, hi = interval(p)
        if lo >= 0 or p.nn:
            return True
        for m, k in p.t.items():
            if k < 0:
                return False
            for a, e in m:
                if e % 2 and not (self.atoms[a].lo is not None and self.atoms[a].lo >= 0):
                    return False
        return True

    def known_nonzero(self, p):
        lo, hi = interval(p)
        if lo > 0 or hi < 0:
            return True
        if len(p.t) == 1:
            (m, k), = p.t.items()
            return all(self.atoms[a].nz or self.atoms[a].sign for a, e in m)
        return self._factkey(p) in self.factcache

    def _factkey(self, p):
        k, com, q = canon(p)
        if q.is_const():
            return q.key
        return canon(self._strip_pos(q))[2].key

    def int_valued(self, p):
        return all(k.denominator == 1 and all(self.atoms[a].kind == 'i' and e > 0 for a, e in m)
                   for m, k in p.t.items())

    # ---- z3 conversion
    def z(self, p):
        """Num -> z3 arithmetic term."""
        r = self.zcache.get(p.key)
        if r is not None:
            return r
        isint = self.int_valued(p)
        terms = []
        for m, k in p.t.items():
            fs = []
            for a, e in m:
                at = self.atoms[a]
                zz = at.z
                if at.kind == 'i' and not isint:
                    zz = z3.ToReal(zz)
                if e < 0:
                    zz = self._invz(at)
                    e = -e
                fs.extend([zz] * e)
            kk = z3.IntVal(k.numerator) if isint else _q(k)
            if not fs:
                terms.append(kk)
                continue
            prod = fs[0]
            for f in fs[1:]:
                prod = prod * f
            if k != 1:
                prod = kk * prod
            terms.append(prod)
        if not terms:
            r = z3.IntVal(0) if isint else z3.RealVal(0)
        elif len(terms) == 1:
            r = terms[0]
        else:
            r = z3.Sum(terms)
        self.zcache[p.key] = r
        return r

    def zr(self, p):
        r = self.z(p)
        return z3.ToReal(r) if r.is_int() else r

    def _invz(self, at):
        if at.iz is None:
            at.iz = z3.Real('inv_' + at.name)
            zz = z3.ToReal(at.z) if at.kind == 'i' else at.z
            self._define(at, z3.Implies(zz != 0, zz * at.iz == 1), [at.id])
        return at.iz

    def mkbool(self, z, deps):
        return Bool(z, frozenset(deps))

    # ---- comparisons
    def _strip_pos(self, d):
        """divide out positive atoms common to all terms"""
        it = iter(d.t)
        com = dict(next(it))
        for m in it:
            if not com:
                return d
            mm = dict(m)
            com = {a: min(e, mm[a]) for a, e in com.items() if mm.get(a, 0) > 0}
        out = {}
        for a, e in com.items():
            at = self.atoms[a]
            if e > 0 and (at is self.r2 or at is self.r3 or at is self.pi or (at.nz and at.lo is not None and at.lo >= 0)):
                out[a] = e
        if not out:
            return d
        t = {}
        for m, k in d.t.items():
            t[tuple((a, e - out.get(a, 0)) for a, e in m if e != out.get(a, 0))] = k
        return Num(t, d.kind)

    def compare0(self, d, op):
        """d (non-constant) op 0"""
        # clear negative powers of positive atoms
        d = self._clear_pos(d)
        if d.is_const():
            v = d.cval()
            return np.bool_({'lt': v < 0, 'le': v <= 0, 'eq': v == 0}[op])
        if op == 'eq' and len(d.t) == 1:
            (m, k), = d.t.items()
            outs = []
            for a, e in m:
                at = self.atoms[a]
                if e < 0 or at.sign or at.nz:
                    continue
                if isinstance(at.info, tuple) and at.info[0] == 'sqrt':
                    outs.append(self.compare0(at.info[1], 'eq') if not at.info[1].is_const()
                                else np.bool_(at.info[1].cval() == 0))
                elif len(m) > 1:
                    outs.append(self.compare0(Num({((a, 1),): F(1)}, at.kind), 'eq'))
                else:
                    outs = None
                    break
            if outs is not None:
                return bor(*outs) if outs else np.bool_(False)
        lo, hi = interval(d)
        if op == 'lt':
            if hi < 0:
                return np.bool_(True)
            if lo >= 0:
                return np.bool_(False)
        elif op == 'le':
            if hi <= 0:
                return np.bool_(True)
            if lo > 0:
                return np.bool_(False)
        else:
            if lo > 0 or hi < 0:
                return np.bool_(False)
        r = self._ite_cmp(d, op)
        if r is not None:
            return r
        r = self._angle_cmp(d, op)
        if r is not None:
            return r
        # sign atom common factor: s*q < 0
        r = self._sign_cmp(d, op)
        if r is not None:
            return r
        d = self._strip_pos(d)
        m, k = lead(d)
        if op != 'eq' and self.factcache and self._factkey(d) in self.factcache:
            op = 'lt'
            if k < 0:
                return bnot(self.compare0(pscale(d, -1), 'lt'))
        d = pscale(d, 1 / abs(k))
        if op == 'eq' and k < 0:
            d = pscale(d, -1)
        ck = (d.key, op)
        b = self.cmptab.get(ck)
        if b is None:
            # negated partner
            if op in ('lt', 'le'):
                nk = (pscale(d, -1).key, 'le' if op == 'lt' else 'lt')
                nb = self.cmptab.get(nk)
                if nb is not None:
                    return bnot(nb)
            if op == 'eq' and self._has_inv(d):
                d2 = self.clear_denoms(d)
                if d2.is_const():
                    return np.bool_(d2.cval() == 0)
                zz = self.z(d2)
            else:
                d2 = d
                zz = self.z(d)
            zero = z3.IntVal(0) if zz.is_int() else z3.RealVal(0)
            zb = {'lt': zz < zero, 'le': zz <= zero, 'eq': zz == zero}[op]
            b = Bool(zb, frozenset(d2.atoms()))
            self.cmptab[ck] = b
            self.keep.append(b)
            if op == 'eq':
                self.eq_info[zb.get_id()] = d
            if op in ('lt', 'le'):
                self.cmp_info[zb.get_id()] = (op, d)
        return b

    def _ite_cmp(self, d, op):
        """push the comparison through a single ite atom if that decides a branch"""
        its = [a for a in d.atoms() if isinstance(self.atoms[a].info, tuple) and self.atoms[a].info[0] == 'ite']
        if len(its) != 1 or self.atoms[its[0]].angle is not None:
            return None
        at = self.atoms[its[0]]
        k = d.t.get(((at.id, 1),))
        if k is None or sum(1 for m in d.t for x, _ in m if x == at.id) != 1:
            return None
        rest = Num({m: v for m, v in d.t.items() if m != ((at.id, 1),)}, 'f')
        _, c, a, b = at.info
        if len(a.t) + len(b.t) > 60:
            return None
        br = []
        for v in (a, b):
            w = padd(rest, pscale(v, k))
            br.append(w.cval() if w.is_const() else interval(w))
        def const(v):
            lo, hi = v if isinstance(v, tuple) else (v, v)
            if op == 'lt':
                return True if hi < 0 else False if lo >= 0 else None
            if op == 'le':
                return True if hi <= 0 else False if lo > 0 else None
            return False if lo > 0 or hi < 0 else True if lo == hi == 0 else None
        ca, cb = const(br[0]), const(br[1])
        if ca is None and cb is None:
            return None
        if ca is None:
            ca = pcmp(padd(rest, pscale(a, k)), Num.const(0), op)
        if cb is None:
            cb = pcmp(padd(rest, pscale(b, k)), Num.const(0), op)
        return bor(band(c, ca), band(bnot(c), cb))

    def _sign_cmp(self, d, op):
        com, q = common_sign_factor(d)
        for s in com:
            inf = self.cmp_info.get(self.atoms[s].info[1].z.get_id())
            if inf is None:
                continue
            x = inf[1]
            dx = Num({tuple(y for y in m if y[0] != s): k for m, k in d.t.items()}, 'f')
            r = _const_ratio(dx, x)
            if r is None:
                continue
            # d = s * r * x with s*x = |x|
            if op == 'eq':
                return self.compare0(x, 'eq')
            if op == 'lt':
                return np.bool_(False) if r > 0 else bnot(self.compare0(x, 'eq'))
            return np.bool_(True) if r < 0 else self.compare0(x, 'eq')
        if com and op != 'eq' and not q.is_const() and self.known_nonzero(q):
            sq = ite(self.compare0(q, 'lt'), -1, 1)
            p = pmul(Num({tuple((s, 1) for s in com): F(1)}, 'f'), Num.const(sq))
            return np.bool_(p.cval() < 0) if p.is_const() else self.compare0(p, 'lt')
        return None

    def _has_inv(self, d):
        return any(e < 0 or self.atoms[a].inv_of is not None for m in d.t for a, e in m)

    def clear_denoms(self, d):
        """multiply by nonzero denominators (all were forked to be nonzero)."""
        for _ in range(12):
            neg, inv = {}, {}
            for m in d.t:
                for a, e in m:
                    if e < 0:
                        neg[a] = max(neg.get(a, 0), -e)
                    elif self.atoms[a].inv_of is not None:
                        inv[a] = max(inv.get(a, 0), e)
            if not neg and not inv:
                return d
            if neg:
                m = tuple(sorted(neg.items()))
                d = pmul(d, Num({m: F(1)}, 'f'))
                continue
            a, k = max(inv.items())
            p = self.atoms[a].inv_of
            out = Num({}, 'f')
            groups = {}
            for m, c in d.t.items():
                e = dict(m).get(a, 0)
                rest = tuple(x for x in m if x[0] != a)
                groups.setdefault(e, {})[rest] = c
            pw = {0: Num.const(F(1))}
            for i in range(1, k + 1):
                pw[i] = pmul(pw[i - 1], p)
            for e, t in groups.items():
                out = padd(out, pmul(Num(t, 'f'), pw[k - e]))
            d = out
        return d

    def _clear_pos(self, d):
        neg = {}
        for m in d.t:
            for a, e in m:
                if e < 0 and self.atoms[a].lo is not None and self.atoms[a].lo >= 0:
                    neg[a] = max(neg.get(a, 0), -e)
        if neg:
            d = pmul(d, Num({tuple(sorted(neg.items())): F(1)}, 'f'))
        return d

    def _angle_cmp(self, d, op):
        la = _lin_angle(d)
        if la is None or not la[0]:
            return None
        parts, piq = la
        if len(parts) == 1:
            at, k = parts[0]
            t = -piq / k       # compare at with t*pi
            if op == 'eq':
                return self._ang_rel(at, t, 'eq')
            if k > 0:
                return self._ang_rel(at, t, op)
            return self._ang_rel(at, t, {'lt': 'gt', 'le': 'ge'}[op])
        if len(parts) == 2 and piq == 0 and parts[0][1] == -parts[1][1]:
            (a1, k1), (a2, k2) = parts
            if a1.angle.rng == a2.angle.rng and a1.angle.rng in ('acos',):
                c1 = _cs_base(a1, F(1))[0]
                c2 = _cs_base(a2, F(1))[0]
                # k1*(a1-a2) op 0
                if op == 'eq':
                    return pcmp(c1, c2, 'eq')
                x, y = (c1, c2) if k1 > 0 else (c2, c1)
                return pcmp(x, y, 'gt' if op == 'lt' else 'ge')
        return None

    def _ang_rel(self, at, t, op):
        """at op t*pi"""
        an = at.angle
        rng = an.rng
        lohi = {'acos': (F(0), F(1)), 'atan2': (F(-1), F(1)), '2pi': (F(0), F(2)),
                'asin': (F(-1, 2), F(1, 2)), 'half': (F(0), F(1, 2))}.get(rng)
        if lohi is None:
            return None
        lo, hi = lohi
        lo_open = rng == 'atan2'
        hi_open = rng == '2pi'
        if op == 'gt':
            return bnot(tobool(self._ang_rel(at, t, 'le')))
        if op == 'ge':
            return bnot(tobool(self._ang_rel(at, t, 'lt')))
        if op == 'lt':
            if t > hi or (t == hi and hi_open):
                return np.bool_(True)
            if t <= lo:
                return np.bool_(False)
        elif op == 'le':
            if t >= hi:
                return np.bool_(True)
            if t < lo or (t == lo and lo_open):
                return np.bool_(False)
        elif op == 'eq':
            if t < lo or t > hi or (t == lo and lo_open) or (t == hi and hi_open):
                return np.bool_(False)
        co, si = _trig_consts(t)
        if rng in ('acos', 'half'):
            c = _cs_base(at, F(1))[0]
            return pcmp(c, co, {'lt': 'gt', 'le': 'ge', 'eq': 'eq'}[op])
        if rng == '2pi' or an.den == 2:
            h = t / 2
            hc, hs = _trig_consts(h)
            c, s = _cs_base(at, F(1, 2))
            if rng == '2pi':
                return pcmp(c, hc, {'lt': 'gt', 'le': 'ge', 'eq': 'eq'}[op])
            if rng in ('atan2', 'asin'):
                return pcmp(s, hs, op)
        c, s = _cs_base(at, F(1))
        if rng == 'asin':
            return pcmp(s, si, op)
        # atan2 (-pi, pi]
        Z = Num({}, 'f')
        if op == 'eq':
            return band(pcmp(c, co, 'eq'), pcmp(s, si, 'eq'))
        if t == 0:
            if op == 'lt':
                return pcmp(s, Z, 'lt')
            return bor(pcmp(s, Z, 'lt'), band(pcmp(s, Z, 'eq'), pcmp(c, Z, 'gt')))
        if t > 0:
            # a < t : s<0 or (s==0 and c>0) or (s>0 and c>co)
            # (in the upper half c > co is the same as sin(t - a) > 0, which is linear in c and s)
            cc = pcmp(pmul(c, si), pmul(s, co), 'gt' if op == 'lt' else 'ge')
            return bor(pcmp(s, Z, 'lt'), band(pcmp(s, Z, 'ge'), cc))
        cc = pcmp(pmul(c, si), pmul(s, co), 'gt' if op == 'lt' else 'ge')
        return band(pcmp(s, Z, 'lt'), cc)

    # ---- atom constructors
    def inv_atom(self, q):
        k = ('inv', q.key)
        at = self.tab.get(k)
        if at is None:
            lo, hi = interval(q)
            at = self._atom('inv', 'f')
            at.inv_of = q
            at.nz = True
            if lo >= 0:
                at.lo = F(0)
            self.tab[k] = at
            zq = self.zr(q)
            self._define(at, z3.Implies(zq != 0, zq * at.z == 1), {at.id} | q.atoms())
        return at

    def name_poly(self, p):
        k = ('name', p.key)
        at = self.tab.get(k)
        if at is None:
            at = self._atom('nm', 'f')
            self.tab[k] = at
            self._define(at, at.z == self.zr(p), {at.id} | p.atoms())
        return self.num(at, 'f')

    def sqrt_atom(self, q):
        k = ('sqrt', q.key)
        at = self.tab.get(k)
        if at is None:
            lo, hi = interval(q)
            at = self._atom('sqrt', 'f', F(0), F(math.sqrt(hi)).limit_denominator(10 ** 6) + F(1, 10 ** 5)
                            if 0 <= hi < 1e12 else None)
            if lo > 0:
                at.nz = True
            at.sq = q if q.kind == 'f' else Num(q.t, 'f')
            at.info = ('sqrt', at.sq)
            self.sqatoms.add(at.id)
            self.tab[k] = at
            zq = self.zr(q)
            self._define(at, z3.And(at.z >= 0, z3.Implies(zq >= 0, at.z * at.z == zq)),
                         {at.id} | q.atoms())
        return at

    def abs_atom(self, q, kind):
        k = ('abs', q.key)
        at = self.tab.get(k)
        if at is None:
            lo, hi = interval(q)
            m = max(abs(lo), abs(hi))
            isint = self.int_valued(q)
            at = self._atom('abs', 'i' if isint else 'f', F(0), F(m) if m < 1e15 else None)
            at.info = ('abs', q)
            self.tab[k] = at
            zq = self.z(q)
            self._define(at, z3.And(at.z >= 0, z3.Or(at.z == zq, at.z == -zq)), {at.id} | q.atoms())
            at.sq = pmul(q, q) if len(q.t) <= 30 else None
            if at.sq is None or len(at.sq.t) > 40:
                at.sq = None
            else:
                self.sqatoms.add(at.id)
                self.square_root_of[at.sq.key] = self.num(at)
        return at

    def max_members(self, a):
        if len(a.t) == 1:
            (m, k), = a.t.items()
            if len(m) == 1 and m[0][1] == 1:
                info = self.atoms[m[0][0]].info
                if info and info[0] == 'max' and k > 0:
                    return [pscale(x, k) for x in info[1]]
        return [a]

    def max_atom(self, key, members, kind):
        k = ('max', key)
        at = self.tab.get(k)
        if at is None:
            isint = all(self.int_valued(m) for m in members)
            los, his = zip(*[interval(m) for m in members])
            lo, hi = max(los), max(his)
            at = self._atom('max', 'i' if isint else 'f',
                            F(lo) if lo > -1e15 else None, F(hi) if hi < 1e15 else None)
            at.info = ('max', members)
            self.tab[k] = at
            zs = [self.z(m) if isint else self.zr(m) for m in members]
            deps = {at.id}.union(*[m.atoms() for m in members])
            self._define(at, z3.And([at.z >= z for z in zs] + [z3.Or([at.z == z for z in zs])]), deps)
        return at

    def sign_atom(self, c):
        """-1 if c else +1 for the positive form of c."""
        z = c.z.arg(0) if z3.is_not(c.z) else c.z
        k = ('sign', z.get_id())
        at = self.tab.get(k)
        if at is None:
            at = self._atom('sg', 'f', F(-1), F(1))
            at.sign = True
            at.nz = True
            at.sq = Num({(): F(1)}, 'f')
            at.info = ('sign', Bool(z, c.deps))
            self.sqatoms.add(at.id)
            self.tab[k] = at
            self.keep.append(z)
            self._define(at, at.z == z3.If(z, z3.RealVal(-1), z3.RealVal(1)), {at.id} | c.deps)
        return at

    def ite_atom(self, c, a, b, kind):
        k = ('ite', c.z.get_id(), a.key, b.key)
        at = self.tab.get(k)
        if at is None:
            isint = self.int_valued(a) and self.int_valued(b)
            (l1, h1), (l2, h2) = interval(a), interval(b)
            lo, hi = min(l1, l2), max(h1, h2)
            at = self._atom('ite', 'i' if isint else 'f', F(lo) if abs(lo) < 1e15 else None,
                            F(hi) if abs(hi) < 1e15 else None)
            self.tab[k] = at
            self.keep.append(c.z)
            za = self.z(a) if isint else self.zr(a)
            zb = self.z(b) if isint else self.zr(b)
            at.info = ('ite', c, a, b)
            self._define(at, at.z == z3.If(c.z, za, zb), {at.id} | c.deps | a.atoms() | b.atoms())
        return at

    def floor_atom(self, p):
        k = ('floor', p.key)
        at = self.tab.get(k)
        if at is None:
            lo, hi = interval(p)
            at = self._atom('floor', 'i', F(math.floor(lo)) if abs(lo) < 1e15 else None,
                            F(math.floor(hi)) if abs(hi) < 1e15 else None)
            self.tab[k] = at
            zp = self.zr(p)
            r = z3.ToReal(at.z)
            self._define(at, z3.And(r <= zp, zp < r + 1), {at.id} | p.atoms())
        return at

    def round_atom(self, p):
        k = ('round', p.key)
        at = self.tab.get(k)
        if at is None:
            lo, hi = interval(p)
            at = self._atom('round', 'i', F(math.floor(lo)) if abs(lo) < 1e15 else None,
                            F(math.ceil(hi)) if abs(hi) < 1e15 else None)
            self.tab[k] = at
            zp = self.zr(p)
            r = z3.ToReal(at.z)
            h = _q(F(1, 2))
            self._define(at, z3.And(zp - r <= h, r - zp <= h,
                                    z3.Implies(z3.Or(zp - r == h, r - zp == h), at.z % 2 == 0)),
                         {at.id} | p.atoms())
        return at

    def wrap_atom(self, p, bits, signed):
        lo, hi = interval(p)
        mn = -(1 << (bits - 1)) if signed else 0
        mx = mn + (1 << bits) - 1
        if lo >= mn and hi <= mx:
            return p
        k = ('wrap', p.key, bits, signed)
        at = self.tab.get(k)
        if at is None:
            at = self._atom('wrap', 'i', F(mn), F(mx))
            kk = z3.Int('wk_' + at.name)
            self.tab[k] = at
            self._define(at, z3.And(at.z == self.z(p) - kk * (1 << bits), at.z >= mn, at.z <= mx),
                         {at.id} | p.atoms())
        return self.num(at)

    # ---- angles
    def angle_var(self, name, rng='2pi', den=2):
        bounds = {'2pi': (0, F(6283186, 10 ** 6)), 'acos': (0, F(3141593, 10 ** 6)),
                  'atan2': (F(-3141593, 10 ** 6), F(3141593, 10 ** 6)),
                  'asin': (F(-1570797, 10 ** 6), F(1570797, 10 ** 6)),
                  'half': (0, F(1570797, 10 ** 6)), 'free': (None, None)}[rng]
        at = self._atom(name, 'f', *[None if b is None else F(b) for b in bounds])
        if bounds[0] is not None:
            self._define(at, z3.And(at.z >= _q(F(bounds[0])), at.z <= _q(F(bounds[1]))), [at.id])
        self._mk_cs(at, rng, den)
        self.angles.append(at)
        return self.num(at)

    def _mk_cs(self, at, rng, den):
        """create cos/sin atoms of at/den with range constraints."""
        cc = self._atom('c_%s_%d' % (at.name, den), 'f', F(-1), F(1))
        ss = self._atom('s_%s_%d' % (at.name, den), 'f', F(-1), F(1))
        ss.sq = Num({(): F(1), ((cc.id, 2),): F(-1)}, 'f')
        self.sqatoms.add(ss.id)
        cons = [cc.z * cc.z + ss.z * ss.z == 1]
        wid = {'2pi': (F(0), F(2)), 'acos': (F(0), F(1)), 'atan2': (F(-1), F(1)),
               'asin': (F(-1, 2), F(1, 2)), 'half': (F(0), F(1, 2)), 'free': None}[rng]
        if wid is not None:
            lo, hi = wid[0] / den, wid[1] / den
            if lo >= 0 and hi <= 1:
                ss.lo = F(0)
                cons.append(ss.z >= 0)
                if rng == '2pi' and hi == 1:
                    cons.append(cc.z > -1)
            if lo >= F(-1, 2) and hi <= F(1, 2):
                cc.lo = F(0)
                cons.append(cc.z >= 0)
                if rng == 'atan2' and lo == F(-1, 2):
                    cons.append(ss.z > -1)
            if 0 < hi < F(1, 2):
                v = F(math.cos(hi * math.pi)) - F(1, 10 ** 9)
                cons.append(cc.z >= _q(v))
                cc.lo = v
        self._define(cc, z3.And(cons), [cc.id, ss.id])
        self.defs.setdefault(ss.id, []).append((z3.BoolVal(True), frozenset([cc.id])))
        self.defs.setdefault(at.id, []).append((z3.BoolVal(True), frozenset([cc.id, ss.id])))
        at.angle = Angle(self.num(cc), self.num(ss), den, rng)

    def split_half(self, at):
        """introduce half-angle atoms for an angle whose cos/sin are known."""
        an = at.angle
        oc, os_ = an.c, an.s
        den = an.den * 2
        self._mk_cs(at, an.rng, den)
        n = at.angle
        cc, ss = n.c, n.s
        ci = next(iter(cc.atoms()))
        si = next(iter(ss.atoms()))
        lhs_c = cc * cc * 2 - 1
        lhs_s = cc * ss * 2
        self._define(self.atoms[ci], z3.And(self.zr(lhs_c) == self.zr(oc), self.zr(lhs_s) == self.zr(os_)),
                     {ci, si} | oc.atoms() | os_.atoms())

    def acos_atom(self, p):
        k = ('acos', p.key)
        at = self.tab.get(k)
        if at is None:
            at = self._atom('acos', 'f', F(0), F(3141593, 10 ** 6))
            self._define(at, z3.And(at.z >= 0, at.z <= _q(at.hi)), [at.id])
            lo, hi = interval(p)
            q2 = Num.const(F(1)) - p * p
            s = self.tab.get(('sqrt', q2.key))
            if s is None:
                s = self._atom('s_' + at.name, 'f', F(0), F(1))
                s.sq = q2
                s.info = ('sqrt', q2)
                self.sqatoms.add(s.id)
                if not q2.is_const():
                    kq, com, qq = canon(q2)
                    if not com and kq == 1:
                        self.tab[('sqrt', q2.key)] = s
            zp = self.zr(p)
            self._define(s, z3.And(s.z >= 0, s.z <= 1, s.z * s.z + zp * zp == 1), {s.id} | p.atoms())
            self.defs.setdefault(at.id, []).append((z3.BoolVal(True), frozenset([s.id]) | p.atoms()))
            # link sign of value
            self._define(at, z3.And(z3.Implies(zp > 0, at.z < _q(F(1570797, 10**6))),
                                    z3.Implies(zp < 0, at.z > _q(F(1570796, 10**6))),
                                    (at.z == 0) == (zp == 1)), {at.id, s.id} | p.atoms())
            rng = 'half' if lo >= 0 else 'acos'
            if rng == 'half':
                at.hi = F(1570797, 10 ** 6)
            at.angle = Angle(p, self.num(s), 1, rng)
            self.tab[k] = at
        return at

    def atan2_atom(self, y, x):
        # normalise by common positive factor is not attempted; hash on pair
        k = ('atan2', y.key, x.key)
        at = self.tab.get(k)
        if at is None:
            r2 = x * x + y * y
            if not r2.t:
                return Num({}, 'f')
            rho = psqrt(r2) if not r2.is_const() else psqrt(r2)
            if not rho.is_const() and not self.known_nonzero(rho):
                if self.guards:
                    raise_restart()
                zero = band(pcmp(x, Num({}, 'f'), 'eq'), pcmp(y, Num({}, 'f'), 'eq'))
                if bool(zero):
                    return Num({}, 'f')
                for a in rho.atoms():
                    if len(rho.t) == 1:
                        self.atoms[a].nz = True
            if rho.is_const() and rho.cval() == 1:
                c, s = x, y
            else:
                c, s = x / rho, y / rho
            rel = self._angle_like(c, s)
            if rel is not None and rel[1:] == (1, 0) and rel[0].angle.rng in ('atan2', 'acos', 'asin', 'half'):
                return self.num(rel[0])
            at = self._atom('atan2', 'f', F(-3141593, 10 ** 6), F(3141593, 10 ** 6))
            zy, zx = self.zr(y), self.zr(x)
            self._define(at, z3.And(at.z >= _q(at.lo), at.z <= _q(at.hi), (at.z < 0) == (zy < 0),
                                    (at.z == 0) == z3.And(zy == 0, zx >= 0)),
                         {at.id} | y.atoms() | x.atoms())
            at.angle = Angle(c, s, 1, 'atan2')
            if rel is not None:
                # a known angle up to sign, quarter turns and whole turns
                th, sg, q = rel
                vals = [_pi_num(F(q, 2) + 2 * n) + self.num(th) * sg for n in (-2, -1, 0, 1, 2)]
                ids = set().union(*[v.atoms() for v in vals])
                self.defs.setdefault(at.id, []).append((z3.Or([at.z == self.zr(v) for v in vals]), frozenset(ids)))
            self.tab[k] = at
        return at

    def _angle_like(self, c, s):
        """(atom, sign, quarter turns) if c, s are the cosine and sine of sign * atom + quarter turns * pi / 2"""
        for a in self.angles:
            if a.angle is None or a.angle.den > 2:
                continue
            x = self.num(a)
            ca, sa = pcos(x), psin(x)
            for sg in (1, -1):
                u, v = ca, sa * sg
                for q in range(4):
                    if u.key == c.key and v.key == s.key:
                        return a, sg, q
                    u, v = -v, u
        return None

    def abstract_trig(self, p):
        k = ('trig', p.key)
        r = self.tab.get(k)
        if r is None:
            cc = self._atom('ac', 'f', F(-1), F(1))
            ss = self._atom('as', 'f', F(-1), F(1))
            ss.sq = Num({(): F(1), ((cc.id, 2),): F(-1)}, 'f')
            self.sqatoms.add(ss.id)
            self._define(cc, cc.z * cc.z + ss.z * ss.z == 1, [cc.id, ss.id])
            self.defs.setdefault(ss.id, []).append((z3.BoolVal(True), frozenset([cc.id])))
            self.notes.add('abstract trig')
            r = (self.num(cc), self.num(ss))
            self.tab[k] = r
        return r

    # ---- facts
    def assume(self, b):
        """harness-level assumption."""
        b = tobool(b)
        if isinstance(b, Bool):
            self.assumes.append(b)
            self.pc.append(b)
            self._learn(b)
        elif not b:
            raise PathEnd()

    def constraints(self, deps, extra=()):
        """definitional constraints in the cone of deps."""
        out, seen = [], set()
        todo = list(deps)
        sd = set()
        while todo:
            a = todo.pop()
            if a in seen:
                continue
            seen.add(a)
            for (z, dd) in self.defs.get(a, ()):
                if z.get_id() not in sd:
                    sd.add(z.get_id())
                    if not z3.is_true(z):
                        out.append(z)
                for d in dd:
                    if d not in seen:
                        todo.append(d)
        return out

    # ---- forking
    def fork(self, b):
        """decide a symbolic branch condition."""
        if self.guards:
            raise_restart()
        i = len(self.decisions)
        if i < len(self.prefix):
            want = self.prefix[i]
            self.decisions.append((want, None))
            self._take(b, want)
            return want
        if len(self.decisions) > self.engine.max_depth:
            raise BudgetExceeded('max fork depth')
        t = self.feasible(b)
        f = True if not t else self.feasible(bnot(b))
        if t and f:
            self.decisions.append((True, True))
            self._take(b, True)
            return True
        if t:
            self.decisions.append((True, False))
            self._take(b, True, forced=True)
            return True
        self.decisions.append((False, False))
        self._take(b, False, forced=True)
        return False

    def _take(self, b, v, forced=False):
        bb = b if v else bnot(b)
        self.pc.append(bb)
        self._learn(bb)

    def _learn(self, b):
        """record nonzero facts"""
        neg = z3.is_not(b.z)
        base = b.z.arg(0) if neg else b.z
        p = None
        inf = self.cmp_info.get(base.get_id())
        if inf is not None:
            if (inf[0] == 'lt') != neg:
                p = inf[1]
        elif neg and z3.is_eq(base):
            p = self.eq_info.get(base.get_id())
        if p is None or p.is_const():
            return
        self.factcache[self._factkey(p)] = True
        if len(p.t) == 1:
            (m, k), = p.t.items()
            for a, e in m:
                self.atoms[a].nz = True

    def feasible(self, b):
        if not isinstance(b, Bool):
            return bool(b)
        r = self.engine.inc_check(self, b)
        return r != 'unsat'

    def decide(self, b):
        """True/False when the path condition settles b (cheap check), else None"""
        if not isinstance(b, Bool):
            return bool(b)
        if not self.pc:
            return None
        for v, bb in ((False, b), (True, bnot(b))):
            if self.engine.lin_unsat(self, bb):
                return v
        return None

    def entailed(self, b):
        return not self.feasible(bnot(b))

    def domain_ok(self, bad, what):
        """decide whether argument can leave the domain of a function. Returns True
        when in-domain on this path."""
        bad = tobool(bad)
        if not isinstance(bad, Bool):
            return not bad
        if self.guards:
            # conditional definitional constraints keep this sound
            return True
        r = self.engine.inc_check(self, bad)
        if r == 'unsat':
            return True
        if r == 'unknown':
            self.notes.add('domain of %s assumed (solver undecided)' % what)
            return True
        return not self.fork(bad)

    def concretize(self, p):
        """enumerate feasible integer values by forking."""
        if self.guards:
            raise_restart()
        zc = ('conc', p.key)
        v = self.tab.get(zc)
        if v is not None:
            return v
        lo, hi = interval(p)
        if lo > -1e6 and hi < 1e6 and hi - lo <= 64:
            cands = range(math.ceil(lo), math.floor(hi) + 1)
            for v in cands:
                b = pcmp(p, Num.const(v), 'eq')
                if not isinstance(b, Bool):
                    if b:
                        self.tab[zc] = v
                        return v
                    continue
                if self.fork(b):
                    self.tab[zc] = v
                    return v
            raise PathEnd()
        raise Unsupported('unbounded symbolic integer used as a concrete value')


def _q(f):
    f = F(f)
    return z3.RealVal('%d/%d' % (f.numerator, f.denominator)) if f.denominator != 1 else z3.RealVal(f.numerator)
