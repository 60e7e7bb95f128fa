"""The harness interface, in a symbolic and a concrete implementation.

A harness is a function h(A, **case) written once.  Symbolically the inputs are
solver variables and every A.eq / A.true is a proof obligation; concretely the
inputs come from a JSON file and the assertions are evaluated on the real code."""
import importlib
import math

import numpy as real_np


class Mods:
    """lazily imported defdap modules"""

    def __init__(self, wrap=None):
        self.__dict__['_w'] = wrap

    def __getattr__(self, n):
        return importlib.import_module('defdap.' + n)


class Violation(Exception):
    pass


class Common:
    sym = False

    def eqs(self, label, a, b, tol=1e-6):
        la, lb = self.flat(a), self.flat(b)
        if len(la) != len(lb):
            self.fail(label + ': size %d != %d' % (len(la), len(lb)))
            return
        for i, (x, y) in enumerate(zip(la, lb)):
            self.eq('%s[%d]' % (label, i) if len(la) > 1 else label, x, y, tol)

    def flat(self, a):
        if isinstance(a, (list, tuple)):
            out = []
            for x in a:
                out += self.flat(x)
            return out
        if isinstance(a, real_np.ndarray):
            if hasattr(a, '_flat'):
                return a._flat()
            return list(a.reshape(-1))
        if type(a).__name__ == 'Quat':
            return self.flat(a.quat_coef)
        if type(a).__name__ == 'Masked':
            return self.flat(a.materialise())
        return [a]

    def reals(self, name, n, lo=None, hi=None):
        return [self.real('%s_%d' % (name, i), lo, hi) for i in range(n)]

    def sum(self, xs):
        r = 0
        for x in xs:
            r = r + x
        return r

    def dotv(self, a, b):
        return self.sum([x * y for x, y in zip(self.flat(a), self.flat(b))])

    def neq(self, a, b):
        return self.not_(self.same(a, b))

    def patch(self, module, name, value):
        """replace a collaborator (plotting, file system) of the code under test; every job runs in its own process"""
        setattr(module, name, value)


class SymA(Common):
    sym = True

    def __init__(self, ctx):
        from . import symnp, core, nd
        self.c = ctx
        self.D = Mods()
        self.np = symnp.symnp
        self.core = core
        self.nd = nd
        self.tmp = None

    # inputs ---------------------------------------------------------------
    def _reg(self, name, kind, nums, default, **kw):
        atoms = set()
        zs, zd = [], []
        for n in nums:
            a = next(iter(n.atoms()))
            atoms.add(a)
            zs.append(self.c.atoms[a].z)
        for z, d in zip(zs, default if isinstance(default, list) else [default] * len(zs)):
            zd.append(d)
        self.c.inputs[name] = dict(kind=kind, atoms=atoms, zs=zs, default=default, zdefault=zd, **kw)

    def real(self, name, lo=None, hi=None, nz=False):
        v = self.c.var(name, 'f', lo, hi)
        d = 0.5
        if lo is not None or hi is not None:
            l = float(lo) if lo is not None else float(hi) - 2
            h = float(hi) if hi is not None else l + 2
            d = (l + h) / 2
        self._reg(name, 'real', [v], d, lo=lo, hi=hi)
        if nz:
            self.assume(v != 0)
            for a in v.atoms():
                self.c.atoms[a].nz = True
        return v

    def int(self, name, lo=None, hi=None):
        v = self.c.var(name, 'i', lo, hi)
        self._reg(name, 'int', [v], int(lo) if lo is not None else 0, lo=lo, hi=hi)
        return v

    def bool(self, name):
        b = self.c.bvar(name)
        self.c.inputs[name] = dict(kind='bool', atoms=set(b.deps), zs=[b.z], default=False, zdefault=[False])
        return b

    def unit(self, name, n=3, pos=False):
        c = self.c
        vs = [c.var('%s%d' % (name, i), 'f', -1, 1) for i in range(n)]
        last = c.atoms[next(iter(vs[-1].atoms()))]
        one = self.core.Num.const(self.core.F(1))
        sq = one
        for v in vs[:-1]:
            sq = sq - v * v
        last.sq = sq
        c.sqatoms.add(last.id)
        z = self.core.z3.Sum([c.atoms[next(iter(v.atoms()))].z * c.atoms[next(iter(v.atoms()))].z for v in vs]) == 1
        ids = [next(iter(v.atoms())) for v in vs]
        uid = len(c.unitdim)
        c.unitdim.append(n)
        for j, i in enumerate(ids):
            c.units[i] = (uid, j)
        for i in ids:
            c.defs.setdefault(i, []).append((z, frozenset(ids)))
        self._reg(name, 'unit', vs, [1.0] + [0.0] * (n - 1), pos=pos)
        if pos:
            a = c.atoms[ids[0]]
            a.lo = self.core.F(0)
            c._define(a, a.z >= 0, [a.id])
        return vs

    def angle(self, name, rng='2pi', den=2):
        v = self.c.angle_var(name, rng, den)
        at = self.c.atoms[next(iter(v.atoms()))]
        cs = [at.angle.c, at.angle.s]
        atoms = {at.id} | cs[0].atoms() | cs[1].atoms()
        zs = [self.c.atoms[next(iter(x.atoms()))].z for x in cs]
        default = {'2pi': 0.0, 'acos': 0.0, 'atan2': 0.0, 'asin': 0.0, 'half': 0.0, 'free': 0.0}[rng]
        self.c.inputs[name] = dict(kind='angle', atoms=atoms, zs=zs, default=default, zdefault=[1, 0], rng=rng, den=den)
        return v

    # logic
    def assume(self, b):
        self.c.assume(b)

    def and_(self, *a):
        return self.core.band(*a)

    def or_(self, *a):
        return self.core.bor(*a)

    def not_(self, a):
        return self.core.bnot(a)

    def implies(self, a, b):
        return self.core.implies(a, b)

    def ite(self, c, a, b):
        return self.core.ite(c, a, b)

    def same(self, a, b):
        """truth value of a == b"""
        if self.core.isb(a) and self.core.isb(b):
            return self.core.beq(a, b)
        return self.core.tobool(a == b)

    def close(self, a, b, tol=1e-6):
        return self.same(a, b)

    def abs(self, a):
        return abs(self.core.Num.const(a))

    def max(self, xs):
        return self.core.pmax(list(xs))

    def min(self, xs):
        return self.core.pmax(list(xs), -1)

    def sqrt(self, x):
        return self.core.psqrt(self.core.Num.const(x))

    def cos(self, x):
        return self.core.pcos(self.core.Num.const(x))

    def sin(self, x):
        return self.core.psin(self.core.Num.const(x))

    def acos(self, x):
        return self.core.parccos(self.core.Num.const(x))

    def floor(self, x):
        return self.core.pfloor(self.core.Num.const(x))

    def rint(self, x):
        return self.core.pround(self.core.Num.const(x))

    def num(self, x):
        return self.core.Num.const(x)

    @property
    def pi(self):
        return self.c.num(self.c.pi)

    def arr(self, x, dtype=None):
        return self.np.array(x, dtype=dtype) if dtype else self.np.array(x)

    def toint(self, b):
        return self.core.Num.const(b)

    # properties
    def _val(self, x):
        if isinstance(x, real_np.ndarray) and x.size == 1:
            return x.reshape(-1)[0]
        return x

    def eq(self, label, a, b, tol=1e-6):
        core = self.core
        a, b = self._val(a), self._val(b)
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            self.c.obligations.append((label, a == b, [], len(self.c.pc)))
            return
        if core.isb(a) and core.isb(b):
            p = core.beq(a, b)
            self.c.obligations.append((label, p, [], len(self.c.pc)))
            return
        na = isinstance(a, (float, real_np.floating)) and not math.isfinite(a)
        nb = isinstance(b, (float, real_np.floating)) and not math.isfinite(b)
        if na or nb:
            ok = na and nb and (a == b or (a != a and b != b))
            self.c.obligations.append((label, ok, [], len(self.c.pc)))
            return
        a, b = core.Num.const(a), core.Num.const(b)
        d = a - b
        if d.is_const():
            ok = abs(float(d.cval())) <= tol
            if ok and not d.t and not a.is_const():
                # identical normal forms: let the solver confirm
                ok = core.Bool(self.c.zr(a) == self.c.zr(b), frozenset(a.atoms() | b.atoms()))
            self.c.obligations.append((label, ok, [], len(self.c.pc)))
            return
        dc = self.c.clear_denoms(d)
        if not dc.t:
            self.c.obligations.append((label, True, [], len(self.c.pc)))
            return
        cst = {self.c.r2.id: math.sqrt(2), self.c.r3.id: math.sqrt(3), self.c.pi.id: math.pi}
        grp = {}
        for mono, k in dc.t.items():
            v, rest = float(k), []
            for at, e in mono:
                if at in cst:
                    v *= cst[at] ** e
                else:
                    rest.append((at, e))
            grp[tuple(rest)] = grp.get(tuple(rest), 0.0) + v
        fl = list(grp.values())
        # residual float coefficients below the tolerance are rounding
        if all(abs(float(k)) < 1e-12 for k in fl):
            self.c.obligations.append((label, True, [], len(self.c.pc)))
            self.c.notes.add('coefficients below 1e-12 treated as rounding')
            return
        p = core.pcmp(a, b, 'eq')
        margins = []
        for m in (0.05, 1e-3):
            mm = core.Num.const(m)
            margins.append(core.bor(core.pcmp(d, mm, 'gt'), core.pcmp(d, -mm, 'lt')))
        self.c.obligations.append((label, p, margins, len(self.c.pc)))

    def le(self, label, a, b, tol=1e-9):
        core = self.core
        a, b = self._val(a), self._val(b)
        a, b = core.Num.const(a), core.Num.const(b)
        p = core.pcmp(a, b, 'le')
        self.c.obligations.append((label, p, [core.pcmp(a, b + core.Num.const(0.01), 'gt')], len(self.c.pc)))

    def true(self, label, cond, margin=None):
        cond = self.core.tobool(cond)
        self.c.obligations.append((label, cond, [margin] if margin is not None else [], len(self.c.pc)))

    def fail(self, label):
        self.c.obligations.append((label, False, [], len(self.c.pc)))

    def observe(self, name, v):
        self.c.observations[name] = v

    def native(self, f):
        return f()

    def tokens(self, on=True):
        self.c.tokens.active = on


class ConcA(Common):
    def __init__(self, inputs):
        self.inputs = inputs
        self.D = Mods()
        self.np = real_np
        self.violated = []
        self.observations = {}
        self.bad_assume = False
        self.checked = 0

    def real(self, name, lo=None, hi=None, nz=False):
        return float(self.inputs[name])

    def int(self, name, lo=None, hi=None):
        return int(self.inputs[name])

    def bool(self, name):
        return bool(self.inputs[name])

    def unit(self, name, n=3, pos=False):
        return [float(x) for x in self.inputs[name]]

    def angle(self, name, rng='2pi', den=2):
        return float(self.inputs[name])

    def assume(self, b):
        if not bool(b):
            self.bad_assume = True

    def and_(self, *a):
        return all(bool(x) for x in a)

    def or_(self, *a):
        return any(bool(x) for x in a)

    def not_(self, a):
        return not a

    def implies(self, a, b):
        return (not a) or bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def same(self, a, b):
        return bool(a == b)

    def close(self, a, b, tol=1e-6):
        return abs(float(a) - float(b)) <= tol * max(1.0, abs(float(b)))

    def abs(self, a):
        return abs(a)

    def max(self, xs):
        return max(xs)

    def min(self, xs):
        return min(xs)

    def sqrt(self, x):
        return math.sqrt(max(0.0, x)) if x > -1e-9 else float('nan')

    def cos(self, x):
        return math.cos(x)

    def sin(self, x):
        return math.sin(x)

    def acos(self, x):
        return math.acos(min(1.0, max(-1.0, x)))

    def floor(self, x):
        return math.floor(x)

    def rint(self, x):
        return int(round(x))

    def num(self, x):
        return x

    @property
    def pi(self):
        return math.pi

    def arr(self, x, dtype=None):
        return real_np.array(x, dtype=dtype) if dtype else real_np.array(x)

    def toint(self, b):
        return int(b)

    def _val(self, x):
        if isinstance(x, real_np.ndarray) and x.size == 1:
            return x.reshape(-1)[0]
        return x

    def eq(self, label, a, b, tol=1e-6):
        self.checked += 1
        a, b = self._val(a), self._val(b)
        if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
            ok = a == b
        elif isinstance(a, (bool, real_np.bool_)) and isinstance(b, (bool, real_np.bool_)):
            ok = bool(a) == bool(b)
        else:
            a, b = float(a), float(b)
            if a != a or b != b:
                ok = a != a and b != b
            elif math.isinf(a) or math.isinf(b):
                ok = a == b
            else:
                ok = abs(a - b) <= tol * max(1.0, abs(b))
        if not ok:
            self.violated.append('%s: %r != %r' % (label, a, b))

    def le(self, label, a, b, tol=1e-9):
        self.checked += 1
        if not float(self._val(a)) <= float(self._val(b)) + max(tol, 1e-9):
            self.violated.append('%s: %r > %r' % (label, a, b))

    def true(self, label, cond, margin=None):
        self.checked += 1
        if not bool(cond):
            self.violated.append(label)

    def fail(self, label):
        self.checked += 1
        self.violated.append(label)

    def observe(self, name, v):
        self.observations[name] = [x.item() if isinstance(x, real_np.generic) else x for x in self.flat(v)]

    def native(self, f):
        return f()

    def tokens(self, on=True):
        pass
