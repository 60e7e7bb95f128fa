"""Path exploration, obligations and solver portfolio."""
import json
import math
import os
import random
import time
import traceback
from fractions import Fraction as F

import numpy as np

from . import core, nd
from .core import Num, Bool, Ctx, Restart, PathEnd, BudgetExceeded, Unsupported, band, bor, bnot, tobool, z3
from .nd import SA, as_sa


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.feas = 0
        self.paths = 0
        self.oblig = 0
        self.trivial = 0
        self.sat = self.unsat = self.unknown = 0


class Engine:
    def __init__(self, seed=1, max_paths=4000, time_limit=300, q_timeout=20, max_depth=4000, prune=False, cheap=False):
        self.prune = prune
        self.cheap = cheap   # nonlinear feasibility decided by linear reasoning only (unknown = feasible)
        self.nomerge = set()
        self.seed = seed
        self.max_paths = max_paths
        self.t0 = time.time()
        self.t_end = time.time() + time_limit
        self.q_timeout = q_timeout
        self.max_depth = max_depth
        self.stats = Stats()
        self.violations = []
        self.unknowns = []
        self.witness = None
        self.witnesses = []
        self.notes = set()
        self.labels = {}
        self.feas_cache = {}

    # ---- low level solving
    def _check(self, cons, timeout_ms, strategy='default'):
        t0 = time.time()
        self.stats.queries += 1
        try:
            if strategy == 'default':
                s = z3.Solver()
            elif strategy == 'lin':
                s = z3.SimpleSolver()
                s.set('arith.nl', False)
            elif strategy == 'nlsat':
                s = z3.SolverFor('QF_NRA')
            else:
                s = z3.Tactic(strategy).solver()
            s.set('timeout', int(timeout_ms))
            if strategy == 'default':
                s.set('random_seed', self.seed)
            s.add(cons)
            r = s.check()
            if strategy == 'lin' and r == z3.sat:
                r = z3.unknown
            m = s.model() if r == z3.sat else None
        except z3.Z3Exception:
            r, m = z3.unknown, None
        self.stats.solver_s += time.time() - t0
        return str(r), m

    def slice(self, c, deps, pcs):
        """path conditions connected (through atoms) to deps"""
        def closure(ds):
            seen, todo = set(), list(ds)
            while todo:
                a = todo.pop()
                if a in seen:
                    continue
                seen.add(a)
                for z, dd in c.defs.get(a, ()):
                    todo.extend(d for d in dd if d not in seen)
            return seen
        consts = {c.r2.id, c.r3.id, c.pi.id}
        cl = closure(deps) - consts
        rest = [(b, closure(b.deps) - consts) for b in pcs]
        used = []
        changed = True
        while changed:
            changed = False
            nr = []
            for b, bd in rest:
                if bd & cl:
                    used.append(b)
                    cl |= bd
                    changed = True
                else:
                    nr.append((b, bd))
            rest = nr
        return used, [b for b, _ in rest], cl

    def inc_check(self, c, b):
        """feasibility of pc and b"""
        used, rest, cl = self.slice(c, b.deps, c.pc)
        key = (b.z.get_id(), frozenset(u.z.get_id() for u in used))
        r = c.tab.get(('feas', key))
        if r is not None:
            return r
        deps = set(b.deps).union(*[u.deps for u in used]) if used else set(b.deps)
        cons = [b.z] + [u.z for u in used] + c.constraints(deps)
        self.stats.feas += 1
        if time.time() > self.t_end:
            raise BudgetExceeded('time')
        lin = all(not _nonlinear(x) for x in cons)
        r = 'unknown'
        if not lin:
            r, _ = self._check(cons, 100 if self.cheap else 300, 'lin')
        if r == 'unknown' and (lin or not self.cheap):
            r, _ = self._check(cons, 2000 if lin else 500)
        if r == 'unknown' and not lin and not self.cheap:
            r, _ = self._check(cons, 700, 'nlsat')
        c.tab[('feas', key)] = r
        c.keep.append(b)
        return r

    def lin_unsat(self, c, b):
        used, rest, cl = self.slice(c, b.deps, c.pc)
        key = ('lin', b.z.get_id(), frozenset(u.z.get_id() for u in used))
        r = c.tab.get(key)
        if r is None:
            deps = set(b.deps).union(*[u.deps for u in used]) if used else set(b.deps)
            cons = [b.z] + [u.z for u in used] + c.constraints(deps)
            if time.time() > self.t_end:
                raise BudgetExceeded('time')
            self.stats.feas += 1
            r = self._check(cons, 300, 'lin')[0] == 'unsat'
            c.tab[key] = r
            c.keep.append(b)
        return r

    def solve(self, c, neg, timeout=None, need_model=True, extra_deps=(), inst_first=False):
        """decide pc /\\ neg.  returns (verdict, model list)"""
        timeout = timeout or self.q_timeout
        if z3.is_false(z3.simplify(neg.z)):
            # refuted by the solver's simplifier alone, without any assumption
            self.stats.queries += 1
            return 'unsat', []
        used, rest, cl = self.slice(c, set(neg.deps) | set(extra_deps), c.pc)
        deps = set(neg.deps).union(extra_deps, *[u.deps for u in used])
        cons = [neg.z] + [u.z for u in used] + c.constraints(deps)
        ints = any(c.atoms[a].kind == 'i' for a in cl)
        nl = any(_nonlinear(x) for x in cons)
        verdict, model = 'unknown', None
        if inst_first and nl:
            model = self.instances(c, cons, cl, tries=8, tmo=500)
            if model is not None:
                verdict = 'sat'
            elif self.cheap:
                return 'unknown', []
        plan = [('default', min(timeout, 4))] if verdict == 'unknown' else []
        if nl and not ints and plan:
            plan = [('lin', 1), ('default', 2), ('nlsat', 4)]
        for st, t in plan:
            verdict, model = self._check(cons, t * 1000, st)
            if verdict != 'unknown':
                break
        if verdict == 'unknown' and nl:
            # guided instantiation: the solver decides instances with some inputs fixed
            model = self.instances(c, cons, cl)
            if model is not None:
                verdict = 'sat'
        if verdict == 'unknown':
            plan = [('nlsat', timeout)] if nl and not ints else []
            plan += [('default', timeout)]
            for st, t in plan:
                verdict, model = self._check(cons, t * 1000, st)
                if verdict != 'unknown':
                    break
        if verdict == 'sat' and rest:
            rdeps = set().union(*[b.deps for b in rest])
            rcons = [b.z for b in rest] + c.constraints(rdeps)
            v2, m2 = self._check(rcons, 5000)
            if v2 == 'unknown':
                m2 = self.instances(c, rcons, self.slice(c, rdeps, [])[2])
                if m2 is not None:
                    v2 = 'sat'
            if v2 == 'unknown':
                v2, m2 = self._check(rcons, timeout * 1000, 'nlsat')
            if v2 == 'unsat':
                return 'unsat', []
            if v2 == 'unknown':
                return 'unknown', []
            return 'sat', [model, m2]
        return verdict, ([model] if model is not None else [])

    def instances(self, c, cons, cl, tries=24, tmo=700):
        rng = random.Random(self.seed * 7919 + self.stats.queries)
        names = []
        for nme, d in c.inputs.items():
            if any(a in cl for a in d['atoms']):
                names.append(nme)
        for k in range(tries):
            if time.time() > self.t_end:
                return None
            fix = []
            frac = 1.0 if k % 3 else 0.6
            for nme in names:
                if rng.random() > frac:
                    continue
                fix += _fix(c, c.inputs[nme], rng)
            r, m = self._check(cons + fix, tmo, 'nlsat' if k % 2 else 'default')
            if r == 'sat':
                return m
        return None

    # ---- exploration
    def explore(self, run):
        """run(ctx): executes the harness; collects obligations in ctx."""
        restarts = 0
        while True:
            try:
                self._explore(run)
                return
            except Restart:
                restarts += 1
                if restarts > 200:
                    raise Unsupported('too many restarts')
                self.stats.paths = 0
                self.violations, self.unknowns, self.witnesses = [], [], []
                self.labels = {}
                continue

    def _explore(self, run):
        pending = [[]]
        while pending:
            if time.time() > self.t_end:
                raise BudgetExceeded('time limit')
            if self.stats.paths >= self.max_paths:
                raise BudgetExceeded('path limit %d' % self.max_paths)
            prefix = pending.pop()
            c = Ctx(self, prefix)
            core.CTX = c
            exc = None
            try:
                run(c)
            except (Restart, BudgetExceeded):
                raise
            except PathEnd:
                exc = 'end'
            except Unsupported:
                raise
            except Exception as e:     # raised by the code under test
                exc = e
            if c.guards and not isinstance(exc, str):
                # exception escaped from guarded region
                self.nomerge.add(c.guards[0][1])
                raise Restart()
            for i in range(len(c.prefix), len(c.decisions)):
                t, alt = c.decisions[i]
                if alt:
                    pending.append([d[0] for d in c.decisions[:i]] + [not t])
            self.notes |= c.notes
            if exc == 'end':
                continue
            self.stats.paths += 1
            self.finish(c, exc)
            if self.enough():
                return
        core.CTX = None

    def enough(self):
        return len(self.violations) >= 3 or bool(self.violations) and time.time() > self.t0 + 45

    def finish(self, c, exc):
        if exc is not None:
            tb = traceback.extract_tb(exc.__traceback__)
            where = '%s:%s' % (os.path.basename(tb[-1].filename), tb[-1].name)
            lab = 'exception %s: %s (%s)' % (type(exc).__name__, str(exc)[:120], where)
            if os.environ.get('SYMX_DEBUG'):
                traceback.print_exception(exc)
            self.labels['no-exception'] = self.labels.get('no-exception', 0) + 1
            v, ms = self.solve(c, Bool(z3.BoolVal(True), frozenset(a for d in c.inputs.values() for a in d['atoms'])))
            if v == 'sat':
                self.violations.append({'label': lab, 'models': [model_inputs(c, ms)]})
            elif v == 'unknown':
                self.unknowns.append(lab)
            return
        groups = []
        for ob in c.obligations:
            self.discharge(c, ob)
            if self.enough():
                return
        if len(self.witnesses) < 3 and self.stats.paths in (1, 2, 3, 5, 9):
            self.make_witness(c)

    def discharge(self, c, ob):
        label, prop, margins, npc = ob
        self.stats.oblig += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        if not isinstance(prop, Bool):
            if prop:
                self.stats.trivial += 1
                # the solver is still asked: (not true) under the path condition is unsat
                return
            neg = Bool(z3.BoolVal(True), frozenset(a for d in c.inputs.values() for a in d['atoms']))
        else:
            neg = bnot(prop)
        v, ms = self.solve(c, neg)
        if os.environ.get('SYMX_DEBUG'):
            print('   ', label, v, flush=True)
        if v == 'unsat':
            self.stats.unsat += 1
            return
        if v == 'unknown':
            for mg in margins:
                mg = tobool(mg)
                if not isinstance(mg, Bool):
                    continue
                v2, ms2 = self.solve(c, mg, timeout=5)
                if v2 == 'sat':
                    self.stats.sat += 1
                    self.violations.append({'label': label, 'models': [model_inputs(c, ms2)]})
                    return
            self.stats.unknown += 1
            self.unknowns.append(label)
            return
        self.stats.sat += 1
        models = []
        for mg in margins:
            mg = tobool(mg)
            if not isinstance(mg, Bool):
                continue
            v2, ms2 = self.solve(c, mg, timeout=5)
            if v2 == 'sat':
                models.append(model_inputs(c, ms2))
                # a rounder model with moderate inputs
                break
        models.append(model_inputs(c, ms))
        # extra models from guided instances (robust to float rounding)
        used, rest, cl = self.slice(c, set(neg.deps), c.pc)
        deps = set(neg.deps).union(*[u.deps for u in used])
        cons = [neg.z] + [u.z for u in used] + c.constraints(deps)
        if any(_nonlinear(x) for x in cons) or True:
            m = self.instances(c, cons, cl, tries=6, tmo=300)
            if m is not None:
                models.append(model_inputs(c, [m] + ms[1:]))
        self.violations.append({'label': label, 'models': models})

    def make_witness(self, c):
        deps = frozenset(a for d in c.inputs.values() for a in d['atoms'])
        v, ms = self.solve(c, Bool(z3.BoolVal(True), deps), timeout=5, inst_first=True)
        if v != 'sat':
            return
        inp = model_inputs(c, ms)
        # evaluate observations: re-solve with inputs pinned, observation cone included
        obs = {}
        deps = set()
        for k, val in c.observations.items():
            for x in _leaves(val):
                if isinstance(x, Num):
                    deps |= x.atoms()
                    if not any(c.atoms[a].angle is not None for a in x.atoms()):
                        c.zr(x)       # creates the definitions of inverse atoms
                elif isinstance(x, Bool):
                    deps |= x.deps
        pins = []
        for nme, d in c.inputs.items():
            pins += _pin(c, d, inp[nme], ms)
        cons = pins + [b.z for b in c.pc] + c.constraints(deps.union(*[b.deps for b in c.pc]) if c.pc else deps)
        r, m = self._check(cons, 3000)
        if r == 'sat':
            for k, val in c.observations.items():
                obs[k] = [_evalm(c, x, m) for x in _leaves(val)]
        self.witnesses.append({'inputs': inp, 'obs': obs})


def _leaves(v):
    if isinstance(v, (list, tuple)):
        out = []
        for x in v:
            out += _leaves(x)
        return out
    if type(v).__name__ == 'Quat':
        return _leaves(v.quat_coef)
    if type(v).__name__ == 'Masked':
        return _leaves(v.materialise())
    if isinstance(v, np.ndarray):
        return as_sa(v)._flat() if v.dtype.kind not in 'US' else [str(x) for x in v.ravel()]
    return [v]


def _evalm(c, x, m):
    if isinstance(x, Num):
        if any(c.atoms[a].angle is not None or (isinstance(c.atoms[a].info, tuple) and c.atoms[a].info[0] == 'ite')
               for a in x.atoms()):
            tot = 0.0
            for mono, k in x.t.items():
                v = float(k)
                for a, e in mono:
                    v *= _atomval(c, c.atoms[a], m) ** e
                tot += v
            return tot
        r = m.eval(c.z(x), model_completion=True)
        return float(_val(r))
    if isinstance(x, Bool):
        return bool(z3.is_true(m.eval(x.z, model_completion=True)))
    if isinstance(x, (np.generic,)):
        x = x.item()
    if isinstance(x, (int, float, bool, str, type(None))):
        return x
    return str(x)


def _atomval(c, at, m):
    if isinstance(at.info, tuple) and at.info[0] == 'ite':
        _, cond, a, b = at.info
        return float(_evalm(c, Num.const(a if z3.is_true(m.eval(cond.z, model_completion=True)) else b), m))
    if at.angle is None:
        if at is c.pi:
            return math.pi
        return float(_val(m.eval(z3.ToReal(at.z) if at.kind == 'i' else at.z, model_completion=True)))
    cc, ss = (float(_val(m.eval(c.zr(q), model_completion=True))) for q in (at.angle.c, at.angle.s))
    a = math.atan2(ss, cc) * at.angle.den
    if at.angle.rng == '2pi' and a < 0:
        a += 2 * math.pi
    return a


def _val(r):
    if z3.is_int_value(r):
        return F(r.as_long())
    if z3.is_rational_value(r):
        return F(r.numerator_as_long(), r.denominator_as_long())
    if z3.is_algebraic_value(r):
        a = r.approx(25)
        return F(a.numerator_as_long(), a.denominator_as_long())
    return F(0)


_nlcache = {}


def _nonlinear(e):
    """conservative syntactic test (memoised; the expression is kept so that its id stays valid)"""
    r = _nlcache.get(e.get_id())
    if r is not None:
        return r[0]
    res = False
    todo = [e]
    seen = set()
    while todo and not res:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        r = _nlcache.get(i)
        if r is not None:
            res = r[0]
            continue
        if z3.is_app(x):
            ch = x.children()
            if x.decl().kind() == z3.Z3_OP_MUL:
                if sum(0 if (z3.is_rational_value(a) or z3.is_int_value(a)) else 1 for a in ch) > 1:
                    res = True
            todo.extend(ch)
    if len(_nlcache) > 200000:
        _nlcache.clear()
    _nlcache[e.get_id()] = (res, e)
    return res


def model_inputs(c, ms):
    out = {}
    for nme, d in c.inputs.items():
        k = d['kind']
        # choose the model that talks about these atoms
        m = None
        for mm in ms:
            if mm is None:
                continue
            decls = {str(x) for x in mm.decls()}
            if any(str(z) in decls for z in d['zs']):
                m = mm
                break
        vals = []
        if m is None:
            out[nme] = d['default']
            continue
        if k == 'bool':
            out[nme] = bool(z3.is_true(m.eval(d['zs'][0], model_completion=True)))
            continue
        vals = [_val(m.eval(z, model_completion=True)) for z in d['zs']]
        if k == 'int':
            out[nme] = int(vals[0])
        elif k == 'real':
            out[nme] = float(vals[0])
        elif k == 'unit':
            v = [float(x) for x in vals]
            n = math.sqrt(sum(x * x for x in v)) or 1.0
            out[nme] = [x / n for x in v] if any(v) else d['default']
        elif k == 'angle':
            cc, ss = float(vals[0]), float(vals[1])
            a = math.atan2(ss, cc) * d['den']
            if d['rng'] == '2pi' and a < 0:
                a += 2 * math.pi
            out[nme] = a
    return out


def _pin(c, d, v, ms):
    """constraints fixing an input to (an exact version of) its model value"""
    for m in ms:
        if m is None:
            continue
        decls = {str(x) for x in m.decls()}
        if any(str(z) in decls for z in d['zs']):
            return [z == m.eval(z, model_completion=True) for z in d['zs']]
    # default values
    return [z == x for z, x in zip(d['zs'], d['zdefault'])]


def _fix(c, d, rng):
    k = d['kind']
    z = d['zs']
    q = core._q
    if k == 'bool':
        return [z[0] == (rng.random() < 0.5)]
    if k == 'int':
        lo, hi = d.get('lo'), d.get('hi')
        lo = -5 if lo is None else lo
        hi = lo + 10 if hi is None else hi
        return [z[0] == rng.randint(int(lo), int(hi))]
    if k == 'real':
        lo, hi = d.get('lo'), d.get('hi')
        lo = -3.0 if lo is None else float(lo)
        hi = lo + 6.0 if hi is None else float(hi)
        return [z[0] == q(F(rng.randint(1, 99), 100) * (F(hi) - F(lo)).limit_denominator(1000) + F(lo).limit_denominator(1000))]
    if k == 'unit':
        n = len(z)
        # rational point on the sphere by stereographic projection
        t = [F(rng.randint(-12, 12), rng.randint(3, 9)) for _ in range(n - 1)]
        s = sum(x * x for x in t)
        pt = [2 * x / (1 + s) for x in t] + [(1 - s) / (1 + s)]
        rng.shuffle(pt)
        if d.get('pos') and pt[0] < 0:
            pt = [-x for x in pt]
        return [a == q(b) for a, b in zip(z, pt)]
    if k == 'angle':
        for _ in range(50):
            t = F(rng.randint(-30, 30), rng.randint(5, 13))
            cc, ss = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
            a = math.atan2(float(ss), float(cc)) * d['den']
            lo, hi = {'2pi': (0, 2 * math.pi), 'acos': (0, math.pi), 'atan2': (-math.pi, math.pi),
                      'asin': (-math.pi / 2, math.pi / 2), 'half': (0, math.pi / 2), 'free': (-99, 99)}[d['rng']]
            if lo <= a <= hi:
                return [z[0] == q(cc), z[1] == q(ss)]
        return []
    return []
