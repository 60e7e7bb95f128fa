"""Load shadow copies of the defdap modules from /repo's current source.

The source is parsed on every run; builtins whose C implementation would lose
symbolic values are redirected, simple conditionals are merged (if-conversion
under a guard) and numpy/math are replaced by the symbolic shims."""
import ast
import hashlib
import importlib.abc
import importlib.machinery
import os
import sys
import types

import numpy as np

from . import core, nd
from .core import Num, Bool, ite, tobool, bnot, band, bor, Restart, Unsupported
from .nd import SA
from . import symnp as S

REPO = os.environ.get('VERIF_REPO', '/repo')
FUNCS = {}       # qualified name -> source hash (functions seen)
CALLED = set()   # qualified names actually executed (profile)

SAFE_CALLS = {'abs', 'min', 'max', 'float', 'int', 'round', 'len', 'sum', 'bool'}
REDIRECT = {'int': 'int_', 'float': 'float_', 'max': 'max_', 'min': 'min_', 'sum': 'sum_', 'abs': 'abs_',
            'any': 'any_', 'all': 'all_', 'isinstance': 'isinstance_', 'round': 'round_', 'bool': 'bool_',
            'map': 'map_', 'type': 'type_', 'open': 'open_', 'print': 'print_', 'sorted': 'sorted_'}


def _simple_call_ok(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr, ast.Lambda, ast.ListComp,
                          ast.GeneratorExp, ast.DictComp, ast.SetComp)):
            return False
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name) and f.id in SAFE_CALLS:
                continue
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ('np', 'math'):
                continue
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Attribute) and \
                    isinstance(f.value.value, ast.Name) and f.value.value.id == 'np':
                continue
            if isinstance(f, ast.Attribute) and f.attr in ('copy', 'astype', 'sum', 'max', 'min', 'dot'):
                continue
            return False
    return True


class Xf(ast.NodeTransformer):
    def __init__(self, fname):
        self.n = 0
        self.fname = fname
        self.depth = 0

    def site(self, node):
        return '%s:%d:%d' % (self.fname, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))

    # functions --------------------------------------------------------------
    def visit_FunctionDef(self, node):
        self.depth += 1
        locs = {a.arg for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs}
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                locs.add(n.id)
        glob = set()
        for n in ast.walk(node):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                glob |= set(n.names)
        old = getattr(self, 'locs', None)
        self.locs = locs - glob
        node.body = self.block(node.body)
        node.args = self.generic_visit(node.args)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.returns = None
        for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs:
            a.annotation = None
        self.locs = old
        self.depth -= 1
        return node

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            out.extend(r if isinstance(r, list) else [r])
        return out or [ast.Pass()]

    def visit_AnnAssign(self, node):
        self.generic_visit(node)
        if self.depth and node.value is not None:
            return ast.copy_location(ast.Assign(targets=[node.target], value=node.value), node)
        return node

    # imports ---------------------------------------------------------------
    def visit_Import(self, node):
        out = []
        for a in node.names:
            if a.name == 'numpy':
                out.append(ast.parse('from symx.symnp import symnp as %s' % (a.asname or 'numpy')).body[0])
            elif a.name == 'math':
                out.append(ast.parse('from symx.symnp import symmath as %s' % (a.asname or 'math')).body[0])
            else:
                out.append(ast.copy_location(ast.Import(names=[a]), node))
        return [ast.copy_location(o, node) for o in out]

    def visit_ImportFrom(self, node):
        if node.module in ('numpy', 'numpy.linalg', 'math'):
            base = {'numpy': 'symnp', 'numpy.linalg': 'symnp.linalg', 'math': 'symmath'}[node.module]
            out = []
            for a in node.names:
                if a.name == '*':
                    return node
                src = 'import symx.symnp as _sxm\n%s = _sxm.%s.%s' % (a.asname or a.name, base, a.name)
                out.extend(ast.parse(src).body)
            return [ast.copy_location(o, node) for o in out]
        return node

    # expressions --------------------------------------------------------------
    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in REDIRECT and f.id not in (getattr(self, 'locs', None) or ()):
            node.func = ast.copy_location(ast.Attribute(value=ast.Name(id='_sx', ctx=ast.Load()),
                                                        attr=REDIRECT[f.id], ctx=ast.Load()), f)
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return self._call('not_', [node.operand], node)
        return node

    def _call(self, name, args, node):
        return ast.copy_location(ast.Call(
            func=ast.Attribute(value=ast.Name(id='_sx', ctx=ast.Load()), attr=name, ctx=ast.Load()),
            args=args, keywords=[]), node)

    def _lam(self, e):
        return ast.copy_location(ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[],
                                                               kw_defaults=[], defaults=[]), body=e), e)

    def _lam_ok(self, *es):
        for e in es:
            for n in ast.walk(e):
                if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)):
                    return False
        return getattr(self, 'locs', None) is not None

    def visit_BoolOp(self, node):
        orig_ok = self._lam_ok(*node.values)
        self.generic_visit(node)
        if not orig_ok:
            return node
        name = 'and_' if isinstance(node.op, ast.And) else 'or_'
        return self._call(name, [ast.Constant(self.site(node))] + [self._lam(v) for v in node.values], node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) > 1 and getattr(self, 'locs', None) is not None and \
                all(isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)) for o in node.ops):
            ops = [type(o).__name__ for o in node.ops]
            return self._call('chain_', [ast.Constant(','.join(ops)), node.left] + node.comparators, node)
        return node

    def visit_IfExp(self, node):
        ok = self._lam_ok(node.test, node.body, node.orelse)
        self.generic_visit(node)
        if not ok:
            return node
        return self._call('ifexp_', [ast.Constant(self.site(node)), node.test, self._lam(node.body),
                                     self._lam(node.orelse)], node)

    def visit_Return(self, node):
        self.generic_visit(node)
        if node.value is not None:
            node.value = self._call('ret_', [node.value], node)
        return node

    # if-conversion ---------------------------------------------------------------
    def _mergeable(self, stmts):
        for s in stmts:
            if isinstance(s, ast.Pass):
                continue
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, ast.Assign):
                if not _simple_call_ok(s.value):
                    return False
                for t in s.targets:
                    if not self._target_ok(t):
                        return False
            elif isinstance(s, ast.AugAssign):
                if not _simple_call_ok(s.value) or not self._target_ok(s.target):
                    return False
            elif isinstance(s, ast.If):
                if not _simple_call_ok(s.test) or not self._mergeable(s.body) or not self._mergeable(s.orelse):
                    return False
            else:
                return False
        return True

    def _target_ok(self, t):
        if isinstance(t, ast.Name):
            return t.id in self.locs
        if isinstance(t, ast.Attribute):
            return isinstance(t.value, ast.Name)
        if isinstance(t, ast.Subscript):
            return _simple_call_ok(t)
        if isinstance(t, ast.Tuple):
            return all(isinstance(e, ast.Name) and e.id in self.locs for e in t.elts)
        return False

    def _targets(self, stmts, names, attrs):
        for s in stmts:
            ts = []
            if isinstance(s, ast.Assign):
                ts = s.targets
            elif isinstance(s, ast.AugAssign):
                ts = [s.target]
            elif isinstance(s, ast.If):
                self._targets(s.body, names, attrs)
                self._targets(s.orelse, names, attrs)
            for t in ts:
                for e in (t.elts if isinstance(t, ast.Tuple) else [t]):
                    if isinstance(e, ast.Name):
                        if e.id not in names:
                            names.append(e.id)
                    elif isinstance(e, ast.Attribute):
                        k = (e.value.id, e.attr)
                        if k not in attrs:
                            attrs.append(k)

    def visit_If(self, node):
        if getattr(self, 'locs', None) is None or not _simple_call_ok_test(node.test) or \
                not self._mergeable(node.body) or not self._mergeable(node.orelse):
            node.test = self.visit(node.test)
            node.body = self.block(node.body)
            node.orelse = self.block(node.orelse) if node.orelse else []
            return node
        names, attrs = [], []
        self._targets(node.body, names, attrs)
        self._targets(node.orelse, names, attrs)
        self.n += 1
        i = self.n
        site = self.site(node)
        test = self.visit(node.test)
        import copy as _c
        body_plain = self.block(_c.deepcopy(node.body))
        else_plain = self.block(_c.deepcopy(node.orelse)) if node.orelse else []
        body_g = [self._guarded(s) for s in self.block(_c.deepcopy(node.body))]
        else_g = [self._guarded(s) for s in self.block(_c.deepcopy(node.orelse))] if node.orelse else [ast.Pass()]

        lam = ', '.join(['(lambda: %s)' % n for n in names] +
                        ['(lambda: %s.%s)' % a for a in attrs])
        lhs = ['%s' % n for n in names] + ['%s.%s' % a for a in attrs]

        def assign(var):
            return '\n'.join('%s = %s[%d]' % (l, var, k) for k, l in enumerate(lhs))
        src = f'''
_sxt{i} = 0
if _sx.sym(_sxt{i}, {site!r}):
    _sxo{i} = _sx.snap([{lam}])
    try:
        _sx.push(_sxt{i}, {site!r})
        _BODY_
        _sx.pop()
    except Exception as _sxe:
        _sx.fail({site!r})
    _sxb{i} = _sx.snap([{lam}])
{_indent(assign('_sxo%d' % i))}
    try:
        _sx.push(_sx.not_(_sxt{i}), {site!r})
        _ELSE_
        _sx.pop()
    except Exception as _sxe:
        _sx.fail({site!r})
    _sxb{i} = _sx.merge(_sxt{i}, _sxb{i}, _sx.snap([{lam}]), {site!r})
{_indent(assign('_sxb%d' % i))}
else:
    _PLAIN_
'''
        mod = ast.parse(src)
        mod.body[0].value = test
        iff = mod.body[1]
        iff.body[1].body[1:2] = body_g
        for st in iff.body:
            if isinstance(st, ast.Try) and any(isinstance(x, ast.Expr) and isinstance(x.value, ast.Name)
                                               and x.value.id == '_ELSE_' for x in st.body):
                st.body[1:2] = else_g
        iff.orelse = [ast.If(test=ast.Name(id='_sxt%d' % i, ctx=ast.Load()), body=body_plain, orelse=else_plain)]
        for st in mod.body:
            ast.copy_location(st, node)
        return mod.body

    def _guarded(self, s):
        """subscript stores in merged bodies go through a guard-aware helper"""
        class G(ast.NodeTransformer):
            def visit_Assign(g, n):
                if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript):
                    t = n.targets[0]
                    return ast.copy_location(ast.Expr(self._call('setitem', [t.value, _slice_expr(t.slice), n.value], n)), n)
                return n

            def visit_AugAssign(g, n):
                if isinstance(n.target, ast.Subscript):
                    t = n.target
                    return ast.copy_location(ast.Expr(self._call('augitem', [
                        t.value, _slice_expr(t.slice), ast.Constant(type(n.op).__name__), n.value], n)), n)
                return n
        return G().visit(s)


def _slice_expr(s):
    if isinstance(s, ast.Slice):
        return ast.Call(func=ast.Name(id='slice', ctx=ast.Load()), args=[
            x if x is not None else ast.Constant(None) for x in (s.lower, s.upper, s.step)], keywords=[])
    if isinstance(s, ast.Tuple):
        return ast.Tuple(elts=[_slice_expr(e) for e in s.elts], ctx=ast.Load())
    return s


def _simple_call_ok_test(t):
    for n in ast.walk(t):
        if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)):
            return False
    return True


def _indent(s):
    return '\n'.join('    ' + l for l in s.split('\n')) if s else '    pass'


UNDEF = object()


class Partial:
    """variable defined only when cond holds"""

    def __init__(self, c, v):
        self.c, self.v = c, v


class SX:
    """runtime support referenced as _sx by transformed code"""
    int_ = staticmethod(S.sx_int)
    float_ = staticmethod(S.sx_float)
    max_ = staticmethod(S.sx_max)
    min_ = staticmethod(S.sx_min)
    sum_ = staticmethod(S.sx_sum)
    abs_ = staticmethod(S.sx_abs)
    any_ = staticmethod(S.sx_any)
    all_ = staticmethod(S.sx_all)
    isinstance_ = staticmethod(S.sx_isinstance)
    round_ = staticmethod(S.sx_round)
    bool_ = staticmethod(S.sx_bool)
    type_ = staticmethod(S.sx_type)

    @staticmethod
    def sorted_(it, key=None, reverse=False):
        xs = list(it)
        ks = [key(x) for x in xs] if key else xs
        if not any(isinstance(k, (Num, Bool)) for k in ks):
            return sorted(xs, key=key, reverse=reverse)
        out = []
        for x, k in zip(xs, ks):
            i = len(out)
            while i > 0 and bool(k < out[i - 1][1] if not reverse else k > out[i - 1][1]):
                i -= 1
            out.insert(i, (x, k))
        return [x for x, _ in out]

    @staticmethod
    def map_(f, *its):
        f = {int: S.sx_int, float: S.sx_float, bool: S.sx_bool, abs: S.sx_abs}.get(f, f) if isinstance(f, type) or f is abs else f
        return map(f, *its)

    @staticmethod
    def print_(*a, **k):
        # only harnesses about printed text (which activate tokens) look at the output
        if core.ctx().tokens.active:
            print(*a, **k)

    @staticmethod
    def open_(path, mode='r', *a, **k):
        return open(path, mode, *a, **k)

    @staticmethod
    def not_(x):
        if isinstance(x, (Bool, Num)):
            return bnot(x)
        return not x

    @staticmethod
    def chain_(ops, *vals):
        import operator as o
        f = {'Lt': o.lt, 'LtE': o.le, 'Gt': o.gt, 'GtE': o.ge, 'Eq': o.eq, 'NotEq': o.ne}
        r = True
        for op, a, b in zip(ops.split(','), vals, vals[1:]):
            v = f[op](a, b)
            if isinstance(v, Bool):
                r = band(r, v)
            elif isinstance(v, np.ndarray):
                if r is True:
                    r = v
                else:
                    r = bool(r) and v
            elif not v:
                return False
        return r

    def and_(self, site, *fs):
        acc = None
        for i, f in enumerate(fs):
            if acc is None:
                v = f()
            else:
                self.push(acc, site)
                try:
                    v = f()
                    self.pop()
                except Exception:
                    self.fail(site)
            last = i == len(fs) - 1
            if isinstance(v, SA) and v.size == 1:
                v = v.reshape(-1)[0]
            if isinstance(v, Num):
                if last and acc is None:
                    return v
                v = v != 0
            if isinstance(v, Bool):
                if site in core.ctx().engine.nomerge and not last:
                    if not bool(v):
                        return False
                    continue
                acc = v if acc is None else band(acc, v)
                if not isinstance(acc, Bool) and not acc:
                    return False
                continue
            if acc is None:
                if last or not v:
                    return v
                continue
            # concrete value under a symbolic accumulated condition
            if isinstance(v, (bool, np.bool_)):
                if not v:
                    return False
                continue
            if last or not v:
                core.ctx().engine.nomerge.add(site)
                raise Restart()
        return acc if acc is not None else True

    def or_(self, site, *fs):
        acc = None
        for i, f in enumerate(fs):
            if acc is None:
                v = f()
            else:
                self.push(bnot(acc), site)
                try:
                    v = f()
                    self.pop()
                except Exception:
                    self.fail(site)
            last = i == len(fs) - 1
            if isinstance(v, SA) and v.size == 1:
                v = v.reshape(-1)[0]
            if isinstance(v, Num):
                if last and acc is None:
                    return v
                v = v != 0
            if isinstance(v, Bool):
                if site in core.ctx().engine.nomerge and not last:
                    if bool(v):
                        return True
                    continue
                acc = v if acc is None else bor(acc, v)
                continue
            if acc is None:
                if last or v:
                    return v
                continue
            if isinstance(v, (bool, np.bool_)):
                if v:
                    return True
                continue
            if last or v:
                core.ctx().engine.nomerge.add(site)
                raise Restart()
        return acc if acc is not None else False

    def ifexp_(self, site, t, a, b):
        if isinstance(t, Num):
            t = t != 0
        if isinstance(t, SA) and t.size == 1:
            t = tobool(t)
        if not isinstance(t, Bool) or not self.sym(t, site):
            return a() if t else b()
        self.push(t, site)
        try:
            va = a()
            self.pop()
        except Exception:
            self.fail(site)
        self.push(bnot(t), site)
        try:
            vb = b()
            self.pop()
        except Exception:
            self.fail(site)
        return self._merge1(t, va, vb, site)

    def ret_(self, v):
        if isinstance(v, Partial):
            return self._resolve(v)
        if isinstance(v, tuple) and type(v) is tuple and any(isinstance(x, Partial) for x in v):
            return tuple(self._resolve(x) if isinstance(x, Partial) else x for x in v)
        if v is UNDEF:
            raise UnboundLocalError('local variable referenced before assignment')
        return v

    def _resolve(self, p):
        if bool(p.c):
            return p.v
        raise UnboundLocalError('local variable referenced before assignment')

    # guards
    def sym(self, t, site):
        if isinstance(t, SA) and t.size == 1:
            t = tobool(t)
        if isinstance(t, Num) and not t.is_const():
            return site not in core.ctx().engine.nomerge
        return isinstance(t, Bool) and site not in core.ctx().engine.nomerge

    def push(self, t, site):
        core.ctx().guards.append((tobool(t), site))

    def pop(self):
        core.ctx().guards.pop()

    def fail(self, site):
        core.ctx().engine.nomerge.add(site)
        raise Restart()

    def snap(self, fs):
        out = []
        for f in fs:
            try:
                out.append(f())
            except (NameError, AttributeError):
                out.append(UNDEF)
        return out

    def merge(self, t, a, b, site):
        t = tobool(t)
        return [self._merge1(t, x, y, site) for x, y in zip(a, b)]

    def _merge1(self, t, x, y, site):
        if x is y:
            return x
        t = tobool(t)
        if x is UNDEF and y is UNDEF:
            return UNDEF
        if x is UNDEF:
            return self._merge1(bnot(t), y, x, site)
        if y is UNDEF:
            if isinstance(x, Partial):
                return Partial(band(t, x.c), x.v)
            return Partial(t, x)
        if isinstance(x, Partial) or isinstance(y, Partial):
            cx = x.c if isinstance(x, Partial) else True
            cy = y.c if isinstance(y, Partial) else True
            vx = x.v if isinstance(x, Partial) else x
            vy = y.v if isinstance(y, Partial) else y
            return Partial(bor(band(t, cx), band(bnot(t), cy)), self._merge1(t, vx, vy, site))
        sc = (Num, Bool, bool, int, float, np.generic)
        if isinstance(x, sc) and isinstance(y, sc):
            try:
                return ite(t, x, y)
            except (TypeError, core.NonFinite):
                self.fail(site)
        if isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and x.shape == y.shape:
            ax, ay = nd.as_sa(x), nd.as_sa(y)
            if isinstance(ax, SA) and isinstance(ay, SA):
                o = np.empty(x.shape, dtype=object)
                of = o.reshape(-1)
                for i, (u, v) in enumerate(zip(ax._flat(), ay._flat())):
                    of[i] = self._merge1(t, u, v, site)
                return nd.make(o, nd.promote(ax._dt, ay._dt))
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            return tuple(self._merge1(t, u, v, site) for u, v in zip(x, y))
        if type(x) is type(y) and type(x).__name__ == 'Quat':
            o = object.__new__(type(x))
            o.quat_coef = self._merge1(t, x.quat_coef, y.quat_coef, site)
            return o
        if isinstance(x, (str, type(None))) and isinstance(y, (str, type(None))) and x == y:
            return x
        self.fail(site)

    def setitem(self, obj, key, val):
        if isinstance(obj, SA) or (type(obj).__name__ == 'Quat'):
            obj[key] = val
            return
        core.raise_restart()

    def augitem(self, obj, key, op, val):
        if not isinstance(obj, SA):
            core.raise_restart()
        import operator as o
        f = {'Add': o.iadd, 'Sub': o.isub, 'Mult': o.imul, 'Div': o.itruediv, 'FloorDiv': o.ifloordiv, 'Pow': o.ipow,
             'BitAnd': o.iand, 'BitOr': o.ior}.get(op)
        if f is None:
            core.raise_restart()
        v = obj[key]
        if isinstance(v, SA):
            v = v.copy()
        obj[key] = f(v, val)


_sx = SX()


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, repo):
        self.repo = repo

    def find_spec(self, name, path=None, target=None):
        if name != 'defdap' and not name.startswith('defdap.'):
            return None
        rel = name.replace('.', '/')
        p = os.path.join(self.repo, rel)
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            spec = importlib.machinery.ModuleSpec(name, self, origin=os.path.join(p, '__init__.py'), is_package=True)
            spec.submodule_search_locations = [p]
        elif os.path.exists(p + '.py'):
            spec = importlib.machinery.ModuleSpec(name, self, origin=p + '.py')
        else:
            return None
        spec.has_location = True
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        path = module.__spec__.origin
        with open(path) as f:
            src = f.read()
        tree = ast.parse(src, path)
        modname = module.__name__
        for qn, node in _functions(tree):
            seg = ast.unparse(node)
            FUNCS[modname + '.' + qn] = (hashlib.sha1(seg.encode()).hexdigest()[:12], node.lineno)
        tree = Xf(modname).visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, path, 'exec')
        module.__dict__['_sx'] = _sx
        module.__dict__['__file__'] = path
        exec(code, module.__dict__)
        self.patch(module)

    def patch(self, module):
        from . import stubs
        stubs.patch(module)


def _functions(tree, prefix=''):
    for n in tree.body:
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield prefix + n.name, n
            yield from _functions(n, prefix + n.name + '.')
        elif isinstance(n, ast.ClassDef):
            yield from _functions(n, prefix + n.name + '.')


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    for k in list(sys.modules):
        if k == 'defdap' or k.startswith('defdap.'):
            del sys.modules[k]
    nb = types.ModuleType('numba')

    def njit(*a, **k):
        if a and callable(a[0]):
            return a[0]
        return lambda f: f
    nb.njit = nb.jit = nb.vectorize = njit
    nb.prange = range
    sys.modules['numba'] = nb
    import matplotlib
    matplotlib.use('Agg')
    sys.meta_path.insert(0, Finder(REPO))


def profile_on():
    """record which functions of the shadow modules are executed"""
    base = os.path.join(REPO, 'defdap') + os.sep

    def prof(frame, event, arg):
        if event == 'call':
            co = frame.f_code
            if co.co_filename.startswith(base):
                CALLED.add((co.co_filename[len(base):-3], co.co_qualname))
    sys.setprofile(prof)


def profile_off():
    sys.setprofile(None)
