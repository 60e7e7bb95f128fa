"""U01: the data store against a plain dictionary model, with symbolic sequences of operations."""
import itertools
from symx.reg import harness


def pick(A, name, ops):
    """fork on a symbolic operation code"""
    k = A.int(name, 0, len(ops) - 1)
    for i in range(len(ops) - 1):
        if k == i:
            return ops[i]
    return ops[-1]


def get(d, key):
    """value or the kind of refusal"""
    try:
        return d[key]
    except KeyError:
        return KeyError


def cmp(A, label, x, y):
    if y is KeyError or x is KeyError or y is None or x is None or isinstance(x, str) or isinstance(y, str):
        A.true(label, x is y or (isinstance(x, str) and isinstance(y, str) and x == y))
    else:
        A.eq(label, x, y)


OPS = ['add_n', 'set_a', 'set_b', 'meta_a', 'meta_b', 'get_b', 'get_c', 'gen_b', 'set_n', 'add_a', 'get_x']


@harness('U01', cases=lambda tier: [dict(first=o, depth=3 if tier == 'quick' else 4) for o in OPS], max_paths=4000, time_limit=600)
def history(A, first, depth):
    """every sequence of operations of the given length (first one per case) with symbolic values: adding, setting, metadata, generated data
    kept ('b') and not kept ('c'); at the end every key, value and metadata is that of a dictionary"""
    D = A.D.utils.Datastore
    s = D()
    v0 = A.real('v0')
    s.add('a', v0, unit='m')
    model = {'a': [v0, 'm']}
    calls = dict(b=0, c=0)
    base = dict(b=A.real('gb'), c=A.real('gc'))

    def gen(k):
        def f():
            calls[k] += 1
            return base[k] + calls[k]
        return f
    s.add_generator('b', gen('b'), unit='s')
    s.add_generator('c', gen('c'), unit='t', save=False)
    model['b'] = [None, 's']
    model['c'] = [None, 't']
    n = dict(b=0, c=0)
    for i in range(depth):
        op = first if i == 0 else pick(A, 'op%d' % i, OPS)
        v = A.real('v%d' % (i + 1))
        if op in ('add_n', 'add_a'):
            k = op[-1]
            try:
                s.add(k, v, unit='u%d' % i)
                A.true('added only if new', k not in model)
                model[k] = [v, 'u%d' % i]
            except ValueError:
                A.true('refused only if present', k in model)
        elif op[:3] == 'set':
            k = op[-1]
            try:
                if i % 2:
                    s[k] = v
                else:
                    setattr(s, k, v)
                A.true('set only if present', k in model)
                model[k][0] = v
            except ValueError:
                A.true('not set only if missing', k not in model)
        elif op[:4] == 'meta':
            k = op[-1]
            s[k, 'unit'] = 'w%d' % i
            model[k][1] = 'w%d' % i
        elif op == 'get_b':
            if model['b'][0] is None:
                n['b'] += 1
                model['b'][0] = base['b'] + n['b']
            A.eq('generated', s.b if i % 2 else s['b'], model['b'][0])
        elif op == 'get_c':
            n['c'] += 1
            A.eq('generated each time', s.c, base['c'] + n['c'])
        elif op == 'gen_b':
            n['b'] += 1
            model['b'][0] = base['b'] + n['b']
            r = s.generate('b', return_val=True)
            A.eq('generate', r, model['b'][0])
        else:
            A.true('unknown key', get(s, 'x') is KeyError)
            A.true('unknown metadata', get(s, ('a', 'nope')) is KeyError)
            A.true('default', s.get_metadata('a', 'nope', 7) == 7 and s.get_metadata('x', 'unit', 8) == 8)
    A.true('generator calls', calls == n)
    A.true('keys', list(s.keys()) == list(model) and len(s) == len(model) and list(s) == list(model))
    for k in ('a', 'b', 'n', 'x'):
        A.true('contained', (k in s) == (k in model))
        if k == 'b' and model['b'][0] is None:
            continue
        cmp(A, 'value of ' + k, get(s, k), model[k][0] if k in model else KeyError)
        cmp(A, 'unit of ' + k, get(s, (k, 'unit')), model[k][1] if k in model else KeyError)
    A.true('no further generator calls', calls == n)
    if model['b'][0] is not None:
        d = dict(**s)
        A.true('as a dictionary', list(d) == list(model))
        for k in d:
            A.eq('value in the dictionary', d[k], model[k][0] if k != 'c' else base['c'] + n['c'] + 1)


@harness('U01', cases=[dict(keep=k) for k in (0, 1, 2, 3)], max_paths=400)
def several(A, keep):
    """one generator of two items, each kept or not; requested in any order"""
    D = A.D.utils.Datastore
    s = D()
    n = [0]
    g = [A.real('g0'), A.real('g1')]

    def f():
        n[0] += 1
        return g[0] + n[0], g[1] + 2 * n[0]
    md = [dict(save=bool(keep & 1), unit='a'), dict(save=bool(keep & 2), unit='b')]
    s.add_generator(('p', 'q'), f, md, type='x', order=3)
    A.true('metadata left alone', md == [dict(save=bool(keep & 1), unit='a'), dict(save=bool(keep & 2), unit='b')])
    for k, u in (('p', 'a'), ('q', 'b')):
        A.true('metadata', s[k, 'unit'] == u and s[k, 'order'] == 3 and s[k, 'type'] == 'x')
    have = [None, None]
    m = 0
    for i in range(3):
        k = 0 if A.bool('first%d' % i) else 1
        if have[k] is None:
            m += 1
            vals = [g[0] + m, g[1] + 2 * m]
            for j in (0, 1):
                if keep & (1 << j):
                    have[j] = vals[j]
            want = vals[k]
        else:
            want = have[k]
        A.eq('value', s['pq'[k]], want)
        A.true('calls', n[0] == m)
    A.true('keys', list(s) == ['p', 'q'])
    s.add_generator('bad', lambda: (1, 2))
    s.add_generator(('r', 't'), lambda: (1, 2, 3))
    try:
        s.generate('r')
        A.fail('wrong number of items accepted')
    except ValueError:
        A.true('wrong number refused', True)
    try:
        s.generate('nope')
        A.fail('generated an unknown item')
    except A.D.utils.DataGenerationError:
        A.true('unknown refused', True)


@harness('U01', cases=[dict(typ=t) for t in ('map', 'list', None)], max_paths=200)
def views(A, typ):
    """crop and mask functions apply to maps only, unless the metadata says otherwise; generated maps likewise; the stored value stays"""
    D = A.D.utils.Datastore
    log = []

    def crop(x, binning=1):
        log.append('c%d' % binning)
        return 3 * x

    def mask(x):
        log.append('m')
        return x + 5
    s = D(crop_func=crop, mask_func=mask)
    v = A.real('v')
    md = {}
    if typ:
        md['type'] = typ
    cropped = A.bool('cropped')
    apply = A.bool('apply')
    hasc, hasa, hasb = A.bool('hasc'), A.bool('hasa'), A.bool('hasb')
    gen = A.bool('gen')
    c, m = False, True
    if hasc:
        c = bool(cropped)
        md['cropped'] = c
    if hasa:
        m = bool(apply)
        md['apply_mask'] = m
    b = 1
    if hasb:
        md['binning'] = b = 4
    if gen:
        s.add_generator('k', lambda: v, **md)
    else:
        s.add('k', v, **md)
    want = v
    wlog = []
    if typ == 'map':
        if not c:
            want = 3 * want
            wlog.append('c%d' % b)
        if m:
            want = want + 5
            wlog.append('m')
    for i in range(2):
        del log[:]
        A.eq('view', s.k, want)
        A.true('functions', log == wlog)


@harness('U01', cases=[dict(depth=2), dict(depth=3)], max_paths=3000, time_limit=280)
def merging(A, depth):
    """two stores, any sequence of updates (either priority, either direction) and changes"""
    D = A.D.utils.Datastore
    st, mo = [D(), D()], [{}, {}]
    for j, ks in enumerate(('ab', 'bc')):
        for k in ks:
            v = A.real('i%d%s' % (j, k))
            st[j].add(k, v, unit='%d%s' % (j, k))
            mo[j][k] = [v, '%d%s' % (j, k)]
    ops = ['u0', 'u1', 's0', 's1', 'w0', 'w1', 'm0', 'm1']
    for i in range(depth):
        op = pick(A, 'op%d' % i, ops)
        j = int(op[1])
        if op[0] == 'u':
            st[j].update(st[1 - j])
            for k, x in mo[1 - j].items():
                mo[j][k] = list(x)
        elif op[0] == 's':
            st[j].update(st[1 - j], priority='self')
            for k, x in mo[1 - j].items():
                mo[j].setdefault(k, list(x))
        elif op[0] == 'w':
            v = A.real('v%d' % i)
            st[j]['b'] = v
            mo[j]['b'][0] = v
        else:
            st[j]['b', 'unit'] = 'n%d' % i
            mo[j]['b'][1] = 'n%d' % i
    for j in (0, 1):
        A.true('keys', sorted(st[j]) == sorted(mo[j]))
        for k in mo[j]:
            A.eq('value', st[j][k], mo[j][k][0])
            A.true('unit', st[j][k, 'unit'] == mo[j][k][1])


@harness('U01', cases=[dict(order=o, ref=r) for o in itertools.permutations(range(3)) for r in (False, True)], max_paths=600, time_limit=250)
def derived(A, order, ref):
    """three derivations (in every order of adding) from other stores: values are the function of the current value of the source, metadata
    that of the source unless given; any two of: change the source, change its metadata, add to the source, hide in the source"""
    D = A.D.utils.Datastore
    src = [D(), D(), D()]
    vals = {}
    for j, k in enumerate('def'):
        vals[k] = A.real(k)
        src[j].add(k, vals[k], kind='yes', unit=k)
        src[j].add('x' + k, 0, kind='no', unit='x')
    s = D()
    s.add('own', 1, unit='o')
    fn = [lambda x: 2 * x, lambda x: x + 3, (lambda k: ('ref', k)) if ref else (lambda x: -x)]
    for j in order:
        s.add_derivative(src[j], fn[j], in_props=dict(kind='yes'), out_props=dict(unit='out') if j == 1 else None, pass_ref=ref and j == 2)
    unit = dict(d='d', e='out', f='f')
    hidden, new = set(), {}
    for i in range(2):
        op = pick(A, 'op%d' % i, ['set', 'meta', 'add', 'hide', 'get'])
        j = 0 if A.bool('which%d' % i) else 2
        k = 'def'[j]
        if op == 'set':
            vals[k] = A.real('n%d' % i)
            src[j][k] = vals[k]
        elif op == 'meta':
            src[j][k, 'unit'] = 'new%d' % i
            unit[k] = 'new%d' % i
        elif op == 'add':
            if 'n' + k not in new:
                new['n' + k] = A.real('a%d' % i)
                src[j].add('n' + k, new['n' + k], kind='yes', unit='u')
        elif op == 'hide':
            src[j][k, 'kind'] = 'no'
            hidden.add(k)
        else:
            get(s, k)
    want = ['own']
    for j in order:
        want += [k for k in ('def'[j], 'n' + 'def'[j]) if (k in vals and k not in hidden) or k in new]
    A.true('keys', sorted(s.keys()) == sorted(want) and s.keys()[0] == 'own' and len(s) == len(want))
    for j in range(3):
        for k in ('def'[j], 'n' + 'def'[j]):
            if k not in want:
                A.true('missing', get(s, k) is KeyError and k not in s and s.get_metadata(k, 'unit', 'z') == 'z')
                continue
            v = vals.get(k, new.get(k))
            r = get(s, k)
            if ref and j == 2:
                A.true('reference', r == ('ref', k))
            else:
                A.true('present', r is not KeyError)
                A.eq('value', r, [2 * v, v + 3, -v][j])
            u = unit.get(k, 'u') if j != 1 else 'out'
            A.true('unit', s[k, 'unit'] == u and s.get_metadata(k, 'unit') == u)
    A.true('unknown', get(s, 'zz') is KeyError and get(s, 'xd') is KeyError)
    A.true('own data', s.own == 1 and s['own', 'unit'] == 'o')
    # adding the same function again replaces the derivation
    s.add_derivative(src[0], fn[0], in_props=dict(kind='no'))
    A.true('replaced', 'xd' in s and ('d' in s) == ('d' in hidden) and len(s._derivatives) == 3 if hasattr(s, '_derivatives') else True)


@harness('U01', cases=[dict(same=x) for x in (False, True)], max_paths=200)
def circular(A, same):
    """map and members that derive data from each other: no endless search, all data found, also after any earlier requests"""
    D = A.D.utils.Datastore
    m = D()
    v, w = A.real('v'), A.real('w')
    g = D.generate_id()
    mem = [D(group_id=g), D(group_id=g)]
    m.add('p', v, type='map')
    for i, x in enumerate(mem):
        x.add('q', w + i, type='list')
        x.add_derivative(m, lambda y, i=i: y + 10 * i, in_props=dict(type='map'), out_props=dict(type='list'))
    m.add_derivative(mem[0], lambda k: k, pass_ref=True, in_props=dict(type='list'), out_props=dict(type='map'))
    if same:
        # a member that looks at another member
        mem[1].add_derivative(mem[0], lambda y: y, in_props=dict(type='list'))
    for i in range(2):
        op = pick(A, 'op%d' % i, ['m', 'x', 'y', 'z', 'w'])
        if op == 'm':
            A.true('earlier keys', sorted(m) == ['p', 'q'])
        elif op == 'x':
            get(mem[0], 'nothing')
        elif op == 'y':
            get(m, 'nothing')
        elif op == 'z':
            get(mem[1], 'p')
        else:
            'nothing' in mem[1]
    A.true('keys of the map', sorted(m) == ['p', 'q'])
    for i, x in enumerate(mem):
        A.true('keys of a member', sorted(x) == ['p', 'q'])
        A.eq('own', x.q, w + i)
        A.eq('derived', x.p, v + 10 * i)
        A.true('type', x['p', 'type'] == 'list')
    A.true('reference', m.q == 'q' and m['q', 'type'] == 'map')
    A.eq('data of the map', m.p, v)


@harness('U01', cases=[dict()])
def refusals(A):
    """metadata called data is refused, derived data cannot be set, items may be set by attribute"""
    D = A.D.utils.Datastore
    s, t = D(), D()
    try:
        s.add('a', 1, **{'data': 2})
        A.fail('accepted')
    except (ValueError, TypeError):
        A.true('refused', True)
    t.add('b', 5, type='map')
    s.add_derivative(t, lambda x: x + 1)
    try:
        s['b'] = 9
    except Exception:
        A.true('not set', True)
    A.true('source unchanged', t.b == 5 and s.b == 6)
    A.true('text', 'b' in str(s))
