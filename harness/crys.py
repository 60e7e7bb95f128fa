"""Crystallography harnesses: C01 Miller indices and cells, C02 slip system families, C03 projections, Q08 fundamental sector."""
import itertools
import math
import numpy as rnp

from symx.reg import harness
from harness.quats import mul_ref, conj_ref, rotm_ref, matvec
from harness.symm import group
from harness.maps import phase, ebsd_map

HALF = rnp.pi / 2


def dot(a, b):
    r = 0
    for x, y in zip(a, b):
        r = r + x * y
    return r


def col(m, j):
    return [m[i, j] for i in range(3)]


@harness('C01', cases=[dict(conv=c, sym=s) for c, s in (('tsl', 'any'), ('tsl', 'hex'), ('hkl', 'hex'), ('hkl', 'cubic'), ('oi', 'tetragonal'), (None, 'hex'))], prune=True)
def cell(A, conv, sym):
    """every cell in the class (no angle within 0.001 of 90 degrees unless it is 90, not flat): lattice vectors and reciprocal vectors"""
    a, b, c = A.real('a', 0.5, 9), A.real('b', 0.5, 9), A.real('c', 0.5, 9)
    ang = [HALF, HALF, HALF]
    cs = [0, 0, 0]
    if sym == 'any':
        ang = [A.angle(n, 'acos', 1) for n in ('alpha', 'beta', 'gamma')]
        cs = [A.cos(t) for t in ang]
        for x in cs:
            A.assume(x * x > 1e-6)
            A.assume(x * x < 0.99)
        A.assume(A.abs(cs[0] - cs[1] * cs[2]) > 1e-6)
        A.assume(1 + 2 * cs[0] * cs[1] * cs[2] - cs[0] * cs[0] - cs[1] * cs[1] - cs[2] * cs[2] > 0.01)
    elif sym == 'hex':
        b, ang[2], cs[2] = a, 2 * rnp.pi / 3, -0.5
    elif sym == 'cubic':
        b = c = a
    elif sym == 'tetragonal':
        b = a
    cu = A.D.crystal_utils
    L = cu.create_l_matrix(a, b, c, *ang, convention=conv)
    la, lb, lc = col(L, 0), col(L, 1), col(L, 2)
    for n, v, k in (('a', la, a), ('b', lb, b), ('c', lc, c)):
        A.eq('length of ' + n, dot(v, v), k * k)
    A.eq('gamma', dot(la, lb), a * b * cs[2])
    A.eq('beta', dot(la, lc), a * c * cs[1])
    A.eq('alpha', dot(lb, lc), b * c * cs[0])
    if conv == 'tsl':
        A.eqs('x along a', la[1:], [0, 0])
    else:
        A.eqs('y along b', [lb[0], lb[2]], [0, 0])
        A.le('x along the reciprocal of a', 0, la[0])
    A.true('z along the normal of a and b', A.and_(A.same(la[2], 0), A.same(lb[2], 0), lc[2] > 0))
    Q = cu.create_q_matrix(L)
    # numpy mutates nothing
    for i in range(3):
        for j in range(3):
            A.eq('reciprocal vectors', dot(col(L, i), col(Q, j)), 1 if i == j else 0)


@harness('C01', cases=[dict()])
def conventions(A):
    """unknown conventions are refused"""
    try:
        A.D.crystal_utils.create_l_matrix(1, 1, 1, HALF, HALF, HALF, convention='nope')
        A.fail('accepted')
    except ValueError:
        A.true('refused', True)


def ints(A, name, n, b):
    return [A.int('%s%d' % (name, i), -b, b) for i in range(n)]


@harness('C01', cases=[dict(b=b) for b in (20, 400)])
def index_planes(A, b):
    """every plane with indices in [-b,b]: notation conversions are inverse and keep the plane for every c/a"""
    cu = A.D.crystal_utils
    h = ints(A, 'h', 3, b)
    mb = cu.convert_idc('m', plane=tuple(h))
    A.true('four indices', len(mb) == 4)
    A.eq('third index', mb[0] + mb[1] + mb[2], 0)
    A.eqs('kept indices', [mb[0], mb[1], mb[3]], h)
    A.eqs('back to three', cu.convert_idc('mb', plane=mb), h)
    ca = A.real('ca', 0.5, 4)
    A.eqs('same normal', cu.project_to_orth(ca, plane=mb), cu.project_to_orth(ca, plane=tuple(h), in_type='m'))


@harness('C01', cases=[dict(b=9), dict(b=150)], max_paths=60)
def index_dirs(A, b):
    """every direction with indices in [-b,b]"""
    cu = A.D.crystal_utils
    u = ints(A, 'u', 3, b)
    mb = cu.convert_idc('m', dir=tuple(u))
    A.true('four indices', len(mb) == 4)
    ca = A.real('ca', 0.5, 4)
    A.eq('third index', mb[0] + mb[1] + mb[2], 0)
    for x, w in zip(mb, [2 * u[0] - u[1], 2 * u[1] - u[0], -u[0] - u[1], 3 * u[2]]):
        A.eq('value', 3 * x, w)
    A.eqs('back to three', cu.convert_idc('mb', dir=mb), u)
    A.eqs('same direction', cu.project_to_orth(ca, dir=mb), cu.project_to_orth(ca, dir=tuple(u), in_type='m'))


@harness('C01', cases=[dict(b=40)])
def index_dirs4(A, b):
    """every four index direction and plane in [-b,b]: conversion and back; zone law for every c/a"""
    cu = A.D.crystal_utils
    u, v, w = ints(A, 'u', 3, b)
    d4 = (u, v, -u - v, w)
    m = cu.convert_idc('mb', dir=d4)
    A.eqs('three indices', m, [2 * u + v, u + 2 * v, w])
    A.eqs('back to four', cu.convert_idc('m', dir=m), d4)
    h, k, l = ints(A, 'h', 3, b)
    p4 = (h, k, -h - k, l)
    ca = A.real('ca', 0.5, 4)
    n, d = cu.project_to_orth(ca, plane=p4), cu.project_to_orth(ca, dir=d4)
    A.eq('zone law', dot(n, d), h * u + k * v + (h + k) * (u + v) + l * w)


@harness('C01', cases=[dict(n=n, b=b) for n, b in ((3, 6), (4, 3), (2, 9))], max_paths=300, time_limit=250)
def reduced(A, n, b):
    """every index vector in [-b,b] but zero: same direction, coprime"""
    cu = A.D.crystal_utils
    v = ints(A, 'v', n, b)
    A.assume(A.or_(*[A.neq(x, 0) for x in v]))
    r = cu.reduce_idc(tuple(v))
    A.true('length', len(r) == n)
    for i in range(n):
        for j in range(i):
            A.eq('same line', r[i] * v[j], r[j] * v[i])
        A.true('same sense', A.and_(A.same(r[i] > 0, v[i] > 0), A.same(r[i] < 0, v[i] < 0)))
        A.eq('whole number', r[i], A.floor(r[i]))
        A.le('not longer', A.abs(r[i]), A.abs(v[i]))
    for p in (2, 3, 5, 7):
        if p <= b:
            A.true('no common factor %d' % p, A.not_(A.and_(*[A.same(x, p * A.floor(x / p)) for x in r])))


@harness('C01', cases=[dict(scale=s) for s in (1, 7, 50, 100)], max_paths=20)
def reduced_big(A, scale):
    """multiples of every coprime pair (1, v)"""
    v = A.int('v', -20, 20)
    r = A.D.crystal_utils.reduce_idc((scale, v * scale, 0))
    A.eqs('reduced', r, [1, v, 0])


@harness('C01', cases=[dict(b=b) for b in (5, 1000)], max_paths=40)
def casting(A, b):
    """every vector in [-b,b]: the nearest whole numbers if all are within the tolerance, refused otherwise"""
    v = [A.real('v%d' % i, -b, b) for i in range(3)]
    ok = A.and_(*[A.abs(x - A.rint(x)) <= 1e-3 for x in v])
    for x in v:
        # not on the border of the tolerance
        A.assume(A.abs(A.abs(x - A.rint(x)) - 1e-3) > 1e-6)
    try:
        r = A.D.crystal_utils.safe_int_cast(v)
    except ValueError:
        A.true('refused only if not whole', A.not_(ok))
        return
    A.true('accepted only if whole', ok)
    for x, y in zip(r, v):
        A.eq('value', x, A.rint(y))


@harness('C01', cases=[dict(n=n) for n in (3, 4)], max_paths=60)
def positive(A, n):
    """every index vector but zero: first non-zero index positive, same up to sign; opposite vectors give the same"""
    cu = A.D.crystal_utils
    v = ints(A, 'v', n, 9)
    A.assume(A.or_(*[A.neq(x, 0) for x in v]))
    p = cu.pos_idc(tuple(v))
    m = cu.pos_idc(tuple(-x for x in v))
    A.eqs('opposite', m, p)
    for i in range(n):
        A.true('first is positive', A.implies(A.and_(*[A.same(p[j], 0) for j in range(i)]), 0 <= p[i]))
        for j in range(i):
            A.eq('same line', p[i] * v[j], p[j] * v[i])
        A.eq('size', p[i] * p[i], v[i] * v[i])


def cart(A, sg, ca, idc, kind):
    if sg == 'cubic':
        return list(idc)
    return A.flat(A.D.crystal_utils.project_to_orth(ca, **{kind: tuple(idc), 'in_type': 'mb'}))


EQ_CASES = [dict(sg='cubic', kind=k, v=v) for k in ('plane', 'dir') for v in ((1, 1, 's'), ('s', 2, 3), (0, 's', 's'))] + \
    [dict(sg='hexagonal', kind=k, v=v) for k in ('plane', 'dir') for v in ((1, 0, 's'), (1, 1, 2), (2, -1, 3))]


@harness('C01', cases=EQ_CASES, max_paths=120, time_limit=250)
def equivalents(A, sg, kind, v):
    """index vectors with symbolic entries, every c/a: one image per operator, upwards, the same line as the rotated vector"""
    cu = A.D.crystal_utils
    b = 3 if sg == 'cubic' else 2
    vals = [A.int('v%d' % i, -b, b) if x == 's' else x for i, x in enumerate(v)]
    if sg == 'hexagonal':
        vals = [vals[0], vals[1], -vals[0] - vals[1], vals[2]]
    A.assume(A.or_(*[A.neq(x, 0) for x in vals]))
    ca = A.real('ca', 0.8, 3) if sg == 'hexagonal' else None
    syms = A.D.crystal.crystalStructures[sg].symmetries
    out = cu.equavlent_indicies(sg, syms, c_over_a=ca, **{kind: tuple(vals)})
    A.true('one per operator', len(out) == len(group(sg)))
    n = cart(A, sg, ca, vals, kind)
    for s, o in zip(syms, out):
        r = matvec(rotm_ref([float(x) for x in s.quat_coef]), n)
        w = cart(A, sg, ca, o, kind)
        for i in range(3):
            A.eq('on the rotated line', r[(i + 1) % 3] * w[(i + 2) % 3], r[(i + 2) % 3] * w[(i + 1) % 3])
        A.true('not zero', A.or_(*[A.neq(x, 0) for x in o]))
        A.le('upper half', 0, o[-1])
        if sg == 'hexagonal':
            A.eq('third index', o[0] + o[1] + o[2], 0)


@harness('C01', cases=[dict()])
def labels(A):
    """label text of small indices, refusal of wrong lengths"""
    cu = A.D.crystal_utils
    A.eq('unicode', cu.idc_to_string((1, -2, 0), '()'), '(12\u03050)')
    A.eq('tex', cu.idc_to_string((-1, 10), str_type='tex'), '$\\bar{1}$10')
    for a in (('m', dict(plane=(1, 1, 1, 1))), ('mb', dict(plane=(1, 1, 1))), ('mb', dict(dir=(1, 1, 1))), ('m', dict(dir=(1, 2, 3, 4))), ('x', dict(dir=(1, 2, 3))), ('m', {}),
              ('m', dict(dir=(1, 1, 1), plane=(1, 1, 1)))):
        try:
            cu.convert_idc(a[0], **a[1])
            A.fail('accepted %r' % (a,))
        except ValueError:
            A.true('refused', True)


def cube(sg, A):
    return A.D.crystal.crystalStructures[sg]


def line(A, a, b):
    """integer vectors equal up to sign"""
    return A.or_(A.and_(*[A.same(x, y) for x, y in zip(a, b)]), A.and_(*[A.same(x, -y) for x, y in zip(a, b)]))


def images_idc(sg, v):
    """images of indices (three, cubic; four, hexagonal: permutations of the basal ones and signs) under the group"""
    out = []
    if sg == 'cubic':
        for p in itertools.permutations(range(3)):
            par = sum(p[i] > p[j] for i in range(3) for j in range(i + 1, 3)) % 2
            for s in itertools.product((1, -1), repeat=3):
                if (s[0] * s[1] * s[2] > 0) != bool(par):
                    out.append((p, s))
        return [lambda v, p=p, s=s: [s[i] * v[p[i]] for i in range(3)] for p, s in out]
    # six-fold axis: cyclic and sign on the basal indices; diads: swap two basal indices, with the vertical index reversed
    for p in itertools.permutations(range(3)):
        par = sum(p[i] > p[j] for i in range(3) for j in range(i + 1, 3)) % 2
        for s in (1, -1):
            # odd permutation is a mirror or a diad; on the lattice: proper rotations have sign(l) = parity
            out.append((p, s, -1 if par else 1))
    return [lambda v, p=p, s=s, t=t: [s * v[p[i]] for i in range(3)] + [(t if s == 1 else t) * v[3]] for p, s, t in out]


FAM = [dict(sg='cubic', p=p, d=d) for p, d in (((1, 1, 's'), (1, -1, 0)), ((1, 's', 't'), (1, 1, 1)), ((1, 1, 1), (1, 's', 't')), ((1, 's', 3), (1, 't', 1)))] + \
      [dict(sg='hexagonal', p=p, d=d) for p, d in (((1, 0, 's'), (1, 1, 't')), ((0, 0, 1), (1, 's', 0)), ((1, 's', 1), (1, -1, 't')), ((1, 1, 2), (1, 1, 3)))]


@harness('C02', cases=FAM, max_paths=200, time_limit=280)
def family(A, sg, p, d):
    """slip systems with some indices symbolic in [-2,2], every c/a: the family holds each symmetric image (up to sign) exactly once and nothing else"""
    sym = {k: A.int(k, -2, 2) for k in 'st' if k in p + d}
    P, Dr = ([sym.get(x, x) for x in v] for v in (p, d))
    ca = None
    if sg == 'hexagonal':
        P, Dr = ([v[0], v[1], -v[0] - v[1], v[2]] for v in (P, Dr))
        ca = A.real('ca', 0.8, 3)
    cu = A.D.crystal_utils
    if sg == 'hexagonal':
        # coprime, so that the reduced images are the images themselves
        for v in (P, Dr):
            A.assume(A.or_(*[A.same(A.abs(x), 1) for x in v]))
    SS = A.D.crystal.SlipSystem
    s0 = SS(A.arr(P), A.arr(Dr), cube(sg, A), c_over_a=ca)
    fam = list(s0.generate_family())
    imgs = images_idc(sg, P)
    A.true('number of operators', len(imgs) == (24 if sg == 'cubic' else 12))
    for k, f in enumerate(imgs):
        ip, idr = f(P), f(Dr)
        hits = [A.and_(line(A, m.plane_idc, ip), line(A, m.dir_idc, idr)) for m in fam]
        A.true('every image exactly once', A.same(A.sum([A.toint(h) for h in hits]), 1))
    for m in fam:
        A.true('only images', A.or_(*[A.and_(line(A, m.plane_idc, f(P)), line(A, m.dir_idc, f(Dr))) for f in imgs]))
        A.true('structure', m.crystal_structure is s0.crystal_structure)
        if sg == 'hexagonal':
            A.eq('c/a', m.c_over_a, ca)


@harness('C02', cases=[dict(sg=s) for s in ('cubic', 'hexagonal')], max_paths=60)
def vectors(A, sg):
    """every plane and direction with indices in [-6,6], every c/a: unit vectors along the cartesian plane normal and direction"""
    SS = A.D.crystal.SlipSystem
    p, d = ints(A, 'p', 3, 6), ints(A, 'd', 3, 6)
    A.assume(A.or_(*[A.neq(x, 0) for x in p]))
    A.assume(A.or_(*[A.neq(x, 0) for x in d]))
    if sg == 'cubic':
        s = SS(A.arr(p), A.arr(d), cube(sg, A))
        n, b = p, d
        A.true('no c/a', s.c_over_a is None)
    else:
        ca = A.real('ca', 0.8, 3)
        p, d = ([v[0], v[1], -v[0] - v[1], v[2]] for v in (p, d))
        s = SS(A.arr(p), A.arr(d), cube(sg, A), c_over_a=ca)
        # x along the first reciprocal axis, y along b (cell a1, a2 at 120 degrees)
        r3 = math.sqrt(3)
        n = [(2 * p[0] + p[1]) / r3, p[1], p[3] / ca]
        b = [r3 / 2 * (2 * d[0] + d[1]), 1.5 * d[1], ca * d[3]]
    for nm, v, w in (('plane', A.flat(s.slip_plane), n), ('direction', A.flat(s.slip_dir), b)):
        A.eq('unit ' + nm, dot(v, v), 1)
        for i in range(3):
            A.eq(nm + ' line', v[(i + 1) % 3] * w[(i + 2) % 3], v[(i + 2) % 3] * w[(i + 1) % 3])
        A.true(nm + ' sense', dot(v, w) > 0)
    A.true('indices kept', tuple(s.plane_idc) is not None)
    A.eqs('plane indices', list(s.plane_idc), p)
    A.eqs('direction indices', list(s.dir_idc), d)


@harness('C02', cases=[dict()])
def refusal(A):
    """no c/a ratio for a hexagonal system; structures other than cubic and hexagonal"""
    SS = A.D.crystal.SlipSystem
    c = cube('cubic', A)
    other = A.D.crystal.CrystalStructure('tetragonal', c.symmetries[:1], c.vertices, c.faces)
    for a in ((A.arr([0, 0, 0, 1]), A.arr([1, 1, -2, 0]), cube('hexagonal', A)), (A.arr([0, 0, 1]), A.arr([1, 1, 0]), other)):
        try:
            SS(*a)
        except Exception:
            A.true('refused', True)
        else:
            A.fail('accepted')


@harness('C02', cases=[dict(v=v) for v in (('p', 'q', 'r'), (0, 'p', 'q'))], max_paths=400, time_limit=280)
def equality(A, v):
    """two systems with symbolic planes (indices in [-6,6]) and directions of either sign: equal exactly if the same up to signs"""
    SS = A.D.crystal.SlipSystem
    st = cube('cubic', A)
    p = [A.int(x + '1', -6, 6) if isinstance(x, str) else x for x in v]
    q = [A.int(x + '2', -6, 6) if isinstance(x, str) else x for x in v]
    for x in (p, q):
        A.assume(A.or_(*[A.neq(y, 0) for y in x]))
    e = A.int('e', 0, 1) * 2 - 1
    s1, s2 = SS(A.arr(p), A.arr([1, -1, 0]), st), SS(A.arr(q), A.arr([e, -e, 0]), st)
    same = line(A, p, q)
    if s1 == s2:
        A.true('equal only if the same', same)
    else:
        A.true('different only if not the same', A.not_(same))
    s3 = SS(A.arr(p), A.arr([0, 1, -1]), st)
    A.true('other direction', not (s3 == s1))
    A.true('unequal', bool(s3 != s1))


@harness('C02', cases=[dict(what=w) for w in ('plane', 'dir')], max_paths=400, time_limit=280)
def hashing(A, what):
    """a system and the same with any signs of plane and direction (indices in [-2,2], two symbolic): one member of a set"""
    SS = A.D.crystal.SlipSystem
    st = cube('cubic', A)
    v = [A.int('v0', -2, 2), 1, A.int('v1', -2, 2)]
    w = [0, -1, 3]
    e, f = A.int('e', 0, 1) * 2 - 1, A.int('f', 0, 1) * 2 - 1
    a, b = (v, w) if what == 'plane' else (w, v)
    s1, s2 = SS(A.arr(a), A.arr(b), st), SS(A.arr([e * x for x in a]), A.arr([f * x for x in b]), st)
    A.true('equal', s1 == s2)
    A.true('equal hash', hash(s1) == hash(s2))
    A.true('one in a set', len({s1, s2}) == 1)


FILES = [('cubic_bcc', 'cubic', [12, 12, 24]), ('cubic_bcc_110only', 'cubic', [12]), ('cubic_fcc', 'cubic', [12]), ('cubic_fcc_damask', 'cubic', [12]),
         ('hexagonal_noca', 'hexagonal', [3, 3, 6]), ('hexagonal_withca', 'hexagonal', [3, 3, 6, 12])]


@harness('C02', cases=[dict(name=n, sg=s, sizes=z) for n, s, z in FILES], time_limit=250)
def files(A, name, sg, sizes):
    """the distributed slip system files for every c/a ratio: directions in planes, complete families, every system once in each grouping"""
    SS = A.D.crystal.SlipSystem
    ca = A.real('ca', 0.8, 3) if sg == 'hexagonal' else None
    flat, colours = SS.load(name, cube(sg, A), c_over_a=ca, group_by=None)
    A.true('number of systems', len(flat) == sum(sizes))
    A.true('colours', len(colours) > 0 and all(c == c.strip() and c for c in colours))
    for s in flat:
        A.eq('direction in plane', dot(A.flat(s.slip_plane), A.flat(s.slip_dir)), 0)
        A.eq('unit', dot(A.flat(s.slip_plane), A.flat(s.slip_plane)), 1)
        A.eq('unit direction', dot(A.flat(s.slip_dir), A.flat(s.slip_dir)), 1)

    def key(s):
        r = []
        for t in (s.plane_idc, s.dir_idc):
            t = [int(x) for x in t]
            r.append(max(t, [-x for x in t]))
        return tuple(map(tuple, r))
    A.true('no system twice', len({key(s) for s in flat}) == len(flat))
    imgs = images_idc(sg, None)
    planes, _ = SS.load(name, cube(sg, A), c_over_a=ca)
    A.true('same systems by plane', sorted(key(s) for g in planes for s in g) == sorted(key(s) for s in flat))
    for g in planes:
        A.true('one plane', len({key(s)[0] for s in g}) == 1)
    A.true('plane groups', len({key(g[0])[0] for g in planes}) == len(planes))
    fams, _ = SS.load(name, cube(sg, A), c_over_a=ca, group_by='family')
    A.true('same systems by family', sorted(key(s) for g in fams for s in g) == sorted(key(s) for s in flat))
    A.true('family sizes', sorted(len(g) for g in fams) == sorted(sizes))
    for g in fams:
        orb = set()
        for f in imgs:
            r = []
            for t in (g[0].plane_idc, g[0].dir_idc):
                t = f([int(x) for x in t])
                r.append(max(t, [-x for x in t]))
            orb.add(tuple(map(tuple, r)))
        A.true('complete family', {key(s) for s in g} == orb)
    # order of the file is kept within groups and between first members
    pos = {key(s): i for i, s in enumerate(flat)}
    for gr in (planes, fams):
        A.true('file order', [pos[key(g[0])] for g in gr] == sorted(pos[key(g[0])] for g in gr))


@harness('C02', cases=[dict(n=n) for n in (2, 3)], max_paths=600, time_limit=280)
def grouping(A, n):
    """systems with planes (1, 0, s) and s, sign symbolic: each system in exactly one group, groups by plane up to sign"""
    SS = A.D.crystal.SlipSystem
    st = cube('cubic', A)
    ss, pl = [], []
    for i in range(n):
        s, e = A.int('s%d' % i, -1, 1), A.int('e%d' % i, 0, 1) * 2 - 1
        pl.append([e, 0, e * s])
        ss.append(SS(A.arr(pl[-1]), A.arr([0, 1, 0]), st))
    gr = SS.group(list(ss), 'plane')
    at = [[j for j, g in enumerate(gr) if any(x is s for x in g)] for s in ss]
    A.true('every system once', all(len(x) == 1 for x in at) and sum(len(g) for g in gr) == n)
    for i in range(n):
        for j in range(i):
            A.true('together exactly for the same plane', A.same(1 if at[i] == at[j] else 0, A.toint(line(A, pl[i], pl[j]))))


@harness('C03', cases=[dict(kind=k, arr=a) for k in ('stereo', 'lambert') for a in (False, True)])
def projection(A, kind, arr):
    """every direction of the upper half space (any length 0.25 to 8): the geometric projection with the sample y axis to the right"""
    pp = A.D.plotting.PolePlot
    f = pp.stereo_project if kind == 'stereo' else pp.lambert_project
    u = A.unit('u', 3)
    A.assume(u[2] >= 0)
    k = A.real('k', 0.25, 8)
    v = [k * x for x in u]
    if arr:
        x, y = f(*[A.arr([0.6, t]) for t in v])
        x, y = x[1], y[1]
    else:
        x, y = f(*v)
    r2 = x * x + y * y
    if kind == 'stereo':
        A.eqs('from the opposite pole', [x * (1 + u[2]), y * (1 + u[2])], [u[1], -u[0]])
        A.le('inside the unit circle', r2, 1)
    else:
        A.eq('area of the cap', r2, 2 * (1 - u[2]))
        A.eq('on the azimuth', x * u[0], -y * u[1])
        A.le('sense', 0, x * u[1] - y * u[0])
        A.le('inside the circle of the half sphere', r2, 2)


@harness('C03', cases=[dict(kind=k) for k in ('stereo', 'lambert')])
def boundary(A, kind):
    """every direction of the equator falls on the boundary circle, opposite directions on opposite points; the pole on the centre"""
    pp = A.D.plotting.PolePlot
    f = pp.stereo_project if kind == 'stereo' else pp.lambert_project
    c = A.unit('c', 2)
    x, y = f(c[0], c[1], 0)
    A.eq('radius', x * x + y * y, 1 if kind == 'stereo' else 2)
    x2, y2 = f(-c[0], -c[1], 0)
    A.eqs('opposite', [x2, y2], [-x, -y])
    A.eqs('pole', f(0, 0, A.real('z', 0.25, 8)), [0, 0])
    u = A.unit('u', 3)
    A.assume(u[2] > -0.9)
    A.assume(1 - u[2] * u[2] > 1e-6)
    x, y = f(*u)
    x2, y2 = f(-u[0], -u[1], u[2])
    A.eqs('rotated by 180 degrees', [x2, y2], [-x, -y])


@harness('C03', cases=[dict(kind=k) for k in ('stereo', 'lambert')])
def polar(A, kind):
    """polar angles and vectors give the same point; other numbers of arguments are refused"""
    pp = A.D.plotting.PolePlot
    f = pp.stereo_project if kind == 'stereo' else pp.lambert_project
    be = A.angle('beta', '2pi')
    if kind == 'stereo':
        h = A.angle('h', 'atan2', 2)
        A.assume(A.cos(h) > 0.6)
        A.assume(A.sin(h) > 0.01)
        al = 2 * h
    else:
        al = A.angle('alpha', 'acos', 1)
        A.assume(A.sin(al) > 0.01)
    x, y = f(al, be)
    x2, y2 = f(A.sin(al) * A.cos(be), A.sin(al) * A.sin(be), A.cos(al))
    A.eqs('same point', [x, y], [x2, y2])
    for a in ((1,), (1, 2, 3, 4), ()):
        try:
            f(*a)
        except Exception:
            A.true('refused', True)
        else:
            A.fail('accepted %d arguments' % len(a))


@harness('C03', cases=[dict()])
def names(A):
    """projection by name, default, and function"""
    pp = A.D.plotting.PolePlot
    v = getattr(pp, '_validateProjection', None)
    if v is None:
        return
    f = lambda *a: a
    for n in ('lambert', 'Equal Area', 'equalarea'):
        A.true('equal area', v(n) is pp.lambert_project)
    for n in ('stereographic', 'Stereo', 'equal angle'):
        A.true('equal angle', v(n) is pp.stereo_project)
    A.true('function', v(f) is f)
    A.true('default', v(None) in (pp.lambert_project, pp.stereo_project))


def sector(A, sg, tri, v, m=0):
    """margin condition: v (unit) inside the fundamental sector"""
    x, y, z = v
    if sg == 'cubic':
        # 001, 011, -111
        return A.and_(-x > m, y + x > m, z - y > m)
    if tri == 'up':
        return A.and_(-x > m, y * 0.5 + x * (R3 / 2) > m, z > m)
    return A.and_(x > m, y * 0.5 - x * (R3 / 2) > m, z > m)


R3 = math.sqrt(3)


@harness('Q08', cases=[dict(sg='cubic', tri='up'), dict(sg='hexagonal', tri='up'), dict(sg='hexagonal', tri='down')], time_limit=280, prune=True)
def identity_sector(A, sg, tri):
    """every crystal direction strictly inside the sector is its own representative"""
    Quat = A.D.quat.Quat
    u = A.unit('u', 3)
    A.assume(sector(A, sg, tri, u, 1e-4))
    a, b = Quat.calc_fund_dirs([Quat(1., 0., 0., 0.)], A.arr(u), sg, triangle=tri)
    A.true('one each', len(A.flat(a)) == 1 and len(A.flat(b)) == 1)
    A.eq('z', A.cos(a[0]), u[2])
    A.eqs('xy', [A.sin(a[0]) * A.cos(b[0]), A.sin(a[0]) * A.sin(b[0])], u[:2])


@harness('Q08', cases=[dict(sg=s, tri=t, k=k, neg=n) for s, t, ks in (('cubic', 'up', range(24)), ('hexagonal', 'up', range(12)), ('hexagonal', 'down', range(12)))
                                    for k in ks for n in (False, True)], time_limit=280, prune=True)
def images(A, sg, tri, k, neg):
    """every direction strictly inside one of the symmetric images of the sector (one case per image)"""
    Quat = A.D.quat.Quat
    u = A.unit('u', 3)
    A.assume(sector(A, sg, tri, u, 1e-4))
    v = matvec(rotm_ref(group(sg)[k]), u)
    if neg:
        v = [-x for x in v]
    a, b = Quat.calc_fund_dirs([Quat(1., 0., 0., 0.)], A.arr(v), sg, triangle=tri)
    A.eq('z', A.cos(a[0]), u[2])
    A.eqs('xy', [A.sin(a[0]) * A.cos(b[0]), A.sin(a[0]) * A.sin(b[0])], u[:2])


@harness('Q08', cases=[dict(sg='cubic', tri='up'), dict(sg='hexagonal', tri='up'), dict(sg='hexagonal', tri='down')], time_limit=280, prune=True)
def rotated(A, sg, tri):
    """every orientation and every sample direction (any length): the direction in the crystal, strictly inside the sector"""
    Quat = A.D.quat.Quat
    q = A.unit('q', 4)
    u = A.unit('u', 3)
    A.assume(sector(A, sg, tri, u, 1e-4))
    r = rotm_ref(conj_ref(q))
    a, b = Quat.calc_fund_dirs([Quat(*q)], A.arr(matvec(r, u)), sg, triangle=tri)
    A.eq('z', A.cos(a[0]), u[2])
    A.eqs('xy', [A.sin(a[0]) * A.cos(b[0]), A.sin(a[0]) * A.sin(b[0])], u[:2])


CORNERS = dict(cubic=[(0, 0, 1), (0, 1 / math.sqrt(2), 1 / math.sqrt(2)), (-1 / R3, 1 / R3, 1 / R3)],
               hexagonal=[(0, 0, 1), (0, 1, 0), (-0.5, R3 / 2, 0)])


@harness('Q08', cases=[dict(sg=s, k=k, g=g) for s in ('cubic', 'hexagonal') for k in range(3) for g in (0, 1, 5, 8)], prune=True)
def corners(A, sg, k, g):
    """corner directions (any length, some symmetric images of them) and their colours"""
    Quat = A.D.quat.Quat
    f = A.real('length', 0.25, 8)
    r = rotm_ref(group(sg)[g])
    can = [0, 0.5, R3 / 2, 1, 1 / math.sqrt(2), 1 / R3]
    v = [f * min(can, key=lambda c: abs(abs(x) - c)) * (1 if x >= 0 else -1) for x in matvec(r, CORNERS[sg][k])]
    a, b = Quat.calc_fund_dirs([Quat(1., 0., 0., 0.)], A.arr(v), sg, triangle='up')
    A.eq('z', A.cos(a[0]), CORNERS[sg][k][2])
    A.eqs('xy', [A.sin(a[0]) * A.cos(b[0]), A.sin(a[0]) * A.sin(b[0])], CORNERS[sg][k][:2])
    if g < 5:
        c = Quat.calc_ipf_colours([Quat(1., 0., 0., 0.)], A.arr(v), sg, dtype=float)
        A.eqs('pure colour', A.flat(c), [1 if i == k else 0 for i in range(3)], tol=1e-5)


@harness('Q08', cases=[dict(sg=s, e=e) for s, e in (('cubic', 0), ('hexagonal', 1), ('hexagonal', 2))], prune=True, time_limit=280)
def edges_colour(A, sg, e):
    """directions along the edges of the sector: in the sector, and without the colour of the opposite corner"""
    Quat = A.D.quat.Quat
    t = A.unit('t', 2)
    A.assume(t[0] > 0.01)
    A.assume(t[1] > 0.01)
    p, q = [CORNERS[sg][i] for i in range(3) if i != e]
    n = [p[(i + 1) % 3] * q[(i + 2) % 3] - p[(i + 2) % 3] * q[(i + 1) % 3] for i in range(3)]
    m = [n[(i + 1) % 3] * p[(i + 2) % 3] - n[(i + 2) % 3] * p[(i + 1) % 3] for i in range(3)]
    l = math.sqrt(dot(m, m))
    m = [x / l for x in m]
    # before the other corner
    A.assume(t[0] * dot(n, n) ** 0.5 - t[1] * dot(p, q) > 0.001)
    u = [t[0] * x + t[1] * y for x, y in zip(p, m)]
    a, b = Quat.calc_fund_dirs([Quat(1., 0., 0., 0.)], A.arr(u), sg, triangle='up')
    A.eq('z', A.cos(a[0]), u[2])
    A.eqs('xy', [A.sin(a[0]) * A.cos(b[0]), A.sin(a[0]) * A.sin(b[0])], u[:2])
    c = A.flat(Quat.calc_ipf_colours([Quat(1., 0., 0., 0.)], A.arr(u), sg, dtype=float))
    A.eq('opposite colour', c[e], 0)
    A.eq('full', A.max(c), 1)


@harness('Q08', cases=[dict(sg='hexagonal')], prune=True, time_limit=280)
def colours(A, sg):
    """directions inside the sector (margin 0.05): each channel is the angle to the opposite edge over that of the corner, measured on the
    great circle through the corner, and the largest is scaled to one"""
    Quat = A.D.quat.Quat
    u = A.unit('u', 3)
    A.assume(sector(A, sg, 'up', u, 0.05))
    c = A.flat(Quat.calc_ipf_colours([Quat(1., 0., 0., 0.)], A.arr(u), sg, dtype=float))
    A.true('three', len(c) == 3)

    def cross(a, b):
        return [a[(i + 1) % 3] * b[(i + 2) % 3] - a[(i + 2) % 3] * b[(i + 1) % 3] for i in range(3)]
    ref = []
    for k in range(3):
        p, q = [CORNERS[sg][i] for i in range(3) if i != k]
        w = CORNERS[sg][k]
        # point of the opposite edge on the great circle through corner and direction
        x = cross(cross(u, w), cross(p, q))
        s = A.sqrt(dot(x, x))
        x = [y / s for y in x]
        if A.np.arccos(A.np.clip(dot(u, x), -1, 1)) > A.np.pi / 2:
            x = [-y for y in x]
        ref.append([A.np.arccos(A.np.clip(dot(v, x), -1, 1)) for v in (u, w)])
    for k in range(3):
        for j in range(k):
            A.eq('ratio of channels', c[k] * ref[j][0] * ref[k][1], c[j] * ref[k][0] * ref[j][1])
    A.eq('scaled', A.max(c), 1)
