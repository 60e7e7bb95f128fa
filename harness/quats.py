"""Quaternion harnesses (Q01 product algebra, Q02 Euler angles, Q03 rotation
matrix / vectors / axis-angle, Q04 bulk = scalar)."""
from symx.reg import harness


def mul_ref(a, b):
    """Hamilton product of 4-lists."""
    return [a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
            a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
            a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
            a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0]]


def conj_ref(a):
    return [a[0], -a[1], -a[2], -a[3]]


def rotm_ref(q):
    """rotation matrix of a quaternion: v -> q v q* (row lists)"""
    w, x, y, z = q
    return [[w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)],
            [2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)],
            [2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z]]


def matvec(m, v):
    return [sum(m[i][j] * v[j] for j in range(3)) for i in range(3)]


def eq_rot(A, label, q, r, tol=1e-6):
    """q and r (4 components) describe the same rotation: q = +r or q = -r,
    decided by equality of the outer products."""
    q, r = A.flat(q), A.flat(r)
    for i in range(4):
        for j in range(i, 4):
            A.eq('%s (component %d%d)' % (label, i, j), q[i] * q[j], r[i] * r[j], tol)


def hemi(A, label, q):
    A.le(label + ' hemisphere', 0, A.flat(q)[0])


@harness('Q01')
def product(A):
    """all unit quaternions a, b"""
    Quat = A.D.quat.Quat
    a, b = A.unit('a', 4), A.unit('b', 4)
    p = Quat(*a) * Quat(*b)
    eq_rot(A, 'product', p, mul_ref(a, b))
    hemi(A, 'product', p)
    A.observe('p', p)


@harness('Q01')
def construct(A):
    """all 4-vectors of reals (constructor), all unit a (conjugate/inverse)"""
    Quat = A.D.quat.Quat
    a = A.reals('a', 4)
    q = Quat(*a)
    q2 = Quat(A.arr(a))
    q3 = Quat(*a, allow_southern=True)
    eq_rot(A, 'constructor', q, a)
    hemi(A, 'constructor', q)
    A.eqs('array constructor', A.flat(q2), A.flat(q))
    A.eqs('southern allowed', A.flat(q3), a)
    m = Quat(*[-x for x in a])
    A.true('q and -q are the same object value', A.implies(a[0] != 0, q == m))
    A.eq('norm squared', q.norm() * q.norm(), sum(x * x for x in a))
    A.eq('dot', q3.dot(Quat(1., 2., 3., 4.)), a[0] + 2 * a[1] + 3 * a[2] + 4 * a[3])
    A.eqs('getitem', [q3[i] for i in range(4)], a)


@harness('Q01')
def inverse(A):
    """all unit a: conjugate is the inverse rotation"""
    Quat = A.D.quat.Quat
    a = A.unit('a', 4)
    q = Quat(*a)
    eq_rot(A, 'conjugate', q.conjugate, conj_ref(a))
    A.eqs('q q* = 1', A.flat(q * q.conjugate), [1, 0, 0, 0])
    A.eqs('q* q = 1', A.flat(q.conjugate * q), [1, 0, 0, 0])
    A.eqs('double conjugate', A.flat(q.conjugate.conjugate), A.flat(q))
    A.eqs('identity', A.flat(Quat(1, 0, 0, 0) * q), A.flat(q))


@harness('Q01')
def normalise(A):
    """all non-zero 4-vectors with a0 >= 0"""
    Quat = A.D.quat.Quat
    a = A.reals('a', 4, -100, 100)
    A.assume(a[0] > 0)
    q = Quat(*a)
    q.normalise()
    n = A.sqrt(sum(x * x for x in a))
    A.eqs('normalised', [x * n for x in A.flat(q)], a)


@harness('Q01', cases=[dict(n=1), dict(n=3)])
def many(A, n):
    """batch multiplication of n unit quaternions by a unit quaternion"""
    Quat = A.D.quat.Quat
    b = A.unit('b', 4)
    qs = [A.unit('a%d' % i, 4) for i in range(n)]
    r = Quat.multiply_many_quats([Quat(*q) for q in qs], Quat(*b))
    A.eq('count', len(r), n)
    for i, q in enumerate(qs):
        eq_rot(A, 'batch product', r[i], mul_ref(q, b))
        hemi(A, 'batch product', r[i])


def bunge_active(A, e):
    """passive Bunge matrix g (sample -> crystal), from cos/sin of the angles"""
    c1, s1, c, s, c2, s2 = (A.cos(e[0]), A.sin(e[0]), A.cos(e[1]), A.sin(e[1]), A.cos(e[2]), A.sin(e[2]))
    return [[c1 * c2 - s1 * s2 * c, s1 * c2 + c1 * s2 * c, s2 * s],
            [-c1 * s2 - s1 * c2 * c, -s1 * s2 + c1 * c2 * c, c2 * s],
            [s1 * s, -c1 * s, c]]


@harness('Q02')
def euler_to_matrix(A):
    """all Euler triples in [0,2pi]x[0,pi]x[0,2pi]"""
    Quat = A.D.quat.Quat
    e = [A.angle('ph1'), A.angle('phi', 'acos'), A.angle('ph2')]
    q = Quat.from_euler_angles(*e)
    m = q.rot_matrix()
    g = bunge_active(A, e)
    for i in range(3):
        for j in range(3):
            A.eq('Bunge matrix %d%d' % (i, j), m[i, j], g[i][j])
    A.eq('unit', sum(x * x for x in A.flat(q)), 1)
    hemi(A, 'from euler', q)
    A.observe('q', q)


@harness('Q02')
def quat_to_euler(A):
    """all unit quaternions: the Euler angles returned describe the same rotation and are in range"""
    Quat = A.D.quat.Quat
    a = A.unit('a', 4)
    q = Quat(*a)
    e = q.euler_angles()
    g = bunge_active(A, e)
    m = rotm_ref(a)
    for i in range(3):
        for j in range(3):
            A.eq('matrix %d%d' % (i, j), g[i][j], m[i][j])
    A.le('ph1 >= 0', 0, e[0])
    A.true('ph1 < 2pi', e[0] < 2 * A.pi + 1e-9)
    A.le('phi >= 0', 0, e[1])
    A.le('phi <= pi', e[1], A.pi)
    A.le('ph2 >= 0', 0, e[2])
    A.true('ph2 < 2pi', e[2] < 2 * A.pi + 1e-9)
    A.observe('e', [f(x) for x in e for f in (A.cos, A.sin)])


@harness('Q02')
def round_trip(A):
    """all Euler triples with 0 < Phi < pi: angles -> quaternion -> angles"""
    Quat = A.D.quat.Quat
    e = [A.angle('ph1'), A.angle('phi', 'acos'), A.angle('ph2')]
    A.assume(A.sin(e[1]) > 0.001)
    r = Quat.from_euler_angles(*e).euler_angles()
    for i in range(3):
        A.eq('cos of angle %d' % i, A.cos(r[i]), A.cos(e[i]))
        A.eq('sin of angle %d' % i, A.sin(r[i]), A.sin(e[i]))


@harness('Q03')
def matrix(A):
    """all unit quaternions"""
    Quat = A.D.quat.Quat
    a = A.unit('a', 4)
    m = Quat(*a).rot_matrix()
    r = rotm_ref(a)
    for i in range(3):
        for j in range(3):
            A.eq('rotation matrix %d%d' % (i, j), m[i, j], r[i][j])
            A.eq('orthonormal rows', sum(m[i, k] * m[j, k] for k in range(3)), 1 if i == j else 0)
    A.observe('m', m)


@harness('Q03', cases=[dict(kind='array'), dict(kind='list'), dict(kind='tuple')])
def vector(A, kind):
    """all unit quaternions, all real vectors of length 3"""
    Quat = A.D.quat.Quat
    a = A.unit('a', 4)
    v = A.reals('v', 3)
    vin = {'array': A.arr(v), 'list': list(v), 'tuple': tuple(v)}[kind]
    q = Quat(*a)
    r = q.transform_vector(vin)
    A.eqs('transform', r, matvec(rotm_ref(a), v))
    back = q.conjugate.transform_vector(r)
    A.eqs('inverse transform', back, v)


@harness('Q03')
def composed(A):
    """all unit a, b and vectors v: (a b) v = a (b v)"""
    Quat = A.D.quat.Quat
    a, b = A.unit('a', 4), A.unit('b', 4)
    v = A.reals('v', 3)
    qa, qb = Quat(*a), Quat(*b)
    A.eqs('composition', (qa * qb).transform_vector(v), qa.transform_vector(A.arr(qb.transform_vector(v))))


@harness('Q03')
def axis_angle(A):
    """all axes (any non-zero length) and angles in [0, pi]; vectors v"""
    Quat = A.D.quat.Quat
    n = A.unit('n', 3)
    k = A.real('k', 0.25, 8)
    t = A.angle('t', '2pi')
    q = Quat.from_axis_angle(A.arr([k * x for x in n]), t)
    # passive rotation: v -> R(n, -t) v  (Rodrigues)
    c, s = A.cos(t), A.sin(t)
    m = q.rot_matrix()
    R = [[0] * 3 for _ in range(3)]
    K = [[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]]
    for i in range(3):
        for j in range(3):
            R[i][j] = (c if i == j else 0) + (1 - c) * n[i] * n[j] - s * K[i][j]
            A.eq('axis-angle matrix %d%d' % (i, j), m[i, j], R[i][j])
    hemi(A, 'axis angle', q)


@harness('Q03')
def mis_ori_axis(A):
    """all unit a, b (northern hemisphere) that are not the same rotation"""
    Quat = A.D.quat.Quat
    a, b = A.unit('a', 4, pos=True), A.unit('b', 4, pos=True)
    d = mul_ref(b, conj_ref(a))
    A.assume(d[0] * d[0] < 0.999)
    ax = Quat(*a).mis_ori_axis(Quat(*b))
    # angle/axis: parallel to vector part of b a*, length = misorientation angle
    sg = A.ite(d[0] < 0, -1, 1)
    w = A.acos(sg * d[0])
    n = A.sqrt(1 - d[0] * d[0])
    for i in range(3):
        A.eq('axis component %d' % i, ax[i] * n, 2 * w * sg * d[i + 1])


@harness('Q04', cases=[dict(n=2, m=0), dict(n=1, m=2)])
def create_many(A, n, m):
    """arrays of Euler angles of shape 3 x n (x m)"""
    Quat = A.D.quat.Quat
    shape = (3, n, m) if m else (3, n)
    import numpy as rnp
    es = [A.angle('e%d' % i, 'acos' if i // max(1, n * (m or 1)) == 1 else '2pi') for i in range(3 * n * (m or 1))]
    e = A.arr(es).reshape(shape)
    qs = Quat.create_many_quats(e)
    A.true('shape', tuple(qs.shape) == tuple(shape[1:]))
    comps = Quat.extract_quat_comps(qs)
    A.true('shape of components', tuple(comps.shape) == (4,) + tuple(shape[1:]))
    for k, idx in enumerate(rnp.ndindex(*shape[1:])):
        o = Quat.from_euler_angles(*[e[(i,) + idx] for i in range(3)])
        A.eqs('bulk = scalar', A.flat(qs[idx]), A.flat(o))
        A.eqs('components', [comps[(i,) + idx] for i in range(4)], A.flat(o))


@harness('Q04', cases=[dict(sg='cubic', n=1), dict(sg='hexagonal', n=1), dict(sg='hexagonal', n=2), dict(sg='other', n=2)])
def sym_eqvs(A, sg, n):
    """n unit orientations, symmetry group sg"""
    Quat = A.D.quat.Quat
    qs = [A.unit('q%d' % i, 4) for i in range(n)]
    r = Quat.calc_sym_eqvs([Quat(*q) for q in qs], sg)
    syms = Quat.sym_eqv(sg)
    ns = {'cubic': 24, 'hexagonal': 12, 'other': 1}[sg]
    A.true('shape', tuple(r.shape) == (ns, 4, n))
    for i, s in enumerate(syms):
        for k in range(n):
            # representative of s*q in the northern hemisphere
            eq_rot(A, 'equivalent', [r[i, c, k] for c in range(4)], A.flat(s * Quat(*qs[k])))
            A.le('hemisphere', 0, r[i, 0, k])


@harness('Q04', cases=[dict(sg='hexagonal', n=2)], thorough=dict())
def calc_mis_ori(A, sg, n):
    """n arbitrary component columns x equivalents (2 rows), reference unit orientation"""
    Quat = A.D.quat.Quat
    ns = 3
    comps = A.arr(A.reals('c', ns * 4 * n, -0.5, 0.5)).reshape((ns, 4, n))
    ref = A.unit('r', 4)
    mo, mq = Quat.calcMisOri(comps, Quat(*ref))
    rq = A.flat(Quat(*ref))
    for k in range(n):
        dots = [A.abs(sum(comps[i, c, k] * rq[c] for c in range(4))) for i in range(ns)]
        A.eq('smallest misorientation', mo[k], A.min([1, A.max(dots)]))
        A.eq('returned equivalent attains it', A.abs(sum(mq[c, k] * rq[c] for c in range(4))), A.max(dots))
        A.true('returned equivalent is one of them', A.or_(*[
            A.and_(*[A.close(mq[c, k], comps[i, c, k]) for c in range(4)]) for i in range(ns)]))
