"""Crystal symmetry harnesses (Q05 misorientation, Q06 symmetry group, Q07 mean
orientation, Q08 inverse pole figure sector and colours)."""
import itertools
import math

from symx.reg import harness
from harness.quats import mul_ref, conj_ref, rotm_ref, matvec, eq_rot, hemi

R2, R3 = math.sqrt(2), math.sqrt(3)


def group(sg):
    """rotation group computed here from its generators: proper rotations as
    quaternions in the northern hemisphere (independent of the code under test)"""
    if sg == 'cubic':
        gens = [(R2 / 2, R2 / 2, 0, 0), (R2 / 2, 0, R2 / 2, 0)]
    elif sg == 'hexagonal':
        gens = [(R3 / 2, 0, 0, 0.5), (0, 1, 0, 0)]
    else:
        return [(1., 0., 0., 0.)]
    canon = [0, 0.5, R2 / 2, R3 / 2, 1]

    def norm(q):
        q = [min((c for c in canon), key=lambda c: abs(abs(x) - c)) * (1 if x >= 0 else -1) for x in q]
        for x in q:
            if abs(x) > 1e-9:
                if x < 0:
                    q = [-y for y in q]
                break
        return tuple(0.0 if y == 0 else y for y in q)
    out = [(1., 0., 0., 0.)]
    i = 0
    while i < len(out):
        for g in gens:
            n = norm(mul_ref(g, out[i]))
            if n not in out:
                out.append(n)
        i += 1
    assert len(out) == {'cubic': 24, 'hexagonal': 12}[sg], len(out)
    return out


SG = ['cubic', 'hexagonal']


@harness('Q05', cases=[dict(sg=s) for s in SG + ['unknown']], time_limit=200)
def value(A, sg):
    """all pairs of unit quaternions (northern): the value is the largest |a . (s b)| over the symmetry group"""
    Quat = A.D.quat.Quat
    a, b = A.unit('a', 4, pos=True), A.unit('b', 4, pos=True)
    v = Quat(*a).mis_ori(Quat(*b), sg)
    dots = [A.abs(sum(x * y for x, y in zip(a, mul_ref(s, b)))) for s in group(sg)]
    A.eq('largest |dot| over the group', v, A.max(dots))
    A.observe('v', v)


@harness('Q05', cases=[dict(sg=s) for s in SG], time_limit=200)
def symmetric(A, sg):
    """misorientation does not depend on argument order"""
    Quat = A.D.quat.Quat
    a, b = A.unit('a', 4, pos=True), A.unit('b', 4, pos=True)
    A.eq('order of arguments', Quat(*a).mis_ori(Quat(*b), sg), Quat(*b).mis_ori(Quat(*a), sg))


@harness('Q05', cases=[dict(sg=s, side=d) for s in SG for d in 'ab'], time_limit=300)
def invariant(A, sg, side):
    """replacing either orientation by any symmetric equivalent (generators of the group)"""
    Quat = A.D.quat.Quat
    a, b = A.unit('a', 4, pos=True), A.unit('b', 4, pos=True)
    v = Quat(*a).mis_ori(Quat(*b), sg)
    for k in ([1, 4] if sg == 'cubic' else [1, 4]):
        s = Quat.sym_eqv(sg)[k]
        if side == 'a':
            w = (s * Quat(*a)).mis_ori(Quat(*b), sg)
        else:
            w = Quat(*a).mis_ori(s * Quat(*b), sg)
        A.eq('symmetric equivalent', w, v)


@harness('Q05', cases=lambda tier: [dict(sg=s, k=k) for s in SG for k in (
    {'cubic': (0, 6, 13, 22), 'hexagonal': (0, 3, 5, 10)} if tier == 'quick' else {'cubic': range(24), 'hexagonal': range(12)})[s]],
    time_limit=250, prune=True)
def equivalent(A, sg, k):
    """the returned equivalent of the second orientation attains the misorientation; one case per symmetry
    operator that is the strictly closest one (quick: 4 operators of each group, thorough: all) (ties closer than 1e-6 in |dot| excluded)"""
    Quat = A.D.quat.Quat
    a, b = A.unit('a', 4, pos=True), A.unit('b', 4, pos=True)
    g = group(sg)
    ad = [A.abs(A.dotv(a, mul_ref(s, b))) for s in g]
    for j in range(len(g)):
        if j != k:
            A.assume(ad[k] > ad[j] + 1e-6)
    q1 = Quat(*a).mis_ori(Quat(*b), sg, return_quat=1)
    m2, q2 = Quat(*a).mis_ori(Quat(*b), sg, return_quat=2)
    A.eq('value', m2, ad[k])
    eq_rot(A, 'equivalent', q1, mul_ref(g[k], b))
    eq_rot(A, 'equivalent (both)', q2, mul_ref(g[k], b))
    hemi(A, 'equivalent', q1)


def qkey(A, q):
    return [x for x in A.flat(q)]


@harness('Q06', cases=[dict(sg=s) for s in SG], time_limit=200)
def closure(A, sg):
    """symbolic unit q and symbolic operator numbers i, j (all pairs): s_i s_j q is s_k q for some k"""
    Quat = A.D.quat.Quat
    syms = Quat.sym_eqv(sg)
    n = len(syms)
    A.eq('number of operators', n, {'cubic': 24, 'hexagonal': 12}[sg])
    i, j = A.int('i', 0, n - 1), A.int('j', 0, n - 1)
    comp = A.arr([A.flat(s) for s in syms])
    a = [comp[i, c] for c in range(4)]
    b = [comp[j, c] for c in range(4)]
    A.eq('unit', sum(x * x for x in a), 1)
    A.true('distinct operators', A.or_(A.same(i, j), A.abs(A.dotv(a, b)) < 1 - 1e-6))
    p = mul_ref(a, b)
    A.true('product is an operator', A.or_(*[A.abs(A.dotv(p, A.flat(s))) > 1 - 1e-9 for s in syms]))
    A.true('inverse is an operator', A.or_(*[A.abs(A.dotv(conj_ref(a), A.flat(s))) > 1 - 1e-9 for s in syms]))
    A.true('operator of the point group', A.or_(*[A.abs(A.dotv(a, s)) > 1 - 1e-9 for s in group(sg)]))
    A.true('first is the identity', A.and_(*[A.close(x, y) for x, y in zip(A.flat(syms[0]), [1, 0, 0, 0])]))


@harness('Q06', cases=[dict(sg=s) for s in SG], time_limit=200)
def lattice(A, sg):
    """every operator (symbolic number) maps every lattice vector with symbolic integer indices in [-9,9] onto a lattice vector
    of the same length (cubic: integer vectors; hexagonal: basis a1=(1,0,0), a2=(-1/2,sqrt3/2,0), c)"""
    Quat = A.D.quat.Quat
    syms = Quat.sym_eqv(sg)
    i = A.int('i', 0, len(syms) - 1)
    h = [A.int('h%d' % k, -9, 9) for k in range(3)]
    M = A.arr([s.rot_matrix() for s in syms])
    if sg == 'cubic':
        v = [A.num(x) * 1.0 for x in h]
    else:
        v = [h[0] - 0.5 * h[1], R3 / 2 * h[1], 1.633 * h[2]]
    w = [sum(M[i, r, c] * v[c] for c in range(3)) for r in range(3)]
    if sg == 'hexagonal':
        w = [w[0] + w[1] / R3, 2 * w[1] / R3, w[2] / 1.633]
    for k in range(3):
        if A.sym:
            A.true('lattice vector', A.core.Bool(A.core.z3.IsInt(A.c.zr(w[k])), frozenset(w[k].atoms())))
        else:
            A.true('lattice vector', abs(w[k] - round(float(w[k]))) < 1e-6)


@harness('Q07', cases=[dict(ns=n, k=k, sg=s) for n in (1, 3) for k in range(n) for s in (1, -1)], time_limit=200, prune=True)
def mean_two(A, ns, k, sg):
    """two orientations given as stacks of ns arbitrary northern unit quaternions; one case per equivalent k of the second that is
    strictly closest to the first (margin 1e-3) and per sign of its dot product"""
    Quat = A.D.quat.Quat
    a = A.unit('a', 4, pos=True)
    eqv = [A.unit('b%d' % i, 4, pos=True) for i in range(ns)]
    dots = [A.dotv(a, e) for e in eqv]
    A.assume(sg * dots[k] > 1e-3)
    for i in range(ns):
        if i != k:
            A.assume(sg * dots[k] > dots[i] + 1e-3)
            A.assume(sg * dots[k] > 1e-3 - dots[i])
    comps = A.np.empty((ns, 4, 2))
    for i in range(ns):
        for c in range(4):
            comps[i, c, 0] = a[c]          # only the first row of the first point matters
            comps[i, c, 1] = eqv[i][c]
    r = A.flat(Quat.calc_average_ori(comps))
    A.eq('unit', A.dotv(r, r), 1)
    w = [x + sg * y for x, y in zip(a, eqv[k])]
    for i in range(4):
        for m in range(i):
            A.eq('mean is the bisector of the first and the closest equivalent of the second', r[i] * w[m], r[m] * w[i])


@harness('Q07', cases=lambda tier: [dict(sg=s, n=n) for s in SG for n in ((2, 3) if tier == 'quick' else (2, 3, 4))], time_limit=250, prune=True)
def mean_same(A, sg, n):
    """n points that are all symmetric equivalents (symbolic operator numbers) of one orientation"""
    Quat = A.D.quat.Quat
    g = group(sg)
    q = A.unit('q', 4, pos=True)
    # the equivalents of every point, computed by the code itself, from representatives s_k q
    reps = [Quat(*q)]
    for i in range(1, n):
        k = [1, 7, 16][i - 1] if sg == 'cubic' else [1, 4, 8][i - 1]
        reps.append(Quat(*mul_ref(g[k], q)))
    av = Quat.calc_average_ori(Quat.calc_sym_eqvs(reps, sg))
    A.eqs('mean of one orientation', [A.abs(A.dotv(A.flat(av), q))], [1])
    mo, _ = Quat.calcMisOri(Quat.calc_sym_eqvs(reps, sg), av)
    for i in range(n):
        A.eq('no misorientation', mo[i], 1)
