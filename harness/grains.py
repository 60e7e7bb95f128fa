"""Grain level EBSD harnesses: E05 deviation from the mean orientation, E06 Schmid factors, E07 slip traces, E08 map rotation."""
import itertools
import math
import numpy as rnp

from symx.reg import harness
from harness.quats import mul_ref, conj_ref, rotm_ref, matvec, eq_rot
from harness.symm import group
from harness.maps import ebsd_map, phase


def tr(m):
    return [[m[j][i] for j in range(3)] for i in range(3)]


def to_crystal(q, v):
    """sample to crystal coordinates for an orientation (passive rotation, stored as its conjugate)"""
    return matvec(rotm_ref(q), v)


def to_sample(q, v):
    return matvec(tr(rotm_ref(q)), v)


def grain_on(A, m, i, pts, ph=0):
    g = A.D.ebsd.Grain(i, m, 'grp')
    g.data.point = rnp.array(pts)
    g.phase_id = ph
    g.phase = m.phases[ph]
    return g


def set_grains(A, m, gs):
    """the map's grains: list and label image"""
    lab = A.np.zeros(m.shape, dtype=int)
    for i, g in enumerate(gs):
        for x, y in g.data.point:
            lab[int(y), int(x)] = i + 1
    m._grains = gs
    m.data.grains = lab


PTS = [(1, 0), (0, 1), (2, 1), (0, 0)]


def dev_cases(tier):
    out = []
    for sg, ks in (('cubic', (0, 1, 5, 14, 23)), ('hexagonal', (0, 2, 8, 11))):
        n = len(group(sg))
        ks = range(n) if tier == 'thorough' else ks
        for k in ks:
            out.append(dict(sg=sg, kk=(k,)))
        out.append(dict(sg=sg, kk=(3, 0)))
    return out


@harness('E05', cases=dev_cases, time_limit=300, prune=True)
def deviation(A, sg, kk):
    """every orientation at the points of a grain of 1 (2) points and every reference, where operator k gives the closest
    equivalent of point i, strictly (by 1e-6), and the misorientation is not zero (or 180 degrees)"""
    Quat = A.D.quat.Quat
    G = group(sg)
    n = len(kk)
    r = A.unit('r', 4, pos=True)
    pts = PTS[:n]
    q = {}
    for i, k in enumerate(kk):
        q[i] = A.unit('q%d' % i, 4, pos=True)
        ad = [A.abs(A.dotv(r, mul_ref(s, q[i]))) for s in G]
        for j in range(len(G)):
            if j != k:
                A.assume(ad[k] > ad[j] + 1e-6)
        d = A.dotv(r, mul_ref(G[k], q[i]))
        A.assume(d * d < 1 - 1e-6)
        A.assume(A.neq(d, 0))
    quats = {ix: Quat(1., 0., 0., 0.) for ix in rnp.ndindex(2, 3)}
    for i, p in enumerate(pts):
        quats[p[::-1]] = Quat(*q[i])
    m = ebsd_map(A, (2, 3), [phase(A, sg)], quats=quats)
    g = grain_on(A, m, 0, pts)
    g.ref_ori = Quat(*r)
    grod, axis = g.data.GROD, g.data.GROD_axis
    g.build_mis_ori_list(calc_axis=True)
    A.true('sizes', grod.shape == (n,) and tuple(axis.shape) == (3, n) and len(g.mis_ori_list) == n and len(g.mis_ori_axis_list) == n)
    tot = 0
    for i, k in enumerate(kk):
        s = mul_ref(G[k], q[i])
        d = A.dotv(r, s)
        c = A.abs(d)
        A.eq('misorientation value', g.mis_ori_list[i], c)
        A.eq('cosine of half the deviation', A.cos(grod[i] / 2), c)
        A.le('deviation >= 0', 0, grod[i])
        tot = tot + c
        dq = mul_ref(s, conj_ref(r))
        sg_ = A.ite(dq[0] < 0, -1, 1)
        for j in range(3):
            w = 2 * A.acos(dq[0] * sg_) * dq[j + 1] * sg_
            nrm = A.sqrt(1 - dq[0] * dq[0])
            A.eq('rotation axis', g.mis_ori_axis_list[i][j] * nrm, w)
            A.eq('GROD axis', axis[j, i] * nrm, w)
    A.eq('mean over the grain', g.average_mis_ori * n, tot)
    A.true('reference kept', g.ref_ori is not None and A.same(g.ref_ori[0], r[0]))


@harness('E05', cases=[dict(sg=s, n=n) for s in ('cubic', 'hexagonal') for n in (1, 3)], time_limit=250, prune=True)
def to_mean(A, sg, n):
    """points which are fixed symmetric equivalents of one orientation (every one): no deviation from the mean, which is computed on demand"""
    Quat = A.D.quat.Quat
    G = group(sg)
    q = A.unit('q', 4, pos=True)
    quats = {ix: Quat(1., 0., 0., 0.) for ix in rnp.ndindex(2, 3)}
    for i, p in enumerate(PTS[:n]):
        quats[p[::-1]] = Quat(*mul_ref(G[(5 * i) % len(G)], q))
    m = ebsd_map(A, (2, 3), [phase(A, sg)], quats=quats)
    g = grain_on(A, m, 0, PTS[:n])
    g.build_mis_ori_list()
    A.eqs('values', g.mis_ori_list, [1] * n)
    A.eq('mean', g.average_mis_ori, 1)
    best = A.max([A.abs(A.dotv(g.ref_ori.quat_coef, mul_ref(s, q))) for s in G])
    A.eq('reference is the mean orientation', best, 1)


@harness('E05', cases=[dict(comp=c) for c in range(4)], time_limit=200)
def misori_map(A, comp):
    """any stored values for two grains: the map plot shows at each point the value of that point"""
    m = ebsd_map(A, (2, 3), [phase(A, 'cubic')])
    pts = [[(1, 0), (0, 1)], [(2, 1), (0, 0), (2, 0)]]
    set_grains(A, m, [grain_on(A, m, i, p) for i, p in enumerate(pts)])
    want = {}
    for g, ps in zip(m._grains, pts):
        g.mis_ori_list = [A.real('v%d%d' % p, 0.1, 0.9) for p in ps]
        ax = [A.reals('a%d%d' % p, 3, -2, 2) for p in ps]
        g.mis_ori_axis_list = [A.arr(a) for a in ax]
        for i, p in enumerate(ps):
            want[p[::-1]] = ax[i][comp - 1] if comp else g.mis_ori_list[i]
    got = []

    class Cap:
        @classmethod
        def create(cls, cm, data, **kw):
            got.append(data)
    A.patch(A.D.ebsd, 'MapPlot', Cap)
    m.plot_mis_ori_map(component=comp)
    d = got[0]
    for ix in rnp.ndindex(2, 3):
        if comp:
            A.eq('rotation component in degrees', d[ix], want.get(ix, 0) * 180 / A.pi)
        else:
            A.eq('cosine of half the angle in degrees', A.cos(d[ix] * A.pi / 360), want.get(ix, 1))


STRUCT = {'cubic': (11, 225, ['cubic_fcc', 'cubic_bcc']), 'hexagonal': (9, 194, ['hexagonal_withca', 'hexagonal_noca'])}


def ss_phase(A, sg, file):
    """phase with the slip systems of a distributed file"""
    p = phase(A, sg)
    p.slip_systems, p.slip_trace_colours = A.D.crystal.SlipSystem.load(file, p.crystal_structure, c_over_a=p.c_over_a)
    return p


SF_FILES = [('cubic', 'cubic_fcc'), ('cubic', 'cubic_bcc'), ('hexagonal', 'hexagonal_withca'), ('hexagonal', 'hexagonal_noca')]


def sf_ref(A, q, l, ss):
    c = to_crystal(q, l)
    return A.abs(A.dotv(c, [float(v) for v in ss.slip_plane]) * A.dotv(c, [float(v) for v in ss.slip_dir]))


@harness('E06', cases=[dict(sg=s, file=f) for s, f in SF_FILES], time_limit=250)
def schmid(A, sg, file):
    """every load direction and mean orientation of two grains, every slip system of the distributed files"""
    Quat = A.D.quat.Quat
    m = ebsd_map(A, (1, 3), [ss_phase(A, sg, file)])
    gs = [grain_on(A, m, 0, [(1, 0), (0, 0)]), grain_on(A, m, 1, [(2, 0)])]
    set_grains(A, m, gs)
    l = A.unit('l', 3)
    q = [A.unit('q%d' % i, 4, pos=True) for i in range(2)]
    for i, g in enumerate(gs):
        g.ref_ori = Quat(*q[i])
    m.calc_average_grain_schmid_factors(A.arr(l))
    for i, g in enumerate(gs):
        A.eq('groups', len(g.average_schmid_factors), len(g.phase.slip_systems))
        for got, grp in zip(g.average_schmid_factors, g.phase.slip_systems):
            A.eq('systems', len(got), len(grp))
            for v, ss in zip(got, grp):
                A.eq('Schmid factor', v, sf_ref(A, q[i], l, ss))
    # a selection of systems
    sel = [m.phases[0].slip_systems[1][:2], m.phases[0].slip_systems[0][1:]]
    gs[0].calc_average_schmid_factors(A.arr(l), slip_systems=sel)
    A.true('selected systems', [len(x) for x in gs[0].average_schmid_factors] == [len(x) for x in sel])
    for got, grp in zip(gs[0].average_schmid_factors, sel):
        for v, ss in zip(got, grp):
            A.eq('Schmid factor of selected system', v, sf_ref(A, q[0], l, ss))


@harness('E06', cases=[dict(sg=s, file=f) for s, f in SF_FILES], time_limit=250)
def schmid_range(A, sg, file):
    """every load direction (crystal frame): 0 to 0.5"""
    Quat = A.D.quat.Quat
    m = ebsd_map(A, (1, 1), [ss_phase(A, sg, file)])
    g = grain_on(A, m, 0, [(0, 0)])
    l = A.unit('l', 3)
    g.ref_ori = Quat(1., 0., 0., 0.)
    g.calc_average_schmid_factors(A.arr(l))
    for grp in g.average_schmid_factors:
        for v in grp:
            A.le('at least 0', 0, v)
            A.le('at most a half', v, 0.5 + 1e-6, 1e-6)


@harness('E06', cases=[dict(sg=s, file=f) for s, f in SF_FILES], time_limit=250)
def schmid_symmetry(A, sg, file):
    """every load direction in the crystal frame, every symmetry operator as orientation: the factors of the systems are permuted"""
    Quat = A.D.quat.Quat
    p = ss_phase(A, sg, file)
    m = ebsd_map(A, (1, 1), [p])
    g = grain_on(A, m, 0, [(0, 0)])
    l = A.unit('l', 3)
    flat = [ss for grp in p.slip_systems for ss in grp]
    num = [(rnp.array([float(v) for v in ss.slip_plane]), rnp.array([float(v) for v in ss.slip_dir])) for ss in flat]

    def sfs(x):
        g.ref_ori = Quat(*x)
        g.calc_average_schmid_factors(A.arr(l))
        return A.flat(g.average_schmid_factors)
    base = sfs([1., 0., 0., 0.])
    for s in group(sg)[1:]:
        R = rnp.array(rotm_ref(s))
        perm = []
        for n, d in num:
            hit = [j for j, (n2, d2) in enumerate(num)
                   if min(abs(R @ n - n2).max(), abs(R @ n + n2).max()) < 1e-6 and min(abs(R @ d - d2).max(), abs(R @ d + d2).max()) < 1e-6]
            perm.append(hit)
        A.true('every system has one symmetric image', sorted(sum(perm, [])) == list(range(len(num))))
        new = sfs(s)
        for i, h in enumerate(perm):
            if len(h) == 1:
                A.eq('factor of the image (squared)', new[h[0]] * new[h[0]], base[i] * base[i])


@harness('E06', cases=[dict(planes=None, directions=None), dict(planes=[1], directions=None), dict(planes=[0, 2], directions=[1])], time_limit=200)
def schmid_map(A, planes, directions):
    """any stored factors of two grains: every map point shows the largest selected factor of its grain, 0.5 outside grains"""
    m = ebsd_map(A, (2, 2), [phase(A, 'cubic')])
    pts = [[(1, 0), (0, 0)], [(1, 1)]]
    set_grains(A, m, [grain_on(A, m, i, p) for i, p in enumerate(pts)])
    want = {}
    for g, ps in zip(m._grains, pts):
        f = [[A.real('f%d%d%d' % (g.grain_id, i, j), 0, 0.5) for j in range(2)] for i in range(3)]
        g.average_schmid_factors = f
        sel = [f[i][j] for i in (planes or range(3)) for j in (directions or range(2))]
        for p in ps:
            want[p[::-1]] = A.max(sel)
    got = []

    class Cap:
        @classmethod
        def create(cls, cm, data, **kw):
            got.append(data)
    A.patch(A.D.base, 'MapPlot', Cap)
    A.patch(A.D.ebsd, 'MapPlot', Cap)
    m.plot_average_grain_schmid_factors_map(planes=planes, directions=directions)
    for ix in rnp.ndindex(2, 2):
        A.eq('map value', got[0][ix], want.get(ix, 0.5))


@harness('E07', cases=[dict(sg=s, file=f) for s, f in SF_FILES], time_limit=300, cheap=True)
def traces(A, sg, file):
    """every mean orientation (slip planes at least 0.001 rad away from the screen plane), every slip plane of the distributed files"""
    Quat = A.D.quat.Quat
    p = ss_phase(A, sg, file)
    m = ebsd_map(A, (1, 1), [p])
    q = A.unit('q', 4, pos=True)
    for grp in p.slip_systems:
        g = grain_on(A, m, 0, [(0, 0)])
        g.ref_ori = Quat(*q)
        n = to_sample(q, [float(v) for v in grp[0].slip_plane])
        A.assume(n[0] * n[0] + n[1] * n[1] > 1e-6)
        g.calc_slip_traces([grp])
        A.true('one angle per plane', len(g.slip_traces) == 1 and len(g.slip_trace_inclinations) == 1)
        t, inc = g.slip_traces[0], g.slip_trace_inclinations[0]
        r = A.sqrt(n[0] * n[0] + n[1] * n[1])
        # the direction at angle t from vertical, counter clockwise, is (-sin t, cos t); the trace is along +-(-n_y, n_x)
        A.eq('trace lies in the plane', A.cos(t) * r, A.ite(-1 * n[1] > 0, -1 * n[0], n[0]))
        A.le('angle >= 0', 0, A.sin(t))
        A.eq('inclination', A.cos(inc), A.ite(n[2] < 0, -1 * n[2], n[2]))
        A.le('inclination at most 90 degrees', 0, A.cos(inc))


ROT_KEYS = ['band_contrast', 'band_slope', 'mean_angular_deviation']


@harness('E08', cases=[dict(shape=s, hist=h) for s in ((2, 3), (1, 2)) for h in ('', 'o')], time_limit=250)
def rotate(A, shape, hist):
    """every value at every point of the map, Euler angles of any value, orientation requested before (o) or not"""
    names = [(k, y, x) for k in ROT_KEYS for y in range(shape[0]) for x in range(shape[1])]
    v = {nm: A.real('%s%d%d' % nm, 0, 255) for nm in names}
    ph = {ix: A.int('ph%d%d' % ix, 0, 1) for ix in rnp.ndindex(*shape)}
    eu = {(k, y, x): A.angle('e%d%d%d' % (k, y, x), 'acos' if k == 1 else '2pi') for k in range(3) for y in range(shape[0]) for x in range(shape[1])}
    arr = lambda f: [[f(y, x) for x in range(shape[1])] for y in range(shape[0])]
    m = ebsd_map(A, shape, [phase(A, 'cubic')], arr(lambda y, x: ph[y, x]),
                 euler=A.arr([arr(lambda y, x: eu[k, y, x]) for k in range(3)]),
                 extra={k: A.arr(arr(lambda y, x: v[k, y, x])) for k in ROT_KEYS})
    if hist == 'o':
        m.data.orientation
    q = {ix: A.D.quat.Quat.from_euler_angles(*[eu[k, ix[0], ix[1]] for k in range(3)]).quat_coef for ix in rnp.ndindex(*shape)}
    h, w = shape
    m.rotate_data()
    for y, x in rnp.ndindex(*shape):
        o = (h - 1 - y, w - 1 - x)
        for k in ROT_KEYS:
            A.eq(k, m.data[k][o], v[k, y, x])
        A.eq('phase', m.data.phase[o], ph[y, x])
        eq_rot(A, 'orientation turned about the map normal', m.data.orientation[o], mul_ref(A.flat(q[y, x]), [0, 0, 0, 1]))
        for k in range(3):
            A.eq('Euler angles move with the point', m.data.euler_angle[(k,) + o], eu[k, y, x])
    m.rotate_data()
    for y, x in rnp.ndindex(*shape):
        for k in ROT_KEYS:
            A.eq(k + ' after two rotations', m.data[k][y, x], v[k, y, x])
        A.eq('phase after two rotations', m.data.phase[y, x], ph[y, x])
        eq_rot(A, 'orientation after two rotations', m.data.orientation[y, x], q[y, x])


@harness('E08', cases=[dict(shape=(2, 2))])
def rotate_minimal(A, shape):
    """maps whose file has no band slope (Edax, dictionary input): any phase layout, any orientation"""
    Quat = A.D.quat.Quat
    ph = {ix: A.int('ph%d%d' % ix, 0, 1) for ix in rnp.ndindex(*shape)}
    iq = {ix: A.real('iq%d%d' % ix, 0, 9) for ix in rnp.ndindex(*shape)}
    q = {ix: A.unit('q%d%d' % ix, 4, pos=True) for ix in rnp.ndindex(*shape)}
    arr = lambda d: [[d[y, x] for x in range(shape[1])] for y in range(shape[0])]
    m = ebsd_map(A, shape, [phase(A, 'cubic')], arr(ph), quats={ix: Quat(*v) for ix, v in q.items()}, extra={'image_quality': A.arr(arr(iq))})
    m.rotate_data()
    for y, x in rnp.ndindex(*shape):
        o = (shape[0] - 1 - y, shape[1] - 1 - x)
        A.eq('phase', m.data.phase[o], ph[y, x])
        A.eq('image quality', m.data.image_quality[o], iq[y, x])
        eq_rot(A, 'orientation', m.data.orientation[o], mul_ref(q[y, x], [0, 0, 0, 1]))
