"""EBSD map harnesses: E01 boundaries, E02 grains, E03 KAM, E04 Nye tensor, B01 neighbour network."""
import itertools
import numpy as rnp

from symx.reg import harness
from harness.quats import mul_ref, conj_ref, rotm_ref
from harness.symm import group

LAUE = {'cubic': 11, 'hexagonal': 9}


def phase(A, sg, name='p'):
    p = A.D.crystal.Phase
    if sg == 'cubic':
        return p(name, 11, 225, (3.6, 3.6, 3.6, rnp.pi / 2, rnp.pi / 2, rnp.pi / 2))
    return p(name, 9, 194, (3.0, 3.0, 3.0 * 1.6, rnp.pi / 2, rnp.pi / 2, 2 * rnp.pi / 3))


def ebsd_map(A, shape, phases, phase_map=None, euler=None, quats=None, extra=None, exp=None):
    """an EBSD map object with the given contents; only the file loader is replaced."""
    class M(A.D.ebsd.Map):
        def load_data(self, file_name, data_type=None):
            self.shape = shape
            self.step_size = 1.0
            self.phases = phases
            self.data.add('phase', A.arr(phase_map) if phase_map is not None else A.np.ones(shape, dtype=int),
                          unit='', type='map', order=0)
            self.data.add('euler_angle', A.np.zeros((3,) + shape) if euler is None else euler, unit='rad', type='map', order=1)
            for k, v in (extra or {}).items():
                self.data.add(k, v, unit='', type='map', order=0)
    m = M('map', experiment=exp or A.D.experiment.Experiment())
    if quats is not None:
        q = rnp.empty(shape, dtype=object)
        for ix in rnp.ndindex(*shape):
            q[ix] = quats[ix]
        m.data.orientation = q
    return m


def triclinic(A, m):
    """give the phases of the map a crystal structure with no symmetry but the identity"""
    for p in m.phases:
        c = p.crystal_structure
        p.crystal_structure = A.D.crystal.CrystalStructure('cubic', c.symmetries[:1], c.vertices, c.faces)


def misori_ref(A, a, b, sg):
    """angle of the smallest rotation between a and b over the symmetry group"""
    return 2 * A.acos(A.min([1, A.max([A.abs(A.dotv(a, mul_ref(s, b))) for s in (group(sg) if sg != 'triclinic' else [(1, 0, 0, 0)])])]))


def edges(shape):
    """(kind, y, x): kind 'x' edge between (y,x) and (y,x+1)"""
    h, w = shape
    return [('x', y, x) for y in range(h) for x in range(w - 1)] + [('y', y, x) for y in range(h - 1) for x in range(w)]


def other(e):
    k, y, x = e
    return (y, x + 1) if k == 'x' else (y + 1, x)


@harness('E01', cases=lambda tier: [dict(sg='cubic', shape=(1, 2)), dict(sg='cubic', shape=(2, 1)), dict(sg='hexagonal', shape=(1, 2)),
                                    dict(sg='hexagonal', shape=(2, 1)), dict(sg='hexagonal', shape=(2, 2)),
                                    dict(sg='triclinic', shape=(2, 3)), dict(sg='triclinic', shape=(3, 2))] +
         ([dict(sg='cubic', shape=(2, 2)), dict(sg='hexagonal', shape=(1, 3))] if tier == 'thorough' else []), time_limit=250, cheap=True)
def boundaries(A, sg, shape):
    """every orientation at every point (all unit quaternions), phases 0..2 at every point (one phase without symmetry for the
    larger shapes), tolerance 0..180 degrees"""
    Quat = A.D.quat.Quat
    q = {ix: A.unit('q%d%d' % ix, 4, pos=True) for ix in rnp.ndindex(*shape)}
    one = sg == 'triclinic'
    ph = {ix: 1 if one else A.int('ph%d%d' % ix, 0, 2) for ix in rnp.ndindex(*shape)}
    tol = A.real('tol', 0, 180)
    m = ebsd_map(A, shape, [phase(A, sg, 'a'), phase(A, sg, 'b')], [[ph[y, x] for x in range(shape[1])] for y in range(shape[0])],
                 quats={ix: Quat(*v) for ix, v in q.items()})
    if one:
        triclinic(A, m)
    m.data.generate('grain_boundaries', misori_tol=tol)
    gb, pb = m.data.grain_boundaries, m.data.phase_boundaries
    im = {('g', 'x'): gb.image_x, ('g', 'y'): gb.image_y, ('p', 'x'): pb.image_x, ('p', 'y'): pb.image_y}
    ed = edges(shape)
    for kind in 'xy':
        for y in range(shape[0]):
            for x in range(shape[1]):
                e = (kind, y, x)
                if e in ed:
                    pd = A.not_(A.same(ph[y, x], ph[other(e)]))
                    w = A.or_(misori_ref(A, q[y, x], q[other(e)], sg) > tol * (A.pi / 180), pd)
                else:
                    pd = w = False
                A.true('phase boundary exactly between phases', A.same(bool(im['p', kind][y, x]), pd))
                A.true('grain boundary exactly where the misorientation exceeds the tolerance', A.same(bool(im['g', kind][y, x]), w))
    check_set(A, gb, shape)
    check_set(A, pb, shape)


def check_set(A, bs, shape):
    """the views of a boundary set agree"""
    ix, iy, im = bs.image_x, bs.image_y, bs.image
    want = set()
    for y in range(shape[0]):
        for x in range(shape[1]):
            A.true('image is the union of x and y', bool(im[y, x]) == (bool(ix[y, x]) or bool(iy[y, x])))
            if ix[y, x]:
                want.add(((x + 0.5, y - 0.5), (x + 0.5, y + 0.5)))
            if iy[y, x]:
                want.add(((x - 0.5, y + 0.5), (x + 0.5, y + 0.5)))
    lines = bs.lines
    A.eq('one line per boundary', len(lines), len(want))
    A.true('lines on the pixel edges', {tuple(tuple(float(v) for v in p) for p in l) for l in lines} == want)


@harness('E01', cases=[dict(shape=s) for s in ((2, 3), (1, 4), (4, 1))], max_paths=9000, time_limit=250)
def boundary_images(A, shape):
    """every pair of boundary images (edge pixels excluded) of the shape"""
    ed = edges(shape)
    ix = A.np.zeros(shape, dtype=bool)
    iy = A.np.zeros(shape, dtype=bool)
    b = {}
    for e in ed:
        b[e] = A.bool('b%s%d%d' % e)
        (ix if e[0] == 'x' else iy)[e[1], e[2]] = b[e]

    class M:
        pass
    m = M()
    m.shape = shape
    bs = A.D.ebsd.BoundarySet.from_image(m, ix, iy)
    jx, jy = bs.image_x, bs.image_y
    for y in range(shape[0]):
        for x in range(shape[1]):
            A.true('x image kept', A.same(bool(jx[y, x]), b.get(('x', y, x), False)))
            A.true('y image kept', A.same(bool(jy[y, x]), b.get(('y', y, x), False)))
    check_set(A, bs, shape)


class Bounds:
    """boundary set given by two images"""

    def __init__(self, ix, iy):
        self.image_x, self.image_y = ix, iy


def closure(A, cells, open_):
    """connectivity relation (reflexive, symmetric, transitive closure) as formulas; open_: {(p, q): Bool}"""
    R = {}
    for p in cells:
        for q in cells:
            R[p, q] = p == q
    for (p, q), b in open_.items():
        R[p, q] = R[q, p] = b
    for r in cells:                      # Warshall
        for p in cells:
            if p == r:
                continue
            for q in cells:
                if q <= p or q == r:
                    continue
                R[p, q] = R[q, p] = A.or_(R[p, q], A.and_(R[p, r], R[r, q]))
    return R


def grain_cases(tier):
    out = [dict(shape=(1, 4), phs=2, fixed=()), dict(shape=(4, 1), phs=2, fixed=()), dict(shape=(1, 1), phs=2, fixed=()),
           dict(shape=(2, 2), phs=2, fixed=()), dict(shape=(5, 1), phs=0, fixed=()), dict(shape=(1, 5), phs=0, fixed=())]
    for f in itertools.product((0, 1), repeat=2):
        out.append(dict(shape=(2, 3), phs=0, fixed=f))
        out.append(dict(shape=(3, 2), phs=0, fixed=f))
    for f in itertools.product((0, 1), repeat=4):
        out.append(dict(shape=(3, 3), phs=0, fixed=f))
    if tier == 'thorough':
        for f in itertools.product((0, 1), repeat=5):
            out.append(dict(shape=(3, 4), phs=0, fixed=f))
        out.append(dict(shape=(2, 3), phs=2, fixed=()))
    return out


@harness('E02', cases=grain_cases, max_paths=20000, time_limit=400, thorough=dict(time_limit=1500, max_paths=100000))
def grains(A, shape, phs, fixed):
    """every boundary layout of the shape; with phs every phase layout (phases 0..2, boundaries between different phases), otherwise
    one phase; minimum grain size 1..3; (3x3: minimum size 2)"""
    h, w = shape
    cells = list(rnp.ndindex(*shape))
    ed = edges(shape)
    if phs:
        ph = {c: A.int('ph%d%d' % c, 0, phs) for c in cells}
    else:
        ph = {c: 1 for c in cells}
    ix, iy = A.np.zeros(shape, dtype=bool), A.np.zeros(shape, dtype=bool)
    opn = {}
    for k, e in enumerate(ed):
        b = A.bool('b%s%d%d' % e)
        if k < len(fixed):
            A.assume(b if fixed[k] else A.not_(b))
            b = bool(fixed[k])
        p, q = e[1:], other(e)
        if phs:
            b = A.or_(b, A.not_(A.same(ph[p], ph[q])))
        (ix if e[0] == 'x' else iy)[p] = b
        opn[p, q] = A.not_(b)
    mn = A.int('min_size', 1, 3) if len(cells) < 9 else 2
    m = ebsd_map(A, shape, [phase(A, 'cubic', 'a'), phase(A, 'hexagonal', 'b')], [[ph[y, x] for x in range(w)] for y in range(h)])
    m.data.grain_boundaries = Bounds(ix, iy)
    m.data.generate('grains', min_grain_size=mn)
    lab, gl = m.data.grains, m.grains
    check_grains(A, cells, opn, ph, mn, lab, gl)
    for i, g in enumerate(gl):
        A.true('phase of the grain', A.same(ph[tuple(int(v) for v in g.data.point[0])[::-1]] - 1, g.phase_id))
        A.true('phase object', g.phase is m.phases[int(g.phase_id)])


def check_grains(A, cells, opn, ph, mn, lab, gl, tail=''):
    L = {c: int(lab[c]) for c in cells}
    n = len(gl)
    A.true('labels are 1..number of grains' + tail, sorted({v for v in L.values() if v > 0}) == list(range(1, n + 1)))
    for i, g in enumerate(gl):
        pts = [tuple(int(v) for v in p) for p in g.data.point]
        A.eq('grain number' + tail, g.grain_id, i)
        A.eq('length' + tail, len(g), len(pts))
        A.true('points of a grain are the labelled ones' + tail,
               len(set(pts)) == len(pts) and {p[::-1] for p in pts} == {c for c in cells if L[c] == i + 1})
    R = closure(A, cells, opn)
    conds = []
    for p in cells:
        size = A.sum([A.ite(A.and_(R[p, q], True), 1, 0) for q in cells])
        idx = A.not_(A.same(ph[p], 0))
        if L[p] > 0:
            conds.append(A.and_(idx, size >= mn))
        else:
            conds.append(A.or_(A.not_(idx), size < mn))
    A.true('in a grain exactly if indexed and large enough' + tail, A.and_(*conds))
    conds = []
    for i, p in enumerate(cells):
        for q in cells[:i]:
            if L[p] > 0 and L[q] > 0:
                conds.append(A.same(R[p, q], L[p] == L[q]))
    A.true('same grain exactly if connected' + tail, A.and_(*conds))


@harness('E03', cases=lambda tier: [dict(shape=s) for s in ((2, 2), (2, 3), (3, 2)) + (((3, 3), (2, 4), (4, 2)) if tier == 'thorough' else ((3, 3),))],
         time_limit=250)
def kam(A, shape):
    """every orientation at every point of the map"""
    Quat = A.D.quat.Quat
    h, w = shape
    q = {ix: A.unit('q%d%d' % ix, 4, pos=True) for ix in rnp.ndindex(*shape)}
    m = ebsd_map(A, shape, [phase(A, 'cubic')], quats={ix: Quat(*v) for ix, v in q.items()})
    k = m.data.KAM
    A.true('shape', tuple(k.shape) == shape)
    for y, x in q:
        row = [A.abs(A.dotv(q[y, x], q[n, x])) for n in (y - 1, y + 1) if 0 <= n < h]
        col = [A.abs(A.dotv(q[y, x], q[y, n])) for n in (x - 1, x + 1) if 0 <= n < w]
        c = (A.min([1, A.sum(row) / len(row)]) + A.sum(col) / len(col)) / 2
        A.eq('cosine of half the KAM', A.cos(k[y, x] / 2), c)
        A.le('KAM >= 0', 0, k[y, x])
    A.observe('kam', [A.cos(v / 2) for v in A.flat(k)])


@harness('E03', cases=[dict(shape=(2, 3)), dict(shape=(3, 3))])
def kam_uniform(A, shape):
    """one orientation (every one) at every point"""
    Quat = A.D.quat.Quat
    q = A.unit('q', 4, pos=True)
    m = ebsd_map(A, shape, [phase(A, 'hexagonal')], quats={ix: Quat(*q) for ix in rnp.ndindex(*shape)})
    A.eqs('zero', m.data.KAM, [0] * (shape[0] * shape[1]))


def nye_ref(A, q, best, shape, step):
    """tensor at every point from the symmetry-reduced neighbours; best[ix] = (x neighbour, y neighbour) representatives"""
    h, w = shape
    out = {}
    for y, x in q:
        bx = by = [[0] * 3 for _ in range(3)]
        if y < h - 1 and x < w - 1:
            nx, ny = best[y, x]
            bx, by = ([[(r[i][j] - (1 if i == j else 0)) / step / 1e-6 for j in range(3)] for i in range(3)]
                      for r in (rotm_ref(mul_ref(conj_ref(n), q[y, x])) for n in (nx, ny)))
        b = 1.4e-10
        al = [[0] * 3 for _ in range(3)]
        for i in range(3):
            al[i][2] = (by[i][0] - bx[i][1]) / b
            al[i][1] = bx[i][2] / b
            al[i][0] = -1 * by[i][2] / b
        out[y, x] = al
    return out


@harness('E04', cases=lambda tier: [dict(sg='hexagonal', kx=a, ky=b) for a, b in ((0, 0), (3, 0), (0, 5), (7, 9))] +
         ([dict(sg='cubic', kx=a, ky=b) for a, b in ((0, 0), (6, 17), (22, 0))] if tier == 'thorough' else [dict(sg='cubic', kx=0, ky=9)]),
         time_limit=400, prune=True, thorough=dict(time_limit=900))
def nye(A, sg, kx, ky):
    """every 2x2 map (all unit orientations) whose closest symmetric equivalent of the x (y) neighbour is the operator kx (ky), strictly
    (ties closer than 1e-6 in |dot| excluded), step size 0.1 to 10"""
    Quat = A.D.quat.Quat
    g = group(sg)
    shape = (2, 2)
    q = {ix: A.unit('q%d%d' % ix, 4, pos=True) for ix in ((0, 0), (0, 1), (1, 0))}
    q[1, 1] = q[0, 0]
    step = A.real('step', 0.1, 10)
    for n, k in (((0, 1), kx), ((1, 0), ky)):
        ad = [A.abs(A.dotv(q[0, 0], mul_ref(s, q[n]))) for s in g]
        for j in range(len(g)):
            if j != k:
                A.assume(ad[k] > ad[j] + 1e-6)
    m = ebsd_map(A, shape, [phase(A, sg)], quats={ix: Quat(*v) for ix, v in q.items()})
    m.step_size = step
    al, gnd = m.data.Nye_tensor, m.data.GND
    ref = nye_ref(A, q, {(0, 0): (mul_ref(g[kx], q[0, 1]), mul_ref(g[ky], q[1, 0]))}, shape, step)
    for y, x in ((0, 0), (1, 1), (0, 1)):
        for i in range(3):
            for j in range(3):
                A.eq('Nye tensor', al[i, j, y, x] * 1e-16 * step, ref[y, x][i][j] * 1e-16 * step, 1e-5)
        A.eq('GND density', gnd[y, x] * 1e-16 * step, 1.5 * A.sum([A.abs(v) for v in A.flat(ref[y, x])]) * 1e-16 * step, 1e-5)


@harness('E04', cases=[dict(sg=s, mixed=m) for s in ('cubic', 'hexagonal') for m in (0, 1)], time_limit=250, prune=True)
def nye_uniform(A, sg, mixed):
    """one orientation (every one) at every point of a 2x3 map, or fixed symmetric equivalents of it"""
    Quat = A.D.quat.Quat
    g = group(sg)
    q = A.unit('q', 4, pos=True)
    shape = (2, 3)
    ks = [0, 3, 7, 5, 2, 9] if mixed else [0] * 6
    m = ebsd_map(A, shape, [phase(A, sg)], quats={ix: Quat(*mul_ref(g[k], q)) for ix, k in zip(rnp.ndindex(*shape), ks)})
    A.eqs('zero tensor', [v * 1e-16 for v in A.flat(m.data.Nye_tensor)], [0] * 54)
    A.eqs('zero density', [v * 1e-16 for v in A.flat(m.data.GND)], [0] * 6)


@harness('E04', cases=[dict(shape=(2, 3)), dict(shape=(3, 2))], time_limit=250, prune=True)
def nye_layout(A, shape):
    """every orientation at every point of the map, a crystal without symmetry"""
    Quat = A.D.quat.Quat
    h, w = shape
    q = {ix: A.unit('q%d%d' % ix, 4, pos=True) for ix in rnp.ndindex(*shape)}
    m = ebsd_map(A, shape, [phase(A, 'cubic')], quats={ix: Quat(*v) for ix, v in q.items()})
    triclinic(A, m)
    al, gnd = m.data.Nye_tensor, m.data.GND
    ref = nye_ref(A, q, {(y, x): (q[y, x + 1], q[y + 1, x]) for y in range(h - 1) for x in range(w - 1)}, shape, 1.0)
    for y, x in q:
        for i in range(3):
            for j in range(3):
                A.eq('Nye tensor', al[i, j, y, x] * 1e-16, ref[y, x][i][j] * 1e-16, 1e-5)
        A.eq('GND density', gnd[y, x] * 1e-16, 1.5 * A.sum([A.abs(v) for v in A.flat(ref[y, x])]) * 1e-16, 1e-5)


def network_cases(tier):
    out = [dict(shape=(3, 3), labs=(-2, -1, 1, 2, 3), fixed=())]
    labs = (-2, 1, 2) if tier == 'quick' else (-2, 1, 2, 3)
    for f in itertools.product((0, 1), repeat=2):
        out.append(dict(shape=(3, 4), labs=labs, fixed=f))
        out.append(dict(shape=(4, 3), labs=labs, fixed=f))
    if tier == 'thorough':
        out.append(dict(shape=(3, 5), labs=(1, 2), fixed=()))
    return out


@harness('B01', cases=network_cases, max_paths=60000, time_limit=400, thorough=dict(time_limit=1500))
def network(A, shape, labs, fixed):
    """every layout of boundary points (edges of the shape, one pixel border of the map included) and every labelling of the points next
    to them with the given labels"""
    h, w = shape
    ed = edges(shape)
    inner = [e for e in ed if 0 < e[1] < h - 1 and 0 < e[2] < w - 1]
    used = sorted({c for e in inner for c in (e[1:], other(e))})
    lab = {}
    for c in rnp.ndindex(*shape):
        if c in used:
            v = A.int('l%d%d' % c, min(labs), max(labs))
            A.assume(A.or_(*[A.same(v, k) for k in labs]))
        else:
            v = 1 + (c[0] + c[1]) % 2
        lab[c] = v
    px, py, b = [], [], {}
    k = 0
    for e in ed:
        if e in inner:
            b[e] = A.bool('b%s%d%d' % e)
            if k < len(fixed):
                A.assume(b[e] if fixed[k] else A.not_(b[e]))
                on = bool(fixed[k])
            else:
                on = bool(b[e])
            k += 1
            b[e] = on
        else:
            on = True          # the frame of the map: excluded from the network
        if on:
            (px if e[0] == 'x' else py).append((e[2], e[1]))
    m = ebsd_map(A, shape, [phase(A, 'cubic')])
    m.data.grain_boundaries = A.D.ebsd.BoundarySet(m, px, py)
    m.data.grains = A.arr([[lab[y, x] for x in range(w)] for y in range(h)])
    gs = [A.D.ebsd.Grain(i, m, 'g') for i in range(3)]
    m._grains = gs
    m.build_neighbour_network()
    nn = m.neighbour_network
    A.true('all grains are nodes', set(nn.nodes) == set(gs))
    want = {}
    for e in inner:
        if b[e]:
            p, q = int(lab[e[1:]]), int(lab[other(e)])
            if p > 0 and q > 0 and p != q:
                want.setdefault(frozenset((p, q)), set()).add((e[0], (e[2], e[1]), p))
    got = {}
    for g1, g2, d in nn.edges(data=True):
        s = d['boundary']
        ids = {s.grain1: s.grain1.grain_id + 1, s.grain2: s.grain2.grain_id + 1}
        A.true('segment of this pair', {s.grain1, s.grain2} == {g1, g2})
        A.eq('length', len(s), len(s.boundary_points_x) + len(s.boundary_points_y))
        pts = set()
        for kind, ps, prs, delta in (('x', s.boundary_points_x, s.boundary_point_pairs_x, (1, 0)),
                                     ('y', s.boundary_points_y, s.boundary_point_pairs_y, (0, 1))):
            A.eq('pairs', len(ps), len(prs))
            for p, (u, v) in zip(ps, prs):
                p = tuple(int(t) for t in p)
                o = (p[0] + delta[0], p[1] + delta[1])
                A.true('pair on both sides', {u, v} == {p, o})
                A.eq('first point in first grain', int(lab[u[1], u[0]]), ids[s.grain1])
                A.eq('second point in second grain', int(lab[v[1], v[0]]), ids[s.grain2])
                pts.add((kind, p, int(lab[p[1], p[0]])))
        A.eq('each point once', len(pts), len(s))
        A.eq('line per point', len(s.boundary_lines), len(s))
        got[frozenset(ids.values())] = pts
    A.true('neighbours and boundary points', got == want)
