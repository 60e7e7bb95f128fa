"""HRDIC map harnesses: B04 cropping, D01 strain, D02 grains, D03 masking, D04 links to EBSD grains."""
import itertools
import numpy as rnp

from symx.reg import harness
from harness.maps import ebsd_map, phase, closure
from harness.store import pick


def dic_map(A, shape, disp=None, binning=1, extra=None, exp=None, frame=None):
    """a DIC map object with the given displacements; only the file loader is replaced."""
    class M(A.D.hrdic.Map):
        def load_data(self, file_name, data_type=None):
            self.format, self.version = 'test', '0'
            self.binning = binning
            self.shape = shape
            self.ydim, self.xdim = shape
            self.data.add('coordinate', A.np.zeros((2,) + shape), unit='px', type='map', order=1)
            self.data.add('displacement', A.np.zeros((2,) + shape) if disp is None else disp, unit='px', type='map', order=1)
            for k, v in (extra or {}).items():
                self.data.add(k, v, unit='', type='map', order=0)
    return M('dir/dic', experiment=exp or A.D.experiment.Experiment(), frame=frame)


def field(A, name, lead, shape, lo=-1000, hi=1000):
    v = {ix: A.real(name + ''.join(map(str, ix)), lo, hi) for ix in rnp.ndindex(*(lead + shape))}

    def build(pre, dims):
        return v[pre] if not dims else [build(pre + (i,), dims[1:]) for i in range(dims[0])]
    return v, A.arr(build((), lead + shape))


# ---------------------------------------------------------------------------------------------------------- D01

def grads(u, shape, h):
    """derivatives along x and y of a component u[(y, x)]: central differences, one sided at the edges"""
    ny, nx = shape
    dx, dy = {}, {}
    for y, x in rnp.ndindex(*shape):
        a, b = max(x - 1, 0), min(x + 1, nx - 1)
        dx[y, x] = (u[y, b] - u[y, a]) / (h * (b - a))
        a, b = max(y - 1, 0), min(y + 1, ny - 1)
        dy[y, x] = (u[b, x] - u[a, x]) / (h * (b - a))
    return dx, dy


def strain_ref(A, v, shape, h):
    f, e, s = {}, {}, {}
    g = [grads({ix: v[(c,) + ix] for ix in rnp.ndindex(*shape)}, shape, h) for c in (0, 1)]
    for ix in rnp.ndindex(*shape):
        F = [[g[i][j][ix] + (1 if i == j else 0) for j in (0, 1)] for i in (0, 1)]
        E = [[(F[0][i] * F[0][j] + F[1][i] * F[1][j] - (1 if i == j else 0)) / 2 for j in (0, 1)] for i in (0, 1)]
        f[ix], e[ix] = F, E
        s[ix] = (E[0][0] - E[1][1]) * (E[0][0] - E[1][1]) / 4 + E[0][1] * E[0][1]
    return f, e, s


def check_strain(A, m, f, e, s, pts, off=(0, 0)):
    mf, me, ms = m.data.f, m.data.e, m.data.max_shear
    for y, x in pts:
        p = (y - off[0], x - off[1])
        for i in (0, 1):
            for j in (0, 1):
                A.eq('deformation gradient', mf[(i, j) + p], f[y, x][i][j], 1e-9)
                A.eq('Green strain', me[(i, j) + p], e[y, x][i][j], 1e-9)
        A.eq('squared effective shear strain', ms[p] * ms[p], s[y, x], 1e-9)
        A.le('effective shear strain is not negative', 0, ms[p])


@harness('D01', cases=lambda tier: [dict(shape=s, binning=b) for s, b in (((2, 2), 1), ((3, 3), 12), ((2, 4), 4), ((4, 2), 1))] +
         ([dict(shape=(4, 5), binning=8)] if tier == 'thorough' else []), time_limit=250, cheap=True)
def strain(A, shape, binning):
    """every displacement field with displacements up to 1000 pixels on the shape"""
    v, d = field(A, 'd', (2,), shape)
    m = dic_map(A, shape, d, binning)
    f, e, s = strain_ref(A, v, shape, binning)
    for k, n in (('f', 2), ('e', 2), ('max_shear', 0)):
        A.true('shape of the map', tuple(m.data[k].shape) == (2,) * n + shape)
    check_strain(A, m, f, e, s, list(rnp.ndindex(*shape)))
    for ix in rnp.ndindex(2, *shape):
        A.eq('displacement kept', m.data.displacement[ix], v[ix])
    A.observe('strain', m.data.e)


@harness('D01', cases=[dict(shape=(3, 2)), dict(shape=(2, 3))])
def sub_window(A, shape):
    """every sub-window size from 1 to 64 pixels and every uniform displacement gradient: the strain is that of the gradient everywhere"""
    b = A.int('binning', 1, 64)
    g = [[A.real('g%d%d' % (i, j), -2, 2) for j in (0, 1)] for i in (0, 1)]
    t = [A.real('t%d' % i, -100, 100) for i in (0, 1)]
    d = A.arr([[[t[i] + b * (g[i][0] * x + g[i][1] * y) for x in range(shape[1])] for y in range(shape[0])] for i in (0, 1)])
    m = dic_map(A, shape, d, b)
    F = [[g[i][j] + (1 if i == j else 0) for j in (0, 1)] for i in (0, 1)]
    E = [[(F[0][i] * F[0][j] + F[1][i] * F[1][j] - (1 if i == j else 0)) / 2 for j in (0, 1)] for i in (0, 1)]
    s = (E[0][0] - E[1][1]) * (E[0][0] - E[1][1]) / 4 + E[0][1] * E[0][1]
    al = list(rnp.ndindex(*shape))
    check_strain(A, m, {p: F for p in al}, {p: E for p in al}, {p: s for p in al}, al)


@harness('D01', cases=[dict(shape=(3, 3))])
def rotation(A, shape):
    """every rigid translation and rotation: zero strain"""
    b = A.int('binning', 1, 64)
    w = A.angle('w')
    c, s = A.cos(w), A.sin(w)
    t = [A.real('t%d' % i, -100, 100) for i in (0, 1)]
    R = [[c, -1 * s], [s, c]]
    d = A.arr([[[t[i] + b * ((R[i][0] - (i == 0)) * x + (R[i][1] - (i == 1)) * y) for x in range(shape[1])] for y in range(shape[0])] for i in (0, 1)])
    m = dic_map(A, shape, d, b)
    A.eqs('Green strain', m.data.e, [0] * 36)
    A.eqs('effective shear strain', m.data.max_shear, [0] * 9)
    for y, x in rnp.ndindex(*shape):
        for i in (0, 1):
            for j in (0, 1):
                A.eq('deformation gradient', m.data.f[i, j, y, x], R[i][j])


@harness('D01', cases=[dict()], max_paths=200, cheap=True)
def strain_cropped(A):
    """every displacement field on a 3x4 map and every crop by up to one pixel on each side: the strain is that of the full map"""
    shape = (3, 4)
    c = [int(A.int(k, 0, 1)) for k in ('left', 'right', 'top', 'bottom')]
    v, d = field(A, 'd', (2,), shape)
    m = dic_map(A, shape, d, 2)
    m.set_crop(left=c[0], right=c[1], top=c[2], bottom=c[3])
    f, e, s = strain_ref(A, v, shape, 2)
    check_strain(A, m, f, e, s, [(y, x) for y in range(c[2], 3 - c[3]) for x in range(c[0], 4 - c[1])], (c[2], c[0]))


# ---------------------------------------------------------------------------------------------------------- B04

@harness('B04', cases=[dict(shape=(4, 5), lead=()), dict(shape=(5, 4), lead=(2,)), dict(shape=(4, 4), lead=(2, 2))], max_paths=500, time_limit=250)
def window(A, shape, lead):
    """every map and every crop by 0, 1 or 2 pixels on each side leaving at least one pixel"""
    h, w = shape
    v, d = field(A, 'v', lead, shape)
    c = [A.int(k, 0, 2) for k in ('left', 'right', 'top', 'bottom')]
    A.assume(A.and_(c[0] + c[1] < w, c[2] + c[3] < h))
    m = dic_map(A, shape)
    m.data.add('extra', d, unit='', type='map', order=len(lead))
    m.data.add('whole', d, unit='', type='map', order=len(lead), cropped=True)
    m.set_crop(left=c[0], right=c[1], top=c[2], bottom=c[3])
    l, r, t, b = [int(k) for k in c]
    A.true('shape of the map', (int(m.shape[0]), int(m.shape[1])) == (h - t - b, w - l - r))
    A.true('full shape', tuple(m.original_shape) == shape)
    A.true('dimensions', (int(m.x_dim), int(m.y_dim)) == (w - l - r, h - t - b))
    for got in (m.crop(d), m.data.extra, m.data['extra']):
        A.true('shape', tuple(got.shape) == lead + (h - t - b, w - l - r))
        for ix in rnp.ndindex(*got.shape):
            A.eq('value', got[ix], v[ix[:-2] + (ix[-2] + t, ix[-1] + l)])
    A.true('data of the window are left alone', tuple(m.data.whole.shape) == lead + shape)


@harness('B04', cases=[dict(bn=2), dict(bn=3)], max_paths=500)
def binned(A, bn):
    """every crop (0 or 1 pixels per side) of an image with 2 or 3 pixels per map pixel, given as metadata or argument"""
    shape = (3, 4)
    big = (3 * bn, 4 * bn)
    v, d = field(A, 'v', (), big)
    c = [A.int(k, 0, 1) for k in ('left', 'right', 'top', 'bottom')]
    m = dic_map(A, shape)
    m.data.add('image', d, unit='', type='map', order=0, binning=bn)
    m.set_crop(left=c[0], right=c[1], top=c[2], bottom=c[3])
    l, r, t, b = [int(k) for k in c]
    for got in (m.crop(d, binning=bn), m.data.image):
        A.true('shape', tuple(got.shape) == ((3 - t - b) * bn, (4 - l - r) * bn))
        for y, x in rnp.ndindex(*got.shape):
            A.eq('value', got[y, x], v[y + t * bn, x + l * bn])


SIDES = ['left', 'right', 'top', 'bottom']


MOVES = [('left', 'top'), ('right', 'bottom'), ('left',), ('top',), SIDES, ()]


@harness('B04', cases=lambda tier: [dict(first=k, steps=2 if tier == 'quick' else 3) for k in range(len(MOVES))], max_paths=3000, time_limit=600)
def crop_history(A, first, steps):
    """every sequence of crops (first selection of sides per case) setting any selection of sides to any distance in 0..3 of an 8 by 9 map,
    moving the homologous points (any position) or not: a side keeps its last distance, points moved by every crop stay on the same point
    of the full map"""
    h, w = shape = (8, 9)
    pts = [(A.int('px%d' % i, -50, 50), A.int('py%d' % i, -50, 50)) for i in range(2)]
    m = dic_map(A, shape)
    m.frame.set_homog_points(list(pts))
    cur = dict.fromkeys(SIDES, 0)
    shift = [0, 0]
    for k in range(steps):
        which = MOVES[first] if k == 0 else pick(A, 'sides%d' % k, MOVES)
        new = {s: A.int('%s%d' % (s, k), 0, 3) for s in which}
        upd = A.bool('update%d' % k)
        m.set_crop(update_homog_points=upd, **new)
        if upd:
            shift[0] = shift[0] + cur['left'] - new.get('left', cur['left'])
            shift[1] = shift[1] + cur['top'] - new.get('top', cur['top'])
        cur.update(new)
        for got, p in zip(m.frame.homog_points, pts):
            A.eq('point x', got[0], p[0] + shift[0])
            A.eq('point y', got[1], p[1] + shift[1])
        A.eq('number of points', len(m.frame.homog_points), 2)
        A.eq('height', m.shape[0], h - cur['top'] - cur['bottom'])
        A.eq('width', m.shape[1], w - cur['left'] - cur['right'])
        for i, ss in enumerate((('left', 'right'), ('top', 'bottom'))):
            for j, s in enumerate(ss):
                A.eq('stored distance', m.crop_dists[i, j], cur[s])


@harness('B04', cases=[dict()], max_paths=300)
def undone(A):
    """cropping and then removing the crop (any distances up to 1) gives the full map again; data stay where they are"""
    shape = (3, 4)
    v, d = field(A, 'v', (), shape)
    m = dic_map(A, shape, extra=dict(extra=d))
    c = {s: A.int(s, 0, 1) for s in SIDES}
    m.set_crop(**c)
    m.data.extra
    m.set_crop(left=0, right=0, top=0, bottom=0)
    A.true('shape', tuple(int(k) for k in m.shape) == shape)
    for ix in rnp.ndindex(*shape):
        A.eq('value', m.data.extra[ix], v[ix])


# ---------------------------------------------------------------------------------------------------------- D03

def dilate_ref(A, b, shape, n):
    """points within n steps (right, left, up, down) of a set point"""
    out = {}
    for p in rnp.ndindex(*shape):
        out[p] = A.or_(*[b[q] for q in rnp.ndindex(*shape) if abs(p[0] - q[0]) + abs(p[1] - q[1]) <= n])
    return out


def check_mask(A, m, key, want, vals, lead, shape):
    got = m.data[key]
    mk, dt = A.np.ma.getmaskarray(got), A.np.ma.getdata(got)
    A.true('shape', tuple(got.shape) == lead + shape)
    for ix in rnp.ndindex(*(lead + shape)):
        A.true('%s: missing exactly where masked' % key, A.same(mk[ix], want[ix[-2:]]))
        A.eq('%s: values unchanged' % key, dt[ix], vals[ix])


@harness('D03', cases=lambda tier: [dict(shape=s, n=n) for s, n in (((2, 2), 0), ((2, 3), 0), ((3, 2), 1), ((2, 4), 2), ((1, 5), 1) if 0 else ((5, 2), 3))],
         time_limit=250, cheap=True)
def masking(A, shape, n):
    """every mask and dilation by n steps, every displacement field"""
    v, d = field(A, 'd', (2,), shape)
    b = {ix: A.bool('m%d%d' % ix) for ix in rnp.ndindex(*shape)}
    m = dic_map(A, shape, d)
    full = {k: {ix: m.data[k][ix] for ix in rnp.ndindex(*m.data[k].shape)} for k in ('f', 'e', 'max_shear')}
    mask = A.arr([[b[y, x] for x in range(shape[1])] for y in range(shape[0])], dtype=bool)
    m.data.generate('mask', mask=mask, dilation=n)
    want = dilate_ref(A, b, shape, n)
    for k, lead in (('f', (2, 2)), ('e', (2, 2)), ('max_shear', ())):
        check_mask(A, m, k, want, full[k], lead, shape)
    for ix in rnp.ndindex(*shape):
        A.true('stored mask', A.same(m.data.mask[ix], want[ix]))
    # a new mask replaces the old one, no mask removes it
    m.data.generate('mask', mask=A.np.zeros(shape, dtype=bool))
    check_mask(A, m, 'e', {ix: False for ix in rnp.ndindex(*shape)}, full['e'], (2, 2), shape)
    m.data.generate('mask', mask=None)
    for k in full:
        A.true('no mask', not A.np.ma.isMaskedArray(m.data[k]))
        for ix, w in full[k].items():
            A.eq('values after removing the mask', m.data[k][ix], w)


@harness('D03', cases=[dict()], max_paths=200)
def mask_cropped(A):
    """every crop by up to one pixel per side of a 3x4 map and every mask of the window"""
    shape = (3, 4)
    v, d = field(A, 's', (), shape)
    c = {s: A.int(s, 0, 1) for s in SIDES}
    m = dic_map(A, shape, extra=dict(extra=d))
    m.set_crop(**c)
    l, r, t, b = [int(c[s]) for s in SIDES]
    sh = (3 - t - b, 4 - l - r)
    bm = {ix: A.bool('m%d%d' % ix) for ix in rnp.ndindex(*sh)}
    m.calc_mask(mask=A.arr([[bm[y, x] for x in range(sh[1])] for y in range(sh[0])], dtype=bool))
    check_mask(A, m, 'extra', bm, {ix: v[ix[0] + t, ix[1] + l] for ix in rnp.ndindex(*sh)}, (), sh)


@harness('D03', cases=[dict(bad=k) for k in ('list', 'shape', 'full')])
def mask_refused(A, bad):
    """masks which are no arrays or not of the shape of the cropped map are refused and change nothing"""
    m = dic_map(A, (3, 4))
    m.set_crop(left=1)
    mask = dict(list=[[True] * 3] * 3, shape=A.np.zeros((4, 3), dtype=bool), full=A.np.zeros((3, 4), dtype=bool))[bad]
    try:
        m.data.generate('mask', mask=mask)
        A.fail('accepted')
    except ValueError:
        A.true('refused', True)
    A.true('no mask', not A.np.ma.isMaskedArray(m.data.max_shear))


# ---------------------------------------------------------------------------------------------------------- D02, D04

def bounds(A, m, e, image):
    """the boundary points in the DIC frame are those of the image (transforming them is the subject of X01)"""
    e.data.grain_boundaries = A.D.ebsd.BoundarySet(e, [(0, 0)], [(0, 0)])
    pts = [(x, y) for y, x in rnp.ndindex(*m.shape) if image[y][x]]
    m.experiment.warp_points = lambda *a, **k: list(pts)
    m.experiment.warp_lines = lambda *a, **k: []


SQUARE = [(0, 0), (4, 0), (0, 4)]


def linked(A, shape, eshape, n, lab=None, pts=SQUARE, epts=SQUARE):
    """a DIC map linked to an EBSD map with n grains and the given grain map; three homologous points in each frame"""
    from harness.grains import grain_on
    exp = A.D.experiment.Experiment()
    e = ebsd_map(A, eshape, [phase(A, 'cubic')], exp=exp)
    e.frame.set_homog_points(list(epts))
    e._grains = [grain_on(A, e, i, [(0, 0)]) for i in range(n)]
    e.data.grains = A.np.ones(eshape, dtype=int) if lab is None else lab
    full = tuple(max(k, 2) for k in shape)
    m = dic_map(A, full, exp=exp)
    m.set_crop(bottom=full[0] - shape[0], right=full[1] - shape[1])
    m.frame.set_homog_points(list(pts))
    m.link_ebsd_map(e)
    return m, e


def dic_grain_cases(tier):
    out = [dict(shape=s, fixed=()) for s in ((2, 2), (1, 5), (5, 1), (2, 3), (3, 2), (1, 1))]
    n = 2 if tier == 'quick' else 4
    for f in itertools.product((0, 1), repeat=n):
        out.append(dict(shape=(3, 3), fixed=f))
        if tier == 'thorough':
            out.append(dict(shape=(3, 4), fixed=f))
    return out


@harness('D02', cases=dic_grain_cases, max_paths=20000, time_limit=400, thorough=dict(time_limit=1500, max_paths=100000))
def dic_grains(A, shape, fixed):
    """every boundary image of the shape (first points fixed per case), minimum grain size 1..3 (3x3: 1..2)"""
    h, w = shape
    cells = list(rnp.ndindex(*shape))
    b = {}
    for k, c in enumerate(cells):
        b[c] = bool(fixed[k]) if k < len(fixed) else A.bool('b%d%d' % c)
    mn = A.int('min_size', 1, 2 if len(cells) >= 9 else 3)
    m, e = linked(A, shape, shape, 1)
    bounds(A, m, e, [[b[y, x] for x in range(w)] for y in range(h)])
    m.data.generate('grains', algorithm='floodfill', min_grain_size=mn)
    lab, gl = m.data.grains, m.grains
    L = {c: int(lab[c]) for c in cells}
    B = {c: bool(b[c]) for c in cells}
    free = [c for c in cells if not B[c]]
    opn = {(p, q): True for p in free for q in free if abs(p[0] - q[0]) + abs(p[1] - q[1]) == 1}
    R = closure(A, free, opn)
    A.true('shape', tuple(lab.shape) == shape)
    n = len(gl)
    A.true('labels are 1..number of grains', sorted({v for v in L.values() if v > 0}) == list(range(1, n + 1)))
    A.true('labels are grains, boundaries and small grains', all(v > 0 or v in (-1, -2) for v in L.values()))
    for i, g in enumerate(gl):
        pts = [tuple(int(v) for v in p) for p in g.data.point]
        A.eq('grain number', g.grain_id, i)
        A.eq('length', len(g), len(pts))
        A.true('points of a grain are the labelled ones', len(set(pts)) == len(pts) and {p[::-1] for p in pts} == {c for c in cells if L[c] == i + 1})
        A.le('grain is large enough', mn, len(pts))
        A.true('grain belongs to the map', g.dic_map is m)
    for i, p in enumerate(free):
        for q in free[:i]:
            if L[p] > 0 or L[q] > 0:
                A.true('same grain exactly if connected', bool(R[p, q]) == (L[p] == L[q]))
        if L[p] < 0:
            A.true('point in no grain is in a small region', L[p] == -2)
            near = {c for q in free if R[p, q] for c in (q, (q[0], q[1] + 1), (q[0] + 1, q[1])) if c in cells and (not B[c] or L[c] == -2)}
            own = [c for c in near if not B[c]]
            A.true('regions without grain are smaller than the minimum', len(own) < mn)
    for c in cells:
        if B[c]:
            nb = [q for q in ((c[0], c[1] - 1), (c[0] - 1, c[1])) if q in free]
            A.true('boundary point belongs to the region on its left or above', L[c] in [L[q] for q in nb] if nb else L[c] == -1)


@harness('D02', cases=[dict(shape=(2, 3), algorithm=a) for a in ('floodfill', 'warp')])
def no_grains(A, shape, algorithm):
    """no point in any grain: an empty grain list and a map without grains"""
    m, e = linked(A, shape, shape, 1, lab=A.np.zeros(shape, dtype=int) - 1)
    bounds(A, m, e, [[True] * shape[1]] * shape[0])
    m.data.generate('grains', algorithm=algorithm)
    A.eq('number of grains', len(m.grains), 0)
    A.eq('length', len(m), 0)
    A.true('no labels', all(int(v) <= 0 for v in A.flat(m.data.grains)))


@harness('D02', cases=[dict(shape=(2, 3))])
def unknown_algorithm(A, shape):
    """unknown algorithms and maps without EBSD map are refused"""
    m, e = linked(A, shape, shape, 1)
    try:
        m.data.generate('grains', algorithm='nope')
        A.fail('accepted')
    except ValueError:
        A.true('refused', True)
    try:
        dic_map(A, shape).data.grains
        A.fail('accepted')
    except Exception as ex:
        A.true('refused', 'EBSD' in str(ex))


def overlap_ok(A, g, e, labs):
    """g is linked to a grain with the largest overlap with it; labs: the EBSD labels under the grain (number or None)"""
    n = len(e._grains)
    cnt = [A.sum([A.ite(A.same(v, k + 1), 1, 0) for v in labs]) for k in range(n)]
    if g.ebsd_grain is None:
        A.true('not linked only without overlap', A.and_(*[A.same(c, 0) for c in cnt]))
        return
    k = [i for i, x in enumerate(e._grains) if x is g.ebsd_grain]
    A.true('linked to a grain of the EBSD map', len(k) == 1)
    A.true('linked to a grain it overlaps', cnt[k[0]] >= 1)
    for c in cnt:
        A.le('no grain overlaps more', c, cnt[k[0]])
    A.true('EBSD map of the grain', g.ebsd_map is e)


LAYOUTS = [   # shape, boundary points
    ((2, 3), [(0, 1), (1, 1)]),
    ((3, 2), [(1, 0), (1, 1)]),
    ((2, 4), [(0, 0), (1, 0)]),
]


def dic_layout(A, k):
    shape, bp = LAYOUTS[k]
    return shape, [[(y, x) in bp for x in range(shape[1])] for y in range(shape[0])]


@harness('D04', cases=lambda tier: [dict(k=k, zoom=z, n=2) for k in range(3) for z in ((1,) if tier == 'quick' else (1, 2))] + [dict(k=0, zoom=2, n=2)] +
         ([dict(k=1, zoom=1, n=3)] if tier == 'thorough' else []),
         max_paths=6000, time_limit=400)
def overlap(A, k, zoom, n):
    """every EBSD grain map (labels -1 to n; not all grains need to be present) under a fixed layout of DIC grains, frames coinciding or the EBSD map sampled at half the density"""
    shape, im = dic_layout(A, k)
    es = ((shape[0] + zoom - 1) // zoom, (shape[1] + zoom - 1) // zoom)
    v = {ix: A.int('l%d%d' % ix, -1, n) for ix in rnp.ndindex(*es)}
    m, e = linked(A, shape, es, n, A.arr([[v[y, x] for x in range(es[1])] for y in range(es[0])], dtype=int),
                  epts=[(x // zoom, y // zoom) for x, y in SQUARE])
    bounds(A, m, e, im)
    m.data.generate('grains', algorithm='floodfill', min_grain_size=2)
    lab = m.data.grains
    A.true('some grains', len(m.grains) > 0)
    for i, g in enumerate(m.grains):
        overlap_ok(A, g, e, [v[y, x] for y, x in rnp.ndindex(*es) if int(lab[y * zoom, x * zoom]) == i + 1])


ELAB = [[1, 1, 2, 2, 3], [1, -1, 2, 3, 3], [4, 4, 4, 3, -2], [4, 4, 5, 5, 5]]


@harness('D04', cases=[dict(k=k, alg=a) for k in range(3) for a in ('floodfill', 'warp')], max_paths=400, time_limit=300)
def shifted(A, k, alg):
    """a fixed EBSD grain map and DIC layout, every shift of the frames by -2..2 pixels in x and y"""
    shape, im = dic_layout(A, k)
    tx, ty = A.int('tx', -2, 2), A.int('ty', -2, 2)
    es = (4, 5)
    m, e = linked(A, shape, es, 5, A.arr(ELAB, dtype=int), epts=[(x + tx, y + ty) for x, y in SQUARE])
    bounds(A, m, e, im)
    m.data.generate('grains', algorithm=alg, **({'min_grain_size': 2} if alg == 'floodfill' else {}))
    lab = m.data.grains
    sx, sy = int(tx), int(ty)

    def under(y, x):
        return ELAB[y + sy][x + sx] if 0 <= y + sy < 4 and 0 <= x + sx < 5 else 0
    if alg == 'floodfill':
        for i, g in enumerate(m.grains):
            overlap_ok(A, g, e, [under(y, x) for y, x in rnp.ndindex(*shape) if int(lab[y, x]) == i + 1])
    else:
        check_warped(A, m, e, {ix: under(*ix) for ix in rnp.ndindex(*shape)}, shape)


def check_warped(A, m, e, under, shape):
    lab = m.data.grains
    ids = sorted({v for v in under.values() if v > 0})
    A.true('one grain per EBSD grain in the map', len(m.grains) == len(ids))
    for ix in rnp.ndindex(*shape):
        A.eq('label', lab[ix], ids.index(under[ix]) + 1 if under[ix] > 0 else under[ix])
    for i, g in enumerate(m.grains):
        A.true('linked to the EBSD grain', g.ebsd_grain is e._grains[ids[i] - 1] and g.ebsd_map is e)
        pts = [tuple(int(v) for v in p) for p in g.data.point]
        A.true('points', len(pts) == len(set(pts)) and {p[::-1] for p in pts} == {ix for ix in under if under[ix] == ids[i]})
        A.eq('number', g.grain_id, i)


@harness('D04', cases=[dict(shape=s, first=f) for s in ((2, 2), (1, 4)) for f in (-1, 0, 1, 2, 3)], max_paths=2000, time_limit=300)
def warped(A, shape, first):
    """every EBSD grain map with labels -1 to 3 (first one per case), frames coinciding: warped grains"""
    v = {ix: A.int('l%d%d' % ix, -1, 3) for ix in rnp.ndindex(*shape)}
    A.assume(A.same(v[0, 0], first))
    m, e = linked(A, shape, shape, 3, A.arr([[v[y, x] for x in range(shape[1])] for y in range(shape[0])], dtype=int))
    m.data.generate('grains', algorithm='warp')
    check_warped(A, m, e, {ix: int(v[ix]) for ix in v}, shape)
