"""Map and grain data views: B02 proxigram, B03 grain data against map data."""
import itertools
import numpy as rnp

from symx.reg import harness
from harness.maps import ebsd_map, phase
from harness.grains import grain_on, set_grains


class Lines:
    """stands for the boundary set of a map: its points"""
    def __init__(self, points):
        self.points = points


def prox_map(A, shape, pts):
    m = ebsd_map(A, shape, [phase(A, 'cubic')])
    m.data.grain_boundaries = Lines(pts)
    return m


@harness('B02', cases=[dict(shape=(2, 2), n=1, nt=500), dict(shape=(2, 2), n=3, nt=500), dict(shape=(1, 3), n=2, nt=2), dict(shape=(2, 2), n=3, nt=1),
                       dict(shape=(2, 1), n=4, nt=2), dict(shape=(1, 2), n=5, nt=2), dict(shape=(1, 2), n=4, nt=3)], time_limit=250)
def distances(A, shape, n, nt):
    """every position of n boundary points up to 5000 pixels away, every batch size up to 3 and the default"""
    pts = [(A.int('x%d' % i, 0, 5000), A.int('y%d' % i, 0, 5000)) for i in range(n)]
    m = prox_map(A, shape, pts)
    d = m.calc_proxigram(nt) if nt != 500 else m.data.proxigram
    A.true('shape', tuple(d.shape) == shape)
    for y, x in rnp.ndindex(*shape):
        dd = [(x - px - 0.5) * (x - px - 0.5) + (y - py - 0.5) * (y - py - 0.5) for px, py in pts]
        for q in dd:
            A.le('not larger than any distance (squared)', d[y, x] * d[y, x], q)
        A.true('the distance of one of the points', A.or_(*[A.close(d[y, x] * d[y, x], q) for q in dd]))
        A.le('not negative', 0, d[y, x])


@harness('B02', cases=[dict(shape=(2, 3)), dict(shape=(3, 2)), dict(shape=(1, 4))], max_paths=600, time_limit=300)
def from_image(A, shape):
    """every pair of boundary images: the distances refer to the points of the images"""
    im = [[[A.bool('b%s%d%d' % (k, y, x)) for x in range(shape[1])] for y in range(shape[0])] for k in 'xy']
    # a fixed first boundary keeps the set non-empty
    im[0][0][0] = True
    free = [(0, 0, 1), (1, shape[0] - 1, 0), (0, shape[0] - 1, shape[1] - 1), (1, 0, 0)]
    for k in (0, 1):
        for y, x in rnp.ndindex(*shape):
            if (k, y, x) != (0, 0, 0) and (k, y, x) not in free:
                im[k][y][x] = False
    m = ebsd_map(A, shape, [phase(A, 'cubic')])
    bs = A.D.ebsd.BoundarySet.from_image(m, A.arr(im[0], dtype=bool), A.arr(im[1], dtype=bool))
    m.data.grain_boundaries = bs
    d = m.data.proxigram
    for y, x in rnp.ndindex(*shape):
        dd = [A.ite(A.or_(im[0][v][u], im[1][v][u]), (x - u - 0.5) ** 2 + (y - v - 0.5) ** 2, 10 ** 9) for v, u in rnp.ndindex(*shape)]
        A.eq('distance (squared)', d[y, x] * d[y, x], A.min(dd))


@harness('B02', cases=[dict(shape=(2, 2))])
def prox_property(A, shape):
    """the map attribute is the stored proxigram"""
    p = (A.int('x', 0, 1), A.int('y', 0, 1))
    m = prox_map(A, shape, [p])
    a, b = m.proxigram, m.data.proxigram
    for ix in rnp.ndindex(*shape):
        A.eq('attribute', a[ix], b[ix])
        A.eq('value', b[ix] * b[ix], (ix[1] - p[0] - 0.5) ** 2 + (ix[0] - p[1] - 0.5) ** 2)


GRAINS = [
    ((3, 4), [[(1, 0), (2, 0), (1, 1)], [(3, 2), (3, 1)], [(0, 2)]]),
    ((4, 2), [[(1, 3), (0, 3), (1, 2), (1, 1)], [(0, 0), (1, 0)]]),
    ((1, 5), [[(4, 0)], [(0, 0), (1, 0), (2, 0)]]),
]


def grains_map(A, k, **kw):
    shape, pts = GRAINS[k]
    m = ebsd_map(A, shape, [phase(A, 'cubic')], **kw)
    set_grains(A, m, [grain_on(A, m, i, p) for i, p in enumerate(pts)])
    return m, shape, pts


def sym_map(A, name, lead, shape):
    v = {ix: A.real('%s%s' % (name, ''.join(map(str, ix)))) for ix in rnp.ndindex(*(lead + shape))}

    def build(pre, dims):
        return v[pre] if not dims else [build(pre + (i,), dims[1:]) for i in range(dims[0])]
    return v, A.arr(build((), lead + shape))


@harness('B03', cases=[dict(k=k, lead=l) for k in range(3) for l in ((), (2,), (2, 2))])
def extract(A, k, lead):
    """every map of any values (scalar, vector, tensor): the values at the points, in the order of the points"""
    m, shape, pts = grains_map(A, k)
    v, arr = sym_map(A, 'v', lead, shape)
    m.data.add('extra', arr, unit='', type='map', order=len(lead))
    for g, ps in zip(m._grains, pts):
        d = g.grain_data(arr)
        e = g.data.extra
        A.true('shape', tuple(d.shape) == lead + (len(ps),) and tuple(e.shape) == lead + (len(ps),))
        for i, (x, y) in enumerate(ps):
            for ix in rnp.ndindex(*lead):
                A.eq('value at the point', d[ix + (i,)], v[ix + (y, x)])
                A.eq('derived value', e[ix + (i,)], v[ix + (y, x)])
        A.true('listed', 'extra' in g.data and g.data['extra', 'type'] == 'list')


@harness('B03', cases=[dict(k=k) for k in range(3)])
def box(A, k):
    """every map: the map of one grain is its bounding box"""
    m, shape, pts = grains_map(A, k)
    v, arr = sym_map(A, 'v', (), shape)
    for g, ps in zip(m._grains, pts):
        x0, y0, x1, y1 = g.extreme_coords
        xs, ys = [p[0] for p in ps], [p[1] for p in ps]
        A.true('bounding box', (int(x0), int(y0), int(x1), int(y1)) == (min(xs), min(ys), max(xs), max(ys)))
        bg = A.real('bg')
        for d, b in ((g.grain_map_data(arr, bg=bg), bg), (g.grain_map_data(grain_data=g.grain_data(arr)), float('nan'))):
            A.true('shape', tuple(d.shape) == (max(ys) - min(ys) + 1, max(xs) - min(xs) + 1))
            for y, x in rnp.ndindex(*d.shape):
                p = (x + min(xs), y + min(ys))
                A.eq('value', d[y, x], v[p[::-1]] if p in ps else b)
        rgb = A.arr([[A.real('c%d%d' % (i, j)) for j in range(3)] for i in range(len(ps))])
        d = g.grain_map_data(grain_data=rgb, bg=bg)
        for y, x in rnp.ndindex(*d.shape[:2]):
            p = (x + min(xs), y + min(ys))
            for j in range(3):
                A.eq('colour', d[y, x, j], rgb[ps.index(p), j] if p in ps else bg)
        for bgv, fgv in ((-1, 4), (None, None)):
            o = g.grain_outline(bg=bgv, fg=fgv) if fgv else g.grain_outline()
            for y, x in rnp.ndindex(*o.shape):
                inside = (x + min(xs), y + min(ys)) in ps
                A.eq('outline', float(o[y, x]), float((fgv if fgv else 0) if inside else (bgv if fgv else float('nan'))))


@harness('B03', cases=[dict(k=k, ids=i) for k in range(3) for i in (-1, [1, 0])])
def to_map(A, k, ids):
    """every grain value, every background: the grain's points and nothing else"""
    m, shape, pts = grains_map(A, k)
    lst = list(range(len(pts))) if ids == -1 else ids
    bg = A.real('bg')
    w = [A.real('w%d' % i) for i in lst]
    col = [[A.real('c%d%d' % (i, j)) for j in range(3)] for i in lst]
    inti = [A.int('n%d' % i, 0, 50) for i in lst]
    d1 = m.grain_data_to_map_data(w, grain_ids=ids, bg=bg)
    d3 = m.grain_data_to_map_data(col, grain_ids=ids, bg=bg)
    d2 = m.grain_data_to_map_data(inti, grain_ids=ids, bg=0.5)
    d4 = m.grain_data_to_map_data(inti, grain_ids=ids, bg=float('nan'))
    for y, x in rnp.ndindex(*shape):
        own = [j for j, i in enumerate(lst) if (x, y) in pts[i]]
        A.eq('value', d1[y, x], w[own[0]] if own else bg)
        A.eq('whole numbers', d2[y, x], inti[own[0]] if own else 0.5)
        A.eq('whole numbers, missing background', d4[y, x], inti[own[0]] if own else float('nan'))
        for j in range(3):
            A.eq('colour', d3[y, x, j], col[own[0]][j] if own else bg)
    if ids != -1:
        one = m.grain_data_to_map_data([w[0]], grain_ids=lst[0], bg=bg)
        for y, x in rnp.ndindex(*shape):
            A.eq('one grain', one[y, x], w[0] if (x, y) in pts[lst[0]] else bg)


@harness('B03', cases=[dict(k=k, ids=i) for k in range(3) for i in (-1, [1, 0])])
def averages(A, k, ids):
    """every map: mean over the points of each requested grain, also as plotted"""
    m, shape, pts = grains_map(A, k)
    v, arr = sym_map(A, 'v', (), shape)
    lst = list(range(len(pts))) if ids == -1 else ids
    av = m.calc_grain_average(arr, grain_ids=ids)
    A.true('number', tuple(av.shape) == (len(lst),))
    for a, i in zip(av, lst):
        A.eq('average', a * len(pts[i]), A.sum([v[y, x] for x, y in pts[i]]))
    got = []

    class Cap:
        @classmethod
        def create(cls, cm, data, **kw):
            got.append(data)
    A.patch(A.D.base, 'MapPlot', Cap)
    bg = A.real('bg')
    m.plot_grain_data_map(map_data=arr, grain_ids=ids, bg=bg)
    for y, x in rnp.ndindex(*shape):
        own = [j for j, i in enumerate(lst) if (x, y) in pts[i]]
        A.eq('plotted', got[0][y, x], av[own[0]] if own else bg)


@harness('B03', cases=[dict(k=k, lead=l) for k in range(2) for l in ((), (3,))])
def list_to_map(A, k, lead):
    """grain lists of any values: map view of the data of all grains, zero outside, follows later changes"""
    m, shape, pts = grains_map(A, k)
    m.data.add_derivative(m._grains[0].data, m.grain_data_to_map, pass_ref=True, in_props={'type': 'list'}, out_props={'type': 'map'})
    val = {}
    for rnd in range(2):
        for g, ps in zip(m._grains, pts):
            vv, arr = sym_map(A, 'r%dg%d_' % (rnd, g.grain_id), lead, (len(ps),))
            val[g.grain_id] = vv
            if rnd == 0:
                g.data.add('score', arr, unit='', type='list', order=len(lead))
            else:
                g.data.score = arr
        A.true('listed', 'score' in m.data and m.data['score', 'type'] == 'map')
        d = m.data.score
        A.true('shape', tuple(d.shape) == lead + shape)
        for y, x in rnp.ndindex(*shape):
            for ix in rnp.ndindex(*lead):
                own = [i for i, ps in enumerate(pts) if (x, y) in ps]
                A.eq('value', d[ix + (y, x)], val[own[0]][ix + (pts[own[0]].index((x, y)),)] if own else 0)


@harness('B03', cases=[dict(k=k, ks=s) for k in range(3) for s in (1, 2, 3)])
def coarse(A, k, ks):
    """every map: each point of the grain gets the mean of the points of the grain in the kernel, cut at the bounding box"""
    m, shape, pts = grains_map(A, k)
    v, arr = sym_map(A, 'v', (), shape)
    bg = A.real('bg')
    for g, ps in zip(m._grains, pts):
        d = g.grain_map_data_coarse(arr, kernel_size=ks, bg=bg)
        x0, y0 = min(p[0] for p in ps), min(p[1] for p in ps)
        for y, x in rnp.ndindex(*d.shape):
            p = (x + x0, y + y0)
            if p not in ps:
                A.eq('outside', d[y, x], bg)
                continue
            near = [q for q in ps if abs(q[0] - p[0]) <= ks and abs(q[1] - p[1]) <= ks]
            A.eq('mean', d[y, x] * len(near), A.sum([v[q[::-1]] for q in near]))


@harness('B03', cases=[dict(k=k) for k in range(3)])
def centre(A, k):
    m, shape, pts = grains_map(A, k)
    for g, ps in zip(m._grains, pts):
        xs, ys = [p[0] for p in ps], [p[1] for p in ps]
        for gc in (True, False):
            o = (min(xs), min(ys)) if gc else (0, 0)
            c = g.centre_coords('box', gc)
            A.true('centre of the box', abs(c[0] + o[0] - (min(xs) + max(xs)) / 2) <= 0.5 and abs(c[1] + o[1] - (min(ys) + max(ys)) / 2) <= 0.5)
            c = g.centre_coords('com', gc)
            A.true('centre of mass', abs(c[0] + o[0] - sum(xs) / len(xs)) <= 0.5 and abs(c[1] + o[1] - sum(ys) / len(ys)) <= 0.5)
