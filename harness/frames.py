"""X01: frames, homologous points and the transforms between them."""
import itertools
import numpy as rnp

from symx.reg import harness
from harness.dic import dic_map, SQUARE
from harness.maps import ebsd_map, phase
from harness.store import pick

KINDS = {'affine': (3, {}), 'projective': (4, {}), 'polynomial': (3, dict(order=1)), 'piecewise_affine': (4, {})}


def pts(A, name, n, b=50):
    return [(A.real('%sx%d' % (name, i), -b, b), A.real('%sy%d' % (name, i), -b, b)) for i in range(n)]


def cross(p, q, r):
    return (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])


def general(A, ps, lim=1):
    """no three of the points are (nearly) in line"""
    for t in itertools.combinations(ps, 3):
        A.assume(A.abs(cross(*t)) > lim)


def frames(A, p, q, props, forward):
    exp = A.D.experiment.Experiment()
    f, g = A.D.experiment.Frame(), A.D.experiment.Frame()
    f.set_homog_points(list(p))
    g.set_homog_points(list(q))
    exp.link_frames(*((f, g) if forward else (g, f)), props)
    return exp, f, g


@harness('X01', cases=[dict(kind=k, forward=f) for k in KINDS for f in (0, 1)], time_limit=250, cheap=True)
def direction(A, kind, forward):
    """every set of as many point pairs as determine the transform: from frame to frame the points map to their partners, whichever way
    the frames were linked"""
    n, kw = KINDS[kind]
    p = [(0, 0), (20, 0), (0, 30), (20, 30)][:n]
    q = [(x + A.real('dx%d' % i, -3, 3), y + A.real('dy%d' % i, -3, 3)) for i, (x, y) in enumerate([(5, 2), (40, 6), (1, 33), (38, 40)][:n])]
    exp, f, g = frames(A, p, q, dict(type=kind, **kw), forward)
    for a, b, u, v in ((f, g, p, q), (g, f, q, p)):
        got = exp.get_frame_transform(a, b)(A.arr([list(k) for k in u]))
        for i in range(n):
            A.eq('x', got[i][0], v[i][0], 1e-6)
            A.eq('y', got[i][1], v[i][1], 1e-6)


@harness('X01', cases=[dict(forward=f) for f in (0, 1)], time_limit=250, cheap=True)
def there_and_back(A, forward):
    """every affine relation given by three points not in line (doubled triangle area above 1) and every point"""
    p, q = SQUARE, pts(A, 'q', 3, 10)
    general(A, q)
    exp, f, g = frames(A, p, q, dict(type='affine'), forward)
    r = pts(A, 'r', 1, 100)[0]
    s = exp.get_frame_transform(f, g)(A.arr([list(r)]))
    for i in (0, 1):
        A.eq('affine map', s[0][i], q[0][i] + (q[1][i] - q[0][i]) * r[0] / 4 + (q[2][i] - q[0][i]) * r[1] / 4, 1e-5)
    t = exp.get_frame_transform(g, f)(s)
    A.eq('back x', t[0][0], r[0], 1e-5)
    A.eq('back y', t[0][1], r[1], 1e-5)


@harness('X01', cases=[dict(k=k) for k in range(4)])
def refused(A, k):
    """frames that are not linked, or linked in both senses, are refused"""
    F = A.D.experiment.Frame
    exp = A.D.experiment.Experiment()
    f, g, h = F(), F(), F()
    for x in (f, g, h):
        x.set_homog_points(SQUARE)
    if k != 0:
        exp.link_frames(f, g, dict(type='affine'))
    if k == 2:
        exp.link_frames(g, f, dict(type='affine'))
    a, b = {0: (f, g), 1: (f, h), 2: (f, g), 3: (h, g)}[k]
    for u, v in ((a, b), (b, a)):
        try:
            exp.get_frame_transform(u, v)
            A.fail('accepted')
        except ValueError:
            A.true('refused', True)


@harness('X01', cases=lambda tier: [dict(steps=2 if tier == 'quick' else 3, first=k) for k in range(3)], max_paths=400, time_limit=250)
def updates(A, steps, first):
    """every sequence of updates of homologous points (new point, shift of one, shift of all) with any values (the points staying well apart): the points and the transform
    between the frames follow"""
    n = 3
    p = [(0, 0), (20, 0), (0, 30)]
    base = [(5, 2), (44, 6), (1, 53)]
    q = [(x + A.int('qx%d' % i, -3, 3), y + A.int('qy%d' % i, -3, 3)) for i, (x, y) in enumerate(base)]
    exp, f, g = frames(A, p, list(q), dict(type='affine'), 1)
    cur = [list(k) for k in q]
    for s in range(steps):
        op = first if s == 0 else pick(A, 'op%d' % s, [0, 1, 2])
        v = (A.int('vx%d' % s, -3, 3), A.int('vy%d' % s, -3, 3))
        if op == 2:
            g.update_homog_points(homog_idx=-1, delta=v)
            for c in cur:
                c[0], c[1] = c[0] + v[0], c[1] + v[1]
        else:
            i = pick(A, 'i%d' % s, [0, 1, 2])
            if op == 0:
                v = (base[i][0] + v[0], base[i][1] + v[1])
                g.update_homog_points(homog_idx=i, new_point=v)
                cur[i] = list(v)
            else:
                g.update_homog_points(homog_idx=i, delta=v)
                cur[i] = [cur[i][0] + v[0], cur[i][1] + v[1]]
        for got, w in zip(g.homog_points, cur):
            A.eq('point x', got[0], w[0])
            A.eq('point y', got[1], w[1])
        got = exp.get_frame_transform(f, g)(A.arr([[float(k) for k in r] for r in p]))
        for i in range(n):
            A.eq('transform x', got[i][0], cur[i][0], 1e-6)
            A.eq('transform y', got[i][1], cur[i][1], 1e-6)
    A.eq('number of points', len(g.homog_points), n)
    A.true('other frame unchanged', [tuple(k) for k in f.homog_points] == p)
    for bad in (n, n + 3):
        try:
            g.update_homog_points(homog_idx=bad, new_point=(0, 0))
            A.fail('accepted')
        except Exception as e:
            A.true('index refused', 'range' in str(e))


@harness('X01', cases=[dict(forward=f) for f in (0, 1)], time_limit=250)
def lines(A, forward):
    """every shift and every pair of line ends: the transformed ends to the nearest pixel corner"""
    t = [A.real('t%d' % i, -20, 20) for i in (0, 1)]
    exp, f, g = frames(A, SQUARE, [(x + t[0], y + t[1]) for x, y in SQUARE], dict(type='affine'), forward)
    ls = [(pts(A, 'a%d' % k, 1)[0], pts(A, 'b%d' % k, 1)[0]) for k in (0, 1)]
    got = exp.warp_lines(ls, f, g)
    A.eq('number of lines', len(got), 2)
    for l, m in zip(ls, got):
        A.eq('two ends', len(m), 2)
        for p, q in zip(l, m):
            for i in (0, 1):
                d = q[i] - (p[i] + t[i])
                A.le('nearest', A.abs(d), 0.5, 1e-6)
                A.eq('a pixel corner', A.rint(q[i] - 0.5), q[i] - 0.5)


@harness('X01', cases=[dict(forward=f, sc=s) for f in (0, 1) for s in (1, 2)], max_paths=400, time_limit=250)
def image(A, forward, sc):
    """every image of 2x3 values, shift by -3..3 pixels and magnification 1 or 2: nearest neighbour warping puts every value at its
    transformed position, nothing outside"""
    t = [A.int('t%d' % i, -3, 3) for i in (0, 1)]
    v = {ix: A.real('v%d%d' % ix, 1, 9) for ix in rnp.ndindex(2, 3)}
    # frame g position = sc * position in f + t
    exp, f, g = frames(A, SQUARE, [(sc * x + t[0], sc * y + t[1]) for x, y in SQUARE], dict(type='affine'), forward)
    im = A.arr([[v[y, x] for x in range(3)] for y in range(2)])
    tx, ty = int(t[0]), int(t[1])
    out = exp.warp_image(im, f, g, output_shape=(4, 5), order=0)
    A.true('shape', tuple(out.shape) == (4, 5))
    for y, x in rnp.ndindex(4, 5):
        if sc == 2 and ((x - tx) % 2 or (y - ty) % 2):
            continue
        s = ((y - ty) // sc, (x - tx) // sc)
        A.eq('value', out[y, x], v.get(s, 0.0))


@harness('X01', cases=lambda tier: [dict(shape=s, o=o, ax=a, far=4 if tier == 'quick' else 6) for s, o in (((20, 20), (15, 18)), ((20, 40), (18, 15)), ((20, 180), (19, 40))) for a in (0, 1)], max_paths=400,
         time_limit=300)
def boundary_points(A, shape, o, ax, far):
    """a boundary along a row or column of the image and every shift of the frames by -4..4 (-6..8) pixels: the boundary points are the shifted ones inside the
    output (boundaries through a corner of the image excluded: thinning may shorten them)"""
    t = [A.int('t%d' % i, -far, 2 * far - 4 if far > 4 else far) for i in (0, 1)]
    h, w = shape
    on = [(7, y) for y in range(h)] if ax else [(x, 6) for x in range(w)]
    im = rnp.zeros(shape)
    for x, y in on:
        im[y, x] = 1
    exp, f, g = frames(A, SQUARE, [(x - t[0], y - t[1]) for x, y in SQUARE], dict(type='affine'), 0)
    got = {(int(x), int(y)) for x, y in exp.warp_points(A.arr(im), f, g, output_shape=o)}
    tx, ty = int(t[0]), int(t[1])
    want = {(x - tx, y - ty) for x, y in on if 0 <= x - tx < o[1] and 0 <= y - ty < o[0]}
    A.true('shifted boundary points', got == want)


@harness('X01', cases=[dict(kind=k) for k in ('affine', 'polynomial', 'piecewiseAffine', 'piecewise_affine', 'projective', 'Affine')])
def link_types(A, kind):
    """every kind of transform documented for linking maps"""
    exp = A.D.experiment.Experiment()
    e = ebsd_map(A, (2, 2), [phase(A, 'cubic')], exp=exp)
    m = dic_map(A, (2, 2), exp=exp)
    p = [(0, 0), (8, 0), (0, 8), (8, 8), (3, 4), (6, 3)]
    q = [(x + 2, y - 1) for x, y in p]
    e.frame.set_homog_points(p)
    m.frame.set_homog_points(q)
    m.link_ebsd_map(e, transform_type=kind)
    A.true('linked', m.ebsd_map is e and m.check_ebsd_linked())
    for a, b, u, v in ((e, m, p, q), (m, e, q, p)):
        got = exp.get_frame_transform(a.frame, b.frame)(A.arr([[float(k) for k in r] for r in u]))
        for i in range(len(p)):
            A.eq('x', got[i][0], v[i][0], 1e-6)
            A.eq('y', got[i][1], v[i][1], 1e-6)


@harness('X01', cases=[dict(order=o) for o in (0, 1)], max_paths=300, time_limit=250)
def relinked(A, order):
    """linking to another EBSD map (boundary images of 1x3 points, any): boundaries and warped data come from the map linked last"""
    exp = A.D.experiment.Experiment()
    es = []
    for k in (0, 1):
        e = ebsd_map(A, (1, 3), [phase(A, 'cubic')], exp=exp)
        e.frame.set_homog_points(SQUARE)
        im = [[A.bool('b%d%d' % (k, x)) for x in range(3)]]
        A.assume(A.or_(*im[0]))
        e.data.grain_boundaries = A.D.ebsd.BoundarySet.from_image(e, A.arr(im, dtype=bool), A.np.zeros((1, 3), dtype=bool))
        es.append((e, im))
    m = dic_map(A, (2, 3), exp=exp)
    m.set_crop(bottom=1)
    m.frame.set_homog_points(SQUARE)
    exp.warp_points = lambda image, f, g, output_shape: list(zip(*image.transpose().nonzero()))
    for n, k in enumerate((order, 1 - order)):
        m.link_ebsd_map(es[k][0])
        got = m.data.grain_boundaries
        A.true('boundaries of the DIC map', isinstance(got, A.D.hrdic.BoundarySet) and got.dic_map is m)
        for x in range(3):
            A.true('boundaries of the map linked last', A.same(bool(got.image[0, x]), es[k][1][0][x]))
        A.true('listed once', list(m.data.keys()).count('grain_boundaries') == 1)
        A.true('linked map', m.ebsd_map is es[k][0])
