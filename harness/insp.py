"""Grain inspector: I01 lines and groups, I02 sessions in files, I03 relative displacement ratio, I04 report of the slip trace analysis.
The window (defdap.plotting.Plot, drawing of grains) is replaced by a stand-in; lines, groups and ratios are the real code."""
import contextlib
import io
import itertools
import pathlib
import numpy as rnp

from symx.reg import harness
from harness.maps import ebsd_map, phase
from harness.grains import grain_on, set_grains
from harness.dic import dic_map, field
from harness.files import Scratch
from harness.quats import rotm_ref
from harness.store import pick


class Any:
    def __init__(self, *a, **k):
        pass

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Any()

    def __call__(self, *a, **k):
        return Any()


def session(A, layout, shape=(4, 4), disp=None, correction=0, length=3, ph='cubic', path=None, crop=None):
    """an inspector on a DIC map whose grains have the given points"""
    A.D.hrdic
    I = A.D.inspector
    A.patch(I, 'Plot', Any)
    A.patch(I, 'GrainPlot', Any)
    A.patch(I.GrainInspector, 'redraw', lambda self, *a, **k: None)
    A.patch(I.GrainInspector, 'redraw_line', lambda self, *a, **k: None)
    A.patch(I.GrainInspector, 'plot_rdr', lambda self, *a, **k: None)
    A.patch(A.D.hrdic.Grain, 'plot_map', lambda self, *a, **k: Any())
    exp = A.D.experiment.Experiment()
    m = dic_map(A, shape, disp, exp=exp)
    if crop:
        m.set_crop(**crop)
    e = ebsd_map(A, (1, len(layout)), [phase(A, ph)], exp=exp)
    es = [grain_on(A, e, i, [(i, 0)]) for i in range(len(layout))]
    set_grains(A, e, es)
    gs = []
    for i, pts in enumerate(layout):
        g = A.D.hrdic.Grain(i, m, m.data.generate_id())
        g.data.point = rnp.array(pts)
        g.ebsd_grain, g.ebsd_map = es[i], e
        es[i].slip_trace_angles = []
        gs.append(g)
    set_grains(A, m, gs)
    m.ebsd_map = e
    if path is not None:
        m.file_name = pathlib.Path(path)
    return I.GrainInspector(m, 0.1, correction_angle=correction, rdr_line_length=length), m, e


TWO = [[(0, 0), (1, 0), (0, 1), (1, 1)], [(2, 2), (3, 3)]]


def pp(*a):
    return tuple(float(x) if isinstance(x, int) else x for x in a)


def goto(ins, i):
    ins.goto_grain(i, None)


# ---------------------------------------------------------------------------------------------------------- I01

def round2(A, x):
    return A.rint(x * 100) / 100 if A.sym else float('{0:.2f}'.format(x))


def group_ref(A, angles):
    """lines in order: a line joins the nearest group if that is within 10 degrees and starts a new group otherwise"""
    ids, means = [], []
    for i, a in enumerate(angles):
        best = None
        for j, mu in enumerate(means):
            d = A.abs(mu - a)
            if best is None or bool(d < best[0]):
                best = (d, j)
        if best is not None and bool(best[0] < 10):
            ids.append(best[1])
            mem = [x for x, k in zip(angles, ids) if k == best[1]]
            means[best[1]] = round2(A, A.sum(mem) / len(mem))
        else:
            ids.append(len(means))
            means.append(a)
    return ids, means


def check_groups(A, g, angles):
    ids, means = group_ref(A, angles)
    A.eq('number of lines', len(g.points_list), len(angles))
    A.eq('number of groups', len(g.groups_list), len(means))
    for ln, a, k in zip(g.points_list, angles, ids):
        A.eq('line angle', ln[1], a)
        A.eq('group of the line', ln[2], k)
    for j, (gr, mu) in enumerate(zip(g.groups_list, means)):
        A.eq('group number', gr[0], j)
        A.eq('group angle', gr[1], mu)


@harness('I01', cases=lambda tier: [dict(n=n, gone=g) for n, g in [(1, None), (2, None), (3, None), (3, 0)] + ([(4, None), (4, 0), (4, 1)] if tier == 'thorough' else [])] +
         [dict(n=0, gone=None)], max_paths=4000, cheap=True)
def grouping(A, n, gone):
    """n lines with any angles from 0 to 180 and any earlier group numbers, grouped from nothing; then again after a line was removed"""
    ins, m, e = session(A, TWO)
    A.tokens()
    g = m[1]
    goto(ins, 1)
    angles = [A.real('a%d' % i, 0, 180) for i in range(n)]
    g.points_list = [[[0., 0., 1., 1.], a, -1] for a in angles]
    ins.group_lines()
    check_groups(A, g, angles)
    A.true('other grains are left alone', m[0].points_list == [] and m[0].groups_list == [])
    if gone is not None:
        ins.remove_line(gone, None)
        check_groups(A, g, [a for i, a in enumerate(angles) if i != gone])
    ins.clear_all_lines(None, None)
    A.true('cleared', g.points_list == [] and g.groups_list == [])


@harness('I01', cases=lambda tier: [dict(n=3), dict(n=4)] + ([dict(n=5)] if tier == 'thorough' else []), max_paths=4000, cheap=True)
def regrouping(A, n):
    """lines in two clusters, with any earlier group numbers (as left behind by earlier lines that were removed): the groups depend on the lines only"""
    ins, m, e = session(A, TWO)
    A.tokens()
    g = m[0]
    d = [A.real('d%d' % i, 0, 4) for i in range(n)]
    which = [pick(A, 'cluster%d' % i, [30, 80]) for i in range(n)]
    old = [A.int('old%d' % i, -1, 2) for i in range(n)]
    angles = [w + x for w, x in zip(which, d)]
    g.points_list = [[[0., 0., 1., 1.], a, o] for a, o in zip(angles, old)]
    ins.group_lines(grain=g)
    check_groups(A, g, angles)


@harness('I01', cases=[dict(correction=False), dict(correction=True)], cheap=True)
def drawn(A, correction):
    """any start point and drawn direction, any correction angle: the stored line has its points, and its angle from the vertical (0 to 180)"""
    c = A.real('correction', -180, 180) if correction else 0
    ins, m, e = session(A, TWO, correction=c)
    A.tokens()
    th = A.angle('th', 'atan2')
    r = A.real('r', 1, 100)
    p1 = (A.real('x', 0, 100), A.real('y', 0, 100))
    p2 = (p1[0] + r * A.cos(th), p1[1] + r * A.sin(th))
    k = pick(A, 'grain', [0, 1])
    goto(ins, k)
    ins.grain_plot = Any()
    ins.grain_plot.p1, ins.grain_plot.p2 = p1, p2
    ins.save_line(None, None)
    g = m[k]
    A.eq('one line', len(g.points_list), 1)
    pts, ang, grp = g.points_list[0]
    for a, b in zip(pts, p1 + p2):
        A.le('end points within the stored digits', A.abs(a - b), 0.005001)
    A.eq('first group', grp, 0)
    want = 90 - th * 180 / A.pi - c
    turns = (want - ang) / 180
    A.le('angle within the stored digits', A.abs(turns - A.rint(turns)) * 180, 0.005001)
    A.le('not below 0', 0, ang)
    A.le('not above 180', ang, 180)
    A.eq('group angle', g.groups_list[0][1], ang)
    A.true('the line is in the selected grain only', m[1 - k].points_list == [])


@harness('I01', cases=[dict(n=1), dict(n=2)], cheap=True)
def active(A, n):
    """any line angle and any slip trace angles: the planes whose traces are within 5 degrees of the group (as undirected lines) and the deviations"""
    ins, m, e = session(A, TWO)
    A.tokens()
    g = m[0]
    a = A.real('a', 0, 180)
    t = [A.real('t%d' % i, 0, 180) for i in range(n)]
    g.ebsd_grain.slip_trace_angles = [x * A.pi / 180 for x in t]
    g.points_list = [[[0., 0., 1., 1.], a, -1]]
    ins.group_lines()
    dev, want = {}, []
    for i, x in enumerate(t):
        for k in (-180, 0, 180):
            d = a - x + k
            if bool(A.and_(d > -5, d < 5)):
                want.append(i)
                dev[i] = d
                break
    gr = g.groups_list[0]
    A.true('active planes', list(gr[2]) == want)
    A.eq('one deviation per plane', len(gr[3]), len(want))
    for i, d in zip(want, gr[3]):
        A.le('deviation within the stored digits', A.abs(d - dev[i]), 0.005001)


# ---------------------------------------------------------------------------------------------------------- I02

@harness('I02', cases=[dict(n=(2, 0)), dict(n=(0, 1)), dict(n=(1, 2)), dict(n=(0, 0))], cheap=True, max_paths=3000)
def save_load(A, n):
    """n lines drawn and grouped in each of two grains, one ratio calculated: a new session on the same map that loads the file has the same lines and groups"""
    A.tokens()
    v, d = field(A, 'd', (2,), (4, 4), -10, 10)
    with Scratch() as sc:
        ins, m, e = session(A, TWO, disp=d, path=sc / 'map.txt')
        for k in (0, 1):
            t = A.real('t%d' % k, 0, 180)
            m[k].ebsd_grain.slip_trace_angles = [t * A.pi / 180]
            goto(ins, k)
            for i in range(n[k]):
                m[k].points_list.append([[A.real('p%d%d%d' % (k, i, j), 0, 99) for j in range(4)], A.real('a%d%d' % (k, i), 0, 180), -1])
                ins.group_lines()
            for j, gr in enumerate(m[k].groups_list):
                gr[4] = A.real('r%d%d' % (k, j), -10, 10)
        ins.update_filename('lines.txt', None)
        ins.save_file(None, None)
        A.true('written beside the map', (sc / 'lines.txt').is_file())
        ins2, m2, e2 = session(A, TWO, disp=d, path=sc / 'map.txt')
        ins2.update_filename('lines.txt', None)
        ins2.load_file(None, None)
        for k in (0, 1):
            A.eq('number of lines', len(m2[k].points_list), len(m[k].points_list))
            A.eq('number of groups', len(m2[k].groups_list), len(m[k].groups_list))
            for a, b in zip(m2[k].points_list, m[k].points_list):
                A.eqs('end points', a[0], b[0])
                A.eq('angle', a[1], b[1])
                A.eq('group', a[2], b[2])
            for a, b in zip(m2[k].groups_list, m[k].groups_list):
                A.eq('group number', a[0], b[0])
                A.eq('group angle', a[1], b[1])
                A.true('planes', list(a[2]) == list(b[2]))
                A.eqs('deviations', list(a[3]), list(b[3]))
                A.eq('ratio', a[4], b[4])


@harness('I02', cases=[dict()], cheap=True)
def save_ratio(A):
    """a session with a calculated ratio can be loaded again"""
    v, d = field(A, 'd', (2,), (4, 4), -10, 10)
    with Scratch() as sc:
        ins, m, e = session(A, TWO, disp=d, path=sc / 'map.txt')
        g = m[0]
        goto(ins, 0)
        g.points_list = [[[1., 1., 2., 1.], 90.0, -1]]
        ins.group_lines()
        A.assume(v[1, 0, 1] - v[1, 2, 1] > 1)
        ins.run_rdr_group('0', None)
        A.tokens()
        ins.update_filename('lines.txt', None)
        ins.save_file(None, None)
        ins2, m2, e2 = session(A, TWO, disp=d, path=sc / 'map.txt')
        ins2.update_filename('lines.txt', None)
        ins2.load_file(None, None)
        A.eq('ratio', m2[0].groups_list[0][4], g.groups_list[0][4])
        A.eqs('line', m2[0].points_list[0][0], g.points_list[0][0])


# ---------------------------------------------------------------------------------------------------------- I03

LINES = {'h': ((1, 2), (3, 2), 90), 'v': ((2, 1), (2, 3), 0), 'd': ((1, 1), (3, 3), 45), 'a': ((1, 3), (3, 1), 135), 's': ((1, 1), (4, 2), 76), 't': ((2, 4), (1, 1), 18)}
PERP = {0: (1, 0), 1: (1, -1), 2: (0, 1), 3: (1, 1), 4: (1, 0)}


def steps(p, q):
    """pixels of a line"""
    n = max(abs(q[0] - p[0]), abs(q[1] - p[1]))
    from skimage.draw import line
    return [(int(x), int(y)) for x, y in zip(*line(p[0], p[1], q[0], q[1]))]


def ratio_ref(A, v, lines, k, length, off):
    """sums of products of the displacements, centred per row of points across the line"""
    pr = []
    for p, q in lines:
        for x, y in steps(p, q):
            h = (length - 1) // 2
            ps = [(y + i * PERP[k][1] + off[1], x + i * PERP[k][0] + off[0]) for i in range(-h, h + 1)]
            us, vs = [v[(0,) + c] for c in ps], [v[(1,) + c] for c in ps]
            mu, mv = A.sum(us) / length, A.sum(vs) / length
            pr += [(a - mu, b - mv) for a, b in zip(us, vs)]
    return A.sum([a * b for a, b in pr]), A.sum([b * b for _, b in pr])


@harness('I03', cases=lambda tier: [dict(lines=l, length=n, crop=c) for l, n, c in [('h', 3, False), ('v', 3, True), ('d', 3, False), ('a', 3, True), ('s', 3, False), ('hs', 3, True), ('h', 5, False), ('d', 5, True)] +
                                    ([('t', 5, False), ('ad', 3, False), ('st', 3, True)] if tier == 'thorough' else [])], cheap=True, max_paths=200, time_limit=300)
def ratio(A, lines, length, crop):
    """any displacements, any angle of the group (which sets the sampling direction to the nearest multiple of 45 degrees across the line), lines of
    another group beside it; grain not at the origin, cropped and uncropped maps, 3 or 5 points across"""
    shape = (8, 9)
    c = dict(left=1, top=1) if crop else None
    ox, oy = 1, 1
    v, d = field(A, 'd', (2,), shape, -100, 100)
    box = [[(x + ox, y + oy) for y in range(1, 6) for x in range(1, 6)], [(0, 0)]]
    ins, m, e = session(A, [[(0, 0)], [(x, y) for x in range(ox, 6) for y in range(oy, 6)]], shape=shape, disp=d, length=length, crop=c)
    g = m[1]
    goto(ins, 1)
    k = A.int('dir', 0, 4)
    ang = A.real('angle', 0, 180)
    A.assume(A.abs(ang - 45 * k) < 22)
    kk = int(k)
    L = [LINES[l] for l in lines]
    g.points_list = [[list(pp(*(p + q))), 1.0, 1] for p, q, _ in L] + [[[0., 0., 2., 3.], 2.0, 0]]
    g.groups_list = [[0, 2.0, [], [], 0], [1, ang, [], [], 0]]
    off = (ox + (1 if crop else 0), oy + (1 if crop else 0))
    if length == 5:
        off = off
    sxy, sxx = ratio_ref(A, v, [(p, q) for p, q, _ in L], kk, length, off)
    A.assume(sxx > 0)
    ins.calc_rdr(g, 1, show_plot=False)
    s = g.groups_list[1][4]
    A.eq('ratio', s * sxx, sxy)
    A.eq('the other group is left alone', g.groups_list[0][4], 0)


@harness('I03', cases=[dict()], cheap=True)
def ratio_other(A):
    """the ratio of a grain that is not the one shown"""
    shape = (6, 6)
    v, d = field(A, 'd', (2,), shape, -100, 100)
    ins, m, e = session(A, [[(0, 0)], [(x, y) for x in range(1, 5) for y in range(2, 5)]], shape=shape, disp=d)
    g = m[1]
    g.points_list = [[[0., 1., 2., 1.], 90.0, 0]]
    g.groups_list = [[0, 90.0, [], [], 0]]
    sxy, sxx = ratio_ref(A, v, [((0, 1), (2, 1))], 2, 3, (1, 2))
    A.assume(sxx > 0)
    ins.calc_rdr(g, 0, show_plot=False)
    A.eq('ratio', g.groups_list[0][4] * sxx, sxy)


@harness('I03', cases=[dict(ph='cubic', ref='given'), dict(ph='hexagonal', ref='given'), dict(ph='cubic', ref='later')], cheap=True)
def theory(A, ph, ref):
    """any mean orientation: minus the x over the y component of each slip direction in the sample; for one grain and for the map"""
    e = ebsd_map(A, (1, 2), [phase(A, ph)])
    q = [A.unit('q%d' % i, 4, pos=True) for i in range(2)]
    gs = [grain_on(A, e, i, [(i, 0)]) for i in range(2)]
    set_grains(A, e, gs)
    Quat = A.D.quat.Quat
    for g, a in zip(gs, q):
        if ref == 'given':
            g.ref_ori = Quat(*a)
        else:
            A.patch(g, 'calc_average_ori', lambda g=g, a=a: setattr(g, 'ref_ori', Quat(*a)))
    ss = e.phases[0].slip_systems
    # a few slip directions
    use = [ss[0][:2], ss[1][-2:], ss[-1][:2]]
    e.phases[0].slip_systems = use
    R = [rotm_ref(a) for a in q]
    dirs = []
    for i in range(2):
        for grp in use:
            for s in grp:
                b = [A.num(x) for x in A.flat(s.slip_dir)]
                t = [A.sum([R[i][c][r] * b[c] for c in range(3)]) for r in range(3)]
                A.assume(t[1] != 0)
                A.assume(A.or_(t[1] > 0.001, t[1] < -0.001))
                dirs.append(t)
    e.calc_rdr()
    j = 0
    for g in gs:
        A.true('one ratio per slip system', [len(r) for r in g.rdr] == [len(u) for u in use])
        for r in g.rdr:
            for x in r:
                A.eq('theoretical ratio', x, -dirs[j][0] / dirs[j][1])
                j += 1


# ---------------------------------------------------------------------------------------------------------- I04

@harness('I04', cases=[dict(n=(1, 1)), dict(n=(0, 2)), dict(n=(2, 0)), dict(n=(0, 0))], cheap=True)
def report(A, n):
    """lines in some grains: the report has one row per group with the Euler angles and largest Schmid factor of that grain and the group's values"""
    ins, m, e = session(A, TWO)
    Quat = A.D.quat.Quat
    goto(ins, pick(A, 'shown', [0, 1]))
    A.tokens()
    qs = [Quat(0.5, 0.5, 0.5, 0.5), Quat(0.6, 0.8, 0, 0)]
    sf, gr = [], []
    for k in (0, 1):
        g = m[k]
        g.ebsd_grain.ref_ori = qs[k]
        sf.append([A.real('sf%d%d' % (k, i), 0, 0.5) for i in range(3)])
        g.ebsd_grain.average_schmid_factors = [sf[k][:2], sf[k][2:]]
        g.points_list = [[[0., 0., 1., 1.], 1.0, i] for i in range(n[k])]
        g.groups_list = [[i, A.real('a%d%d' % (k, i), 0, 180), [i], [1.25], A.real('r%d%d' % (k, i), -5, 5)] for i in range(n[k])]
        gr.append(g.groups_list)
    f = io.StringIO()
    with contextlib.redirect_stdout(f):
        ins.batch_run_sta(None, None)
    rows = [r for r in f.getvalue().split('\n')[1:] if r]
    A.eq('one row per group', len(rows), sum(n))
    A.true('heading', f.getvalue().startswith('Grain\tEul1\tEul2\tEul3\tMaxSF\tGroup\tAngle\tSystem\tDev\tRDR\n'))
    i = 0
    for k in (0, 1):
        eu = [x * 180 / rnp.pi for x in A.flat(qs[k].euler_angles())]
        for j in range(n[k]):
            if i >= len(rows):
                return
            c = rows[i].split('\t')
            i += 1
            A.eq('columns', len(c), 10)
            A.true('grain and group', (c[0], c[5]) == (str(k), str(j)))
            for x, y in zip(c[1:4], eu):
                A.le('Euler angles of the grain', A.abs(number(A, x) - y), 0.0501)
            A.le('largest Schmid factor', A.abs(number(A, c[4]) - A.max(sf[k])), 0.000501)
            A.le('group angle', A.abs(number(A, c[6]) - gr[k][j][1]), 0.0501)
            A.true('planes', c[7] == '[%d]' % j)
            A.le('ratio', A.abs(number(A, c[9]) - gr[k][j][4]), 0.00501)


def number(A, s):
    if A.sym:
        from symx.text import parse_number
        return parse_number(s)
    return float(s)
