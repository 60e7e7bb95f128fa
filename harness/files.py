"""Files: F01 saving and loading EBSD maps, F02 EBSD loaders, F03 DIC loaders.  The numbers in the files are solver variables:
in text they are placeholders that the (symbolic) number parsers turn back into the value or the value rounded to the printed digits."""
import itertools
import pathlib
import shutil
import tempfile
import numpy as rnp

from symx.reg import harness
from harness.maps import ebsd_map
from harness.store import pick
from harness.quats import rotm_ref, bunge_active


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='verif')
        return pathlib.Path(self.d)

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def points(shape):
    return list(rnp.ndindex(*shape))


def refused(f, *kinds):
    try:
        f()
    except kinds:
        return True
    return False


def deg(A, x):
    return x * 180 / A.pi


def rad(A, x):
    return x * A.pi / 180


def binary(A, path, cols, n):
    """a file of n packed records with the given columns [(type, values)]"""
    path = pathlib.Path(path)
    rec = rnp.dtype([('f%d' % i, t) for i, (t, _) in enumerate(cols)])
    if not A.sym:
        a = rnp.zeros(n, dtype=rec)
        for i, (t, v) in enumerate(cols):
            a['f%d' % i] = v
        a.tofile(str(path))
        return
    path.write_bytes(b'')
    from symx import text
    from symx.nd import as_sa
    from symx.text import SymRec

    def provider(fname, dtype, count, offset):
        dt = rnp.dtype(dtype)
        m = (n * rec.itemsize - offset) // dt.itemsize
        if count >= 0:
            m = min(m, count)
        at = {rec.fields['f%d' % i][1]: (rec.fields['f%d' % i][0], v) for i, (t, v) in enumerate(cols)}
        out = {}
        for k in dt.names:
            fdt, off = dt.fields[k][:2]
            ok = dt.itemsize == rec.itemsize and offset == 0 and off in at and at[off][0] == fdt
            vals = at[off][1][:m] if ok else [113 + 7 * j for j in range(m)]      # other bytes: some garbage
            out[k] = as_sa(vals, None).astype(fdt)
        return SymRec(out, dt, (m,))
    text.BINARY[str(path)] = provider


def archive(A, path, **arrays):
    path = pathlib.Path(path)
    if not A.sym:
        rnp.savez(str(path), **arrays)
        return
    path.write_bytes(b'')
    from symx import text
    text.ARCHIVE[str(path)] = arrays


# ---------------------------------------------------------------- F01
FIXED = [(0.5, 0.5, 0.5, 0.5), (0.6, 0.8, 0, 0), (0.6, 0, 0, 0.8), (0.1, 0.1, 0.7, 0.7), (0.5, -0.5, 0.5, -0.5), (0.28, 0.96, 0, 0), (1, 0, 0, 0), (0.36, 0.48, 0, -0.8), (0.8, 0, 0.6, 0)]


def some_phase(A, k, a, b, c):
    P = A.D.crystal.Phase
    h = rnp.pi / 2
    if k == 0:
        return P('nickel', 11, 225, (a, b, c, h, h, h))
    if k == 1:
        return P('beta Ti-64', 11, 229, (3.2, 3.2, 3.2, h, h, h))
    if k == 2:
        return P('alpha', 9, 194, (2.95, 2.95, 4.68, h, h, 2 * h * 2 / 3))
    return P('other', 11, None, (4.0, 4.0, 4.0, h, h, h))


@harness('F01', cases=lambda tier: [dict(shape=s, ks=ks, free=f) for s, ks, f in [((2, 3), [0, 2], [3]), ((3, 2), [1], [1]), ((1, 3), [3, 1], [0]), ((2, 1), [2, 0, 3], [1])] +
                                    ([((1, 1), [0], [0]), ((3, 3), [2, 1, 0, 3], [7]), ((2, 2), [0], [1, 2])] if tier == 'thorough' else [])], cheap=True)
def roundtrip(A, shape, ks, free):
    """any phase (also unindexed) and band contrast (0..255) at every point, any step size and lattice parameters; any quaternion at the
    free points and different fixed ones at the others"""
    Quat = A.D.quat.Quat
    A.tokens()
    pts = points(shape)
    q = {ix: A.unit('q%d%d' % ix, 4) if n in free else FIXED[n] for n, ix in enumerate(pts)}
    ph = {ix: A.int('ph%d%d' % ix, 0, len(ks)) for ix in pts}
    bc = {ix: A.int('bc%d%d' % ix, 0, 255) for ix in pts}
    step = A.real('step', 0.001, 50)
    lat = [A.real('lat%d' % i, 1, 20) for i in range(3)]
    phases = [some_phase(A, k, *lat) for k in ks]
    grid = lambda d: [[d[y, x] for x in range(shape[1])] for y in range(shape[0])]
    m = ebsd_map(A, shape, phases, A.arr(grid(ph), dtype='uint8'), quats={ix: Quat(*q[ix]) for ix in pts},
                 extra={'band_contrast': A.arr(grid(bc), dtype='uint8')})
    m.step_size = step
    want = {ix: m.data.orientation[ix].euler_angles() for ix in pts}
    with Scratch() as d:
        m.save('out', file_dir=str(d))
        before = (d / 'out.ctf').read_text()
        A.true('an existing file is not overwritten', refused(lambda: m.save('out', data_type='OxfordText', file_dir=str(d)), FileExistsError)
               and (d / 'out.ctf').read_text() == before)
        A.true('unknown file types are refused', refused(lambda: m.save('new', data_type='Davis', file_dir=str(d)), ValueError)
               and sorted(p.name for p in d.iterdir()) == ['out.ctf'])
        n = A.D.ebsd.Map(d / 'out.ctf', experiment=A.D.experiment.Experiment())
        n2 = A.D.ebsd.Map(str(d / 'out.ctf'), data_type='oxfordtext', experiment=A.D.experiment.Experiment())
    A.true('shape', tuple(n.shape) == shape and tuple(n2.shape) == shape and n.data.phase.shape == shape
           and n.data.euler_angle.shape == (3,) + shape and n.data.band_contrast.shape == shape)
    A.le('step size', A.abs(n.step_size - step), 0.5001e-4)
    for y, x in pts:
        A.eq('phase', n.data.phase[y, x], ph[y, x])
        A.eq('band contrast', n.data.band_contrast[y, x], bc[y, x])
        for i in range(3):
            A.le('orientation within the printed digits', A.abs(n.data.euler_angle[i, y, x] - want[y, x][i]), 0.00051 * rnp.pi / 180)
            A.le('orientation within the printed digits (second load)', A.abs(n2.data.euler_angle[i, y, x] - want[y, x][i]), 0.00051 * rnp.pi / 180)
    A.eq('number of phases', len(n.phases), len(ks))
    for k, a, b in zip(ks, phases, n.phases):
        A.eq('phase name', b.name, a.name)
        A.eq('laue group', b.laue_group, a.laue_group)
        A.true('crystal structure', b.crystal_structure is a.crystal_structure)
        A.eq('slip system file', str(b.ss_file), str(a.ss_file))
        for i in range(6):
            A.le('lattice parameters', A.abs(b.lattice_params[i] - a.lattice_params[i]), 0.501e-3 if i < 3 else 0.501e-3 * rnp.pi / 180)


@harness('F01', cases=[dict()], cheap=True)
def acquisition(A):
    """the acquisition rotation given to the writer comes back (any rotation, within the printed digits)"""
    Quat = A.D.quat.Quat
    A.tokens()
    w = A.D.file_writers.EBSDDataWriter.get_writer(None)
    q = A.unit('q', 4)
    r = A.unit('r', 4)
    w.metadata.update(shape=(1, 1), step_size=0.5, acquisition_rotation=Quat(*q), phases=[some_phase(A, 1, 0, 0, 0)])
    o = rnp.empty((1, 1), dtype=object)
    o[0, 0] = Quat(*r)
    w.data.update(phase=A.arr([[1]]), quat=o, band_contrast=A.arr([[7]]))
    got = []
    keep = Quat.from_euler_angles
    with Scratch() as d:
        w.write('acq', file_dir=str(d))
        lo = A.D.file_readers.EBSDDataLoader.get_loader('OxfordText', d / 'acq.ctf')

        def rec(*a):
            got.append(a)
            return Quat(1., 0., 0., 0.)
        A.patch(Quat, 'from_euler_angles', staticmethod(rec))
        try:
            lo.load(d / 'acq.ctf')
        finally:
            A.patch(Quat, 'from_euler_angles', staticmethod(keep))
    want = Quat(*q).euler_angles()
    A.eq('one acquisition rotation', len(got), 1)
    for a, b in zip(got[0], want):
        A.le('acquisition rotation within the printed digits', A.abs(a - b), 0.51e-4 * rnp.pi / 180)


# ---------------------------------------------------------------- F02
def values(A, shape, n, **lims):
    """symbolic values of one point"""
    out = []
    for ix in points(shape):
        p = dict(phase=A.int('ph%d%d' % ix, *lims.get('phase', (0, n))))
        for k in ('ph1', 'phi', 'ph2'):
            p[k] = A.real('%s%d%d' % ((k,) + ix), 0, lims.get('ang', 360))
        for k in ('bc', 'bs'):
            p[k] = A.int('%s%d%d' % ((k,) + ix), 0, 255)
        for k in ('mad', 'other', 'edx1', 'edx2'):
            p[k] = A.real('%s%d%d' % ((k,) + ix), 0, 100)
        out.append(p)
    return out


CTF = {'Phase': 'phase', 'X': 'x', 'Y': 'y', 'Bands': 'bs', 'Error': 'phase', 'Euler1': 'ph1', 'Euler2': 'phi', 'Euler3': 'ph2', 'MAD': 'mad',
       'BC': 'bc', 'BS': 'bs'}
STD = list(CTF)
ORDERS = [STD, ['Euler3', 'Euler1', 'BS', 'Phase', 'MAD', 'Euler2', 'BC'], ['X', 'Y', 'BC', 'Bands', 'Error', 'BS', 'MAD', 'Euler1', 'Euler2', 'Euler3', 'Phase']]


def phases_ok(A, m, lat, kinds):
    A.eq('number of phases', len(m), len(kinds))
    for p, k in zip(m, kinds):
        want = {0: ('nickel', 11, 'cubic', 'cubic_fcc'), 1: ('beta Ti-64', 11, 'cubic', 'cubic_bcc'), 2: ('alpha', 9, 'hexagonal', 'hexagonal_withca')}[k]
        A.true('phase name, Laue group and crystal structure', (p.name, p.laue_group, p.crystal_structure.name) == want[:3])
        ref = lat if k == 0 else [3.2, 3.2, 3.2, 90, 90, 90] if k == 1 else [2.95, 2.95, 4.68, 90, 90, 120]
        for i in range(6):
            A.le('lattice parameters', A.abs(p.lattice_params[i] - (ref[i] if i < 3 else rad(A, ref[i]))), 0.5001e-3 if i < 3 else 0.5001e-3 * rnp.pi / 180)


def check_points(A, m, shape, pts, k=None, what=('bc', 'bs', 'mad')):
    names = dict(bc='band_contrast', bs='band_slope', mad='mean_angular_deviation')
    A.true('shapes', tuple(m.data.phase.shape) == shape and tuple(m.data.euler_angle.shape) == (3,) + shape)
    for (y, x), p in zip(points(shape), pts):
        A.eq('phase', m.data.phase[y, x], p['phase'])
        for i, a in enumerate(('ph1', 'phi', 'ph2')):
            A.eq('angles in radians', m.data.euler_angle[i, y, x], p[a] if k is None else p[a] * k)
        for w in what:
            A.eq(names[w], m.data[names[w]][y, x], p[w])


def lattice(A):
    return [A.real('lat%d' % i, 1, 20) for i in range(3)] + [A.real('ang%d' % i, 60, 120) for i in range(3)]


def ctf_text(A, shape, order, kinds, lat, acq, step, pts):
    L = ['Channel Text File', 'Prj\tsome map', 'Author\t[Unknown]', 'JobMode\tGrid', 'XCells\t%d' % shape[1], 'YCells\t%d' % shape[0],
         f'XStep\t{step}', f'YStep\t{step}'] + [f'AcqE{i + 1}\t{a}' for i, a in enumerate(acq)]
    L.append('Euler angles refer to Sample Coordinate system (CS0)!\tMag\t800\tCoverage\t100\tDevice\t0\tKV\t20\tTiltAngle\t70\tTiltAxis\t0')
    L.append('Phases\t%d' % len(kinds))
    for k in kinds:
        if k == 0:
            L.append(f'{lat[0]};{lat[1]};{lat[2]}\t{lat[3]};{lat[4]};{lat[5]}\tnickel\t11\t225\t\t\tGeneric')
        elif k == 1:
            L.append('3.2;3.2;3.2\t90;90;90\tbeta Ti-64\t11\t229')
        else:
            L.append('2.95;2.95;4.68\t90;90;120\talpha\t9\t194\t\t\t')
    L.append('\t'.join(order))
    for (y, x), p in zip(points(shape), pts):
        L.append('\t'.join(f"{ {'x': x * 0.5, 'y': y * 0.5}[CTF[c]] if c in 'XY' else p[CTF[c]] }" for c in order))
    return '\n'.join(L) + '\n'


@harness('F02', cases=[dict(shape=(2, 3), order=0, kinds=[0, 2]), dict(shape=(3, 2), order=1, kinds=[1, 0, 2]), dict(shape=(1, 2), order=2, kinds=[2]),
                       dict(shape=(1, 1), order=0, kinds=[0])])
def ctf(A, shape, order, kinds):
    """Oxford text files: any values, several column orders, step size, acquisition rotation and lattice parameters symbolic"""
    A.tokens()
    lat = lattice(A)
    acq = [A.angle('acq%d' % i, rng='2pi') for i in range(3)]
    step = A.real('step', 0.001, 50)
    pts = values(A, shape, len(kinds))
    with Scratch() as d:
        (d / 'm.ctf').write_text(ctf_text(A, shape, ORDERS[order], kinds, lat, [deg(A, a) for a in acq], step, pts))
        lo = A.D.file_readers.EBSDDataLoader.get_loader(None, d / 'm.ctf')
        lo.load(d / 'm.ctf')
        m = A.D.ebsd.Map(d / 'm.ctf', experiment=A.D.experiment.Experiment())
        no = refused(lambda: A.D.ebsd.Map(d / 'none.ctf', experiment=A.D.experiment.Experiment()), FileNotFoundError)
    A.true('missing file refused', no)
    check_points(A, m, shape, pts, A.pi / 180)
    A.true('shape', tuple(m.shape) == shape)
    A.eq('step size', m.step_size, step)
    phases_ok(A, m.phases, lat, kinds)
    rotation(A, lo.loaded_metadata['acquisition_rotation'], acq)


def rotation(A, q, acq):
    """q is the rotation by Bunge Euler angles"""
    m, g = rotm_ref(A.flat(q)), bunge_active(A, acq)
    for i in range(3):
        for j in range(3):
            A.eq('acquisition rotation %d%d' % (i, j), m[i][j], g[i][j])


@harness('F02', cases=[dict()])
def ctf_refused(A):
    """a column the loader does not know is refused"""
    with Scratch() as d:
        lat = [3.6, 3.6, 3.6, 90, 90, 90]
        pts = [dict(phase=1, ph1=0, phi=0, ph2=0, bc=1, bs=1, mad=A.real('mad', 0, 1))]
        t = ctf_text(A, (1, 1), STD, [0], lat, [0, 0, 0], 1, [dict(pts[0], mad=1)])
        (d / 'bad.ctf').write_text(t.replace('\tMAD', '\tMadness'))
        A.true('unknown column refused', refused(lambda: A.D.ebsd.Map(d / 'bad.ctf', experiment=A.D.experiment.Experiment()), TypeError))
        (d / 'bad.ctf').write_text(t.replace('nickel\t11', 'nickel\t7'))
        A.true('unknown Laue group refused', refused(lambda: A.D.ebsd.Map(d / 'bad.ctf', experiment=A.D.experiment.Experiment()), ValueError))


ANG = {'cubic': ('Nickel', '43', 11), 'cubic2': ('Iron', 'm3m', 11), 'hex': ('Titanium', '6/mmm', 9)}


def ang_text(A, shape, kinds, lat, pts, step, grid='SqrGrid', number=lambda i: i):
    L = ['# TEM_PIXperUM          1.000000', '# x-star                0.5', '#']
    for i, k in enumerate(kinds):
        l = lat if k != 'hex' else [2.95, 2.95, 4.68, 90, 90, 120]
        L += ['# Phase %d' % number(i + 1), '# MaterialName  \t%s' % ANG[k][0], '# Formula     \t', '# Info \t\t', '# Symmetry              %s' % ANG[k][1],
              '# LatticeConstants      ' + ' '.join(f'{v}' for v in l), '# NumberFamilies        1', '# hklFamilies   \t 1  1  1 1 0.000000 1', '# Categories 0 0 0 0 0', '#']
    L += ['# GRID: ' + grid, f'# XSTEP: {step}', f'# YSTEP: {step}', '# NCOLS_ODD: %d' % shape[1], '# NCOLS_EVEN: %d' % shape[1], '# NROWS: %d' % shape[0],
          '#', '# OPERATOR: \tsomebody', '#']
    for (y, x), p in zip(points(shape), pts):
        L.append(f"  {p['ph1']}   {p['phi']}   {p['ph2']}   {x * 0.5}   {y * 0.5} {p['mad']}  {p['other']}  {p['phase']}      1 {p['edx1']}")
    return '\n'.join(L) + '\n'


@harness('F02', cases=[dict(shape=(2, 3), kinds=['cubic', 'hex']), dict(shape=(3, 2), kinds=['cubic2']), dict(shape=(1, 1), kinds=['hex', 'cubic'])], cheap=True)
def ang(A, shape, kinds):
    """EDAX text files: any angles in 0..2pi, phase, image quality, confidence index and fit at every point, any step and lattice parameters"""
    A.tokens()
    lat = lattice(A)
    step = A.real('step', 0.001, 50)
    pts = values(A, shape, len(kinds), phase=(0, len(kinds) - 1), ang=6.283185)
    with Scratch() as d:
        (d / 'm.ang').write_text(ang_text(A, shape, kinds, lat, pts, step))
        m = A.D.ebsd.Map(d / 'm.ang', experiment=A.D.experiment.Experiment())
        m2 = A.D.ebsd.Map(d / 'm.ang', data_type='EdaxAng', experiment=A.D.experiment.Experiment())
    A.true('shapes', tuple(m.shape) == shape and tuple(m.data.phase.shape) == shape and tuple(m.data.euler_angle.shape) == (3,) + shape)
    A.eq('step size', m.step_size, step)
    h = rnp.pi / 2
    for (y, x), p in zip(points(shape), pts):
        for n in (m, m2):
            A.eq('phase counted from one', n.data.phase[y, x], p['phase'] + 1)
            A.eq('first angle in the common reference frame', n.data.euler_angle[0, y, x], A.ite(p['ph1'] < h, p['ph1'] + 3 * h, p['ph1'] - h))
            A.eq('second angle', n.data.euler_angle[1, y, x], p['phi'])
            A.eq('third angle', n.data.euler_angle[2, y, x], p['ph2'])
            A.eq('image quality', n.data.image_quality[y, x], p['mad'])
            A.eq('confidence index', n.data.confidence_index[y, x], p['other'])
            A.eq('fit factor', n.data.fit_factor[y, x], p['edx1'])
    A.eq('number of phases', len(m.phases), len(kinds))
    for p, k in zip(m.phases, kinds):
        A.true('phase name and symmetry', (p.name, p.laue_group) == (ANG[k][0], ANG[k][2]))
        ref = lat if k != 'hex' else [2.95, 2.95, 4.68, 90, 90, 120]
        for i in range(6):
            A.le('lattice parameters', A.abs(p.lattice_params[i] - (ref[i] if i < 3 else rad(A, ref[i]))), 0.5001e-3 if i < 3 else 0.5001e-3 * rnp.pi / 180)


@harness('F02', cases=[dict()])
def ang_refused(A):
    """hexagonal grids, unknown symmetries and phases out of sequence are refused"""
    k = pick(A, 'what', ['grid', 'sym', 'phase'])
    lat = [3.6, 3.6, 3.6, 90, 90, 90]
    p = [dict(phase=0, ph1=0.5, phi=0, ph2=0, mad=1, other=1, edx1=1)]
    t = ang_text(A, (1, 1), ['cubic'], lat, p, 1, grid='HexGrid' if k == 'grid' else 'SqrGrid', number=(lambda i: i + 1) if k == 'phase' else (lambda i: i))
    if k == 'sym':
        t = t.replace(' 43\n', ' 23\n')
    with Scratch() as d:
        (d / 'm.ang').write_text(t)
        A.true('refused', refused(lambda: A.D.ebsd.Map(d / 'm.ang', experiment=A.D.experiment.Experiment()), ValueError))


FIELD = {'ph1': (3, '<f4'), 'phi': (4, '<f4'), 'ph2': (5, '<f4'), 'mad': (6, '<f4'), 'bc': (7, 'u1'), 'bs': (8, 'u1'), 'nb': (10, 'u1'), 'afi': (11, 'u1'),
         'ib6': (12, '<f4'), 'new': (57, '<f4'), 'new2': (58, '<f4'), 'edx1': (101, '<f4'), 'edx2': (102, '<f4')}
FIELDS = [['ph1', 'phi', 'ph2', 'mad', 'bc', 'bs', 'nb', 'afi', 'ib6'], ['bs', 'ph2', 'new', 'ph1', 'bc', 'mad', 'edx1', 'phi', 'edx2'],
          ['bc', 'bs', 'mad', 'ph1', 'phi', 'ph2', 'new', 'new2', 'edx1']]


def cpr_text(A, shape, fields, kinds, lat, acq, step, edx):
    L = ['; comment', '[General]', 'Version=5.0', 'Notes=a=b=c', 'Description=', '', '[Job]', f'GridDistX={step}', f'GridDistY={step}', 'xCells=%d' % shape[1],
         'yCells=%d' % shape[0], '[Acquisition Surface]'] + [f'Euler{i + 1}={a}' for i, a in enumerate(acq)]
    L += ['[Fields]', 'Count=%d' % len(fields)] + ['Field%d=%d' % (i + 1, FIELD[f][0]) for i, f in enumerate(fields)]
    L += ['[Phases]', 'Count=%d' % len(kinds)]
    for i, k in enumerate(kinds):
        name, laue, sg, l = {0: ('nickel', 11, 225, lat), 1: ('beta Ti-64', 11, 229, [3.2, 3.2, 3.2, 90, 90, 90]), 2: ('alpha', 9, None, [2.95, 2.95, 4.68, 90, 90, 120])}[k]
        L += ['[Phase%d]' % (i + 1), 'StructureName=' + name, 'Enabled=True'] + [f'{n}={v}' for n, v in zip(('a', 'b', 'c', 'alpha', 'beta', 'gamma'), l)]
        L += ['LaueGroup=%d' % laue] + (['SpaceGroup=%d' % sg] if sg else []) + ['ID1=']
    if edx:
        L += ['[EDX Windows]', 'Count=%d' % len(edx)] + ['Window%d=%s' % (i + 1, e) for i, e in enumerate(edx)]
    return '\n'.join(L) + '\n'


@harness('F02', cases=[dict(shape=(2, 3), order=0, kinds=[0, 2]), dict(shape=(3, 2), order=1, kinds=[1, 0]), dict(shape=(2, 2), order=2, kinds=[2]),
                       dict(shape=(1, 1), order=1, kinds=[0])], cheap=True)
def crc(A, shape, order, kinds):
    """Oxford binary files: any values, three record layouts (with unknown and EDX fields), any step, acquisition rotation and lattice parameters"""
    A.tokens()
    lat = lattice(A)
    acq = [A.angle('acq%d' % i, rng='2pi') for i in range(3)]
    step = A.real('step', 0.001, 50)
    pts = values(A, shape, len(kinds), ang=6.2831)
    for i, p in enumerate(pts):
        for k in ('nb', 'afi', 'ib6', 'new', 'new2'):
            p[k] = 3 + i
    f = FIELDS[order]
    edx = ['Ti', 'Al'][:sum(k.startswith('edx') for k in f)]
    with Scratch() as d:
        (d / 'm.cpr').write_text(cpr_text(A, shape, f, kinds, lat, [deg(A, a) for a in acq], step, edx))
        binary(A, d / 'm.crc', [('u1', [p['phase'] for p in pts])] + [(FIELD[k][1], [p[k] for p in pts]) for k in f], len(pts))
        lo = A.D.file_readers.EBSDDataLoader.get_loader(None, d / 'm.crc')
        lo.load(d / 'm.crc')
        m = A.D.ebsd.Map(d / pick(A, 'suffix', ['m', 'm.cpr', 'm.crc']), experiment=A.D.experiment.Experiment())
    A.true('shape', tuple(m.shape) == shape)
    A.eq('step size', m.step_size, step)
    check_points(A, m, shape, pts)
    phases_ok(A, m.phases, lat, kinds)
    rotation(A, lo.loaded_metadata['acquisition_rotation'], acq)
    for i, e in enumerate(edx):
        v = m.data['EDX ' + e]
        for (y, x), p in zip(points(shape), pts):
            A.eq('EDX counts', v[y, x], p['edx%d' % (i + 1)])


@harness('F02', cases=[dict(shape=(2, 3)), dict(shape=(3, 1))])
def python_dict(A, shape):
    """maps from a dictionary of arrays"""
    pts = values(A, shape, 2, ang=6.2831)
    grid = lambda k: A.arr([[pts[y * shape[1] + x][k] for x in range(shape[1])] for y in range(shape[0])])
    step = A.real('step', 0.001, 50)
    d = dict(step_size=step, phases=[some_phase(A, 1, 0, 0, 0), some_phase(A, 2, 0, 0, 0)], phase=grid('phase'), band_contrast=grid('bc'),
             euler_angle=A.arr([[[pts[y * shape[1] + x][k] for x in range(shape[1])] for y in range(shape[0])] for k in ('ph1', 'phi', 'ph2')]))
    m = A.D.ebsd.Map(d, data_type='PythonDict', experiment=A.D.experiment.Experiment())
    A.true('shape and phases', tuple(m.shape) == shape and [p.name for p in m.phases] == ['beta Ti-64', 'alpha'])
    A.eq('step size', m.step_size, step)
    check_points(A, m, shape, pts, what=('bc',))
    A.true('wrong shapes refused', refused(lambda: A.D.ebsd.Map(dict(d, euler_angle=d['euler_angle'][:2]), data_type='PythonDict',
                                                                experiment=A.D.experiment.Experiment()), AssertionError))
    A.true('unknown types refused', refused(lambda: A.D.ebsd.Map('x.foo', data_type='foo', experiment=A.D.experiment.Experiment()), ValueError))


# ---------------------------------------------------------------- F03
BINS = [1, 2, 5, 16]


def grid_of(A, shape, b=None):
    b = A.int('binning', 1, 64) if b is None else b
    u = {ix: (A.real('u%d%d' % ix), A.real('v%d%d' % ix)) for ix in points(shape)}
    return b, u


def check_dic(A, m, shape, b, u, first, flip=False):
    """row y, column x of the map has the displacement of the file's point there, at coordinates first + binning * (x, y)"""
    A.true('shapes', tuple(m.shape) == shape and tuple(m.data.displacement.shape) == (2,) + shape and tuple(m.data.coordinate.shape) == (2,) + shape)
    A.eq('binning', m.binning, b)
    for y, x in points(shape):
        for i, c in enumerate((x, y)):
            A.eq('coordinate', m.data.coordinate[i, y, x], first[i] + c * b)
            A.eq('displacement', m.data.displacement[i, y, x], u[y, x][i])


def wrong(A, label, load):
    """the header and the data do not agree"""
    A.true(label, refused(load, ValueError, AssertionError))


@harness('F03', cases=lambda tier: [dict(shape=s, b=b) for s in [(2, 3), (3, 2), (2, 2)] for b in ([1, 5, 16] if tier == 'quick' else [None] + BINS)])
def davis(A, shape, b):
    """DaVis text files: any sub-window size up to 64 and displacements, any first point; headers which do not agree with the data are refused"""
    A.tokens()
    b, u = grid_of(A, shape, b)
    first = [A.real('x0', 0, 100), A.real('y0', 0, 100)]
    hb = b + A.int('db', 0, 1)
    k = pick(A, 'header', ['good', 'rows', 'turned'])
    sh = {'good': shape, 'rows': (shape[0] * shape[1], 1), 'turned': shape[::-1]}[k]
    txt = f'#DaVis 8.4.0 2D-vector {hb} {sh[0]} {sh[1]} "" "pixel" "" "pixel" "displacement" "pixel"\n'
    for y, x in points(shape):
        txt += f'{first[0] + x * b}\t{first[1] + y * b}\t{u[y, x][0]}\t{u[y, x][1]}\n'
    with Scratch() as d:
        (d / 'b.txt').write_text(txt)
        try:
            m = A.D.hrdic.Map(d / 'b.txt', data_type=pick(A, 'type', [None, 'Davis']), experiment=A.D.experiment.Experiment())
        except ValueError:
            A.true('only files with a wrong header are refused', A.or_(hb != b, sh != shape))
            return
    A.true('a header that does not agree with the data is refused', A.and_(A.same(hb, b), sh == shape))
    A.true('software', (m.format, m.version) == ('DaVis', '8.4.0'))
    check_dic(A, m, shape, b, u, first)


@harness('F03', cases=lambda tier: [dict(shape=s, b=b) for s in [(2, 3), (3, 2)] for b in (BINS if tier == 'quick' else range(1, 65))])
def openpiv_text(A, shape, b):
    """OpenPIV text files with rows in either direction: the map has increasing y; first point between half and one and a half sub-windows"""
    A.tokens()
    b, u = grid_of(A, shape, b)
    down = A.bool('down')
    first = [b * 0.5 + A.real('fx', 0, 0.999) * b, b * 0.5 + A.real('fy', 0, 0.999) * b]
    txt = '# x\ty\tu\tv\tflags\tmask\n'
    rows = list(range(shape[0]))
    for y in rows[::-1] if down else rows:
        for x in range(shape[1]):
            txt += f'{first[0] + x * b}\t{first[1] + y * b}\t{u[y, x][0]}\t{u[y, x][1]}\t0.0\t0.0\n'
    with Scratch() as d:
        (d / 'b.txt').write_text(txt)
        m = A.D.hrdic.Map(d / 'b.txt', data_type=pick(A, 'type', ['OpenPIV', 'OpenPivText']), experiment=A.D.experiment.Experiment())
    check_dic(A, m, shape, b, u, first)


@harness('F03', cases=lambda tier: [dict(shape=s, b=b) for s in [(2, 3), (3, 2)] for b in ([1, 5, 16] if tier == 'quick' else [None] + BINS)])
def openpiv_binary(A, shape, b):
    """OpenPIV archives with rows in either direction, any binning and first point"""
    b, u = grid_of(A, shape, b)
    first = [A.real('x0', 0, 100), A.real('y0', 0, 100)]
    down = A.bool('down')
    rows = list(range(shape[0]))[::-1] if down else list(range(shape[0]))
    sh = pick(A, 'shape', [shape, shape[::-1]])
    g = lambda f: A.arr([[f(y, x) for x in range(shape[1])] for y in rows])
    with Scratch() as d:
        archive(A, d / 'b.npz', x=g(lambda y, x: first[0] + x * b), y=g(lambda y, x: first[1] + y * b), u=g(lambda y, x: u[y, x][0]), v=g(lambda y, x: u[y, x][1]),
                binning=A.arr(b), shape=A.arr(list(sh)), format=rnp.array('OpenPIV-XL'), version=rnp.array('1'))
        try:
            m = A.D.hrdic.Map(d / 'b.npz', data_type='OpenPivBinary', experiment=A.D.experiment.Experiment())
        except ValueError:
            A.true('only wrong shapes are refused', sh != shape)
            return
    A.true('a shape that does not agree with the data is refused', sh == shape)
    check_dic(A, m, shape, b, u, first)


PYV = [('x', 'i4'), ('y', 'i4'), ('u', 'f8'), ('v', 'f8'), ('mag', 'f8'), ('conv', 'u1'), ('cost', 'f8'), ('ftol', 'f8'), ('xtol', 'f8'), ('num', 'i4')]


@harness('F03', cases=lambda tier: [dict(shape=s, kind=k, gone=g, b=b) for s, k, g in [
    ((2, 3), 'csv', []), ((3, 2), 'binary', []), ((3, 3), 'csv', [(1, 1)]), ((3, 3), 'binary', [(0, 0), (2, 1)]), ((2, 3), 'binary', [(0, 2)])]
    for b in (BINS if tier == 'quick' else [1, 2, 3, 4, 5, 7, 8, 12, 16, 21, 32, 64])])
def pyvale(A, shape, kind, gone, b):
    """pyvale text and binary files: any displacements and first point, points without result are missing and have zero displacement"""
    A.tokens()
    b, u = grid_of(A, shape, b)
    first = [A.int('x0', 0, 1000), A.int('y0', 0, 1000)]
    recs = []
    for y, x in points(shape):
        if (y, x) not in gone:
            r = dict(x=first[0] + x * b, y=first[1] + y * b, u=u[y, x][0], v=u[y, x][1], mag=1.5, conv=1, cost=0.25, ftol=0.5, xtol=0.125, num=7)
            recs.append([r[n] for n, _ in PYV])
        else:
            u[y, x] = (0, 0)
    with Scratch() as d:
        if kind == 'csv':
            (d / 'b.csv').write_text('subset_x,subset_y,displacement_u,displacement_v,displacement_mag,converged,cost,ftol,xtol,num_iterations\n' +
                                     ''.join(','.join(f'{v}' for v in r) + '\n' for r in recs))
        else:
            binary(A, d / 'b.csv', [(t, [r[i] for r in recs]) for i, (_, t) in enumerate(PYV)], len(recs))
        m = A.D.hrdic.Map(d / 'b.csv', data_type='pyvale-' + kind, experiment=A.D.experiment.Experiment())
    check_dic(A, m, shape, b, u, first)


@harness('F03', cases=[dict(shape=(2, 3))])
def corr_val(A, shape):
    """correlation values are read into a map of the same shape and other shapes are refused"""
    A.tokens()
    from harness.dic import dic_map
    v = {ix: A.real('v%d%d' % ix) for ix in points(shape)}
    m = dic_map(A, shape, A.np.zeros((2,) + shape))
    m.xdim, m.ydim = shape[1], shape[0]
    turned = A.bool('turned')
    rows, cols = (shape[1], shape[0]) if turned else shape
    with Scratch() as d:
        (d / 'c.txt').write_text('#DaVis image header\n' + ''.join('\t'.join(f'{v[(x, y) if turned else (y, x)]}' for x in range(cols)) + '\n' for y in range(rows)))
        no = refused(lambda: m.load_corr_val_data(d / 'c.txt'), AssertionError)
    A.true('other shapes refused', no == bool(turned))
    if not turned:
        for y, x in points(shape):
            A.eq('correlation value', m.corr_val[y, x], v[y, x])
