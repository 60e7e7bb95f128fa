#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json (run by hand after a property changes)."""
import json
import os
import re
import glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NOTE = {}


def prop(id, title, statement, over, qtext, why, files, mech, note, observe=None):
    q = over if isinstance(over, list) else [over]
    sent = re.split(r'(?<=[a-z0-9)])\. (?=[A-Z])', ' '.join(statement.split()))
    sent = sent[:2] + ['; '.join([sent[2]] + [x[0].lower() + x[1:] for x in sent[3:]])] if len(sent) > 3 else sent
    d = dict(id=id, title=title, statement='. '.join(sent),
             quantifier=dict(over=q, text=' '.join(qtext.split())),
             why_tests_cant=' '.join(why.split()),
             anchors=dict(files=['defdap/' + f for f in files],
                          mechanism=[dict(name=n, where='defdap/' + w) for n, w in mech]))
    if observe:
        d['anchors']['observe_at'] = observe
    assert len(title) <= 80, title
    P.append(d)
    NOTE[id] = ' '.join(note.split())


REAL = 'Exact real arithmetic (rounding outside the claim). '

prop('Q01', 'Quaternion products compose rotations',
     '''Multiplying two unit orientations gives the orientation that is the composition of the two rotations, also when a whole list is
     multiplied by one orientation at once. The conjugate is the inverse rotation, the identity is neutral, and the stored
     representative always has a non-negative scalar part while describing the same rotation it was built from.''',
     'inputs', 'all pairs of unit quaternions; all 4-vectors for construction', '''The tests compare a handful of fixed
     orientations with stored values; a sign or hemisphere slip shows only for particular signs of the components.''',
     ['quat.py'], [('product and hemisphere choice', 'quat.py: Quat.__mul__, Quat.__init__, Quat.conjugate, Quat.multiply_many_quats')],
     REAL + 'All unit quaternions; lists of up to 3.')
prop('Q02', 'Euler angles and quaternions describe the same rotation',
     '''An orientation built from Bunge Euler angles has the rotation matrix of the Bunge convention. The Euler angles reported for
     any orientation lie in [0,2pi), [0,pi], [0,2pi) and describe that same rotation, also for the degenerate tilts of 0 and 180
     degrees.''',
     'inputs', 'all Euler triples in range and all unit quaternions, including the degenerate tilts',
     'The degenerate and quadrant branches of the conversion are reached only by special angle values that sampled tests miss.',
     ['quat.py'], [('Euler conversion', 'quat.py: Quat.from_euler_angles, Quat.euler_angles')],
     REAL + 'All angles / all unit quaternions.')
prop('Q03', 'Rotation matrix, vector transform and axis-angle agree',
     '''The rotation matrix of an orientation is orthonormal and agrees with transforming vectors by it; transforming by a
     product equals transforming twice, and the conjugate undoes the transform. Building from an axis and an angle does not depend
     on the length of the axis and gives the rotation about that axis in the documented passive sense; the misorientation axis
     of two orientations is the axis of their difference rotation scaled by its angle.''',
     'inputs', 'all unit quaternions, all real 3-vectors, all axes of any non-zero length, all angles',
     'Stored values for single inputs cannot show agreement between independent code paths for every input.',
     ['quat.py'], [('matrix, vector and axis code', 'quat.py: Quat.rot_matrix, transform_vector, from_axis_angle, mis_ori_axis')],
     REAL + 'Axis length in [0.25, 8].')
prop('Q04', 'Bulk orientation operations equal the single ones element by element',
     '''Creating many orientations from an array of Euler angles, extracting components, computing the symmetric equivalents of many
     orientations and the misorientation of many orientations to a reference give, at every position of the array, exactly what
     the single-orientation operation gives. The reported minimal misorientation is the best over all supplied equivalents and
     the returned equivalent attains it.''',
     'inputs', 'arrays of orientations of one or two dimensions, every symmetry group, every reference',
     'Vectorised index arithmetic can be wrong for particular shapes or positions that fixed arrays do not expose.',
     ['quat.py'], [('vectorised code', 'quat.py: Quat.create_many_quats, extract_quat_comps, calc_sym_eqvs, calcMisOri')],
     REAL + 'Arrays of up to 2x2 orientations, all equivalents.')
prop('Q05', 'Misorientation is the minimum over crystal symmetry',
     '''The misorientation of two orientations is the smallest rotation over all crystal symmetry equivalents: it does not depend on
     the order of the two and does not change when either is replaced by a symmetric equivalent. The returned
     equivalent of the second orientation is a symmetric equivalent of it that attains this value.''',
     'inputs', 'all pairs of unit quaternions, cubic, hexagonal and no symmetry', '''A wrong or missing symmetry operator changes the
     result only for pairs for which that operator happens to be the closest one.''',
     ['quat.py'], [('minimum over equivalents', 'quat.py: Quat.mis_ori, Quat.sym_eqv')],
     REAL + 'All pairs (northern representatives); returned equivalent: ties within 1e-6 excluded, quick tier 4 of the operators per group.')
prop('Q06', 'Symmetry operators form the crystal rotation group',
     '''The symmetry operators of a crystal class form its rotation group: 24 distinct operators for cubic and 12 for hexagonal,
     identity first, closed under product and inverse, each of them mapping the crystal lattice onto itself.''',
     'inputs', 'every pair of operators, every lattice vector with indices in [-9,9]', '''A single wrong entry in the table of operators
     is invisible to tests that only use orientations for which it is not the selected one.''',
     ['quat.py'], [('operator tables', 'quat.py: Quat.sym_eqv')], REAL + 'Indices in [-9,9].')
prop('Q07', 'Mean orientation respects crystal symmetry',
     '''The mean orientation of orientations that are all symmetric equivalents of one orientation is that orientation, with no
     misorientation to any of them. For two orientations it is the rotation half way between the first and the equivalent of the
     second that is closest to it; it is always a valid unit orientation, whatever the sign of the stored components.''',
     'inputs', 'all orientations and symmetric-equivalent replacements', '''The averaging picks equivalents by a comparison; sign or
     selection errors only show for orientations near the boundary of the stored hemisphere.''',
     ['quat.py'], [('running mean', 'quat.py: Quat.calc_average_ori, Quat.calcMisOri')],
     REAL + '2 orientations in general position; up to 3 (thorough 4) equivalent ones.')
prop('Q08', 'Inverse pole figure directions and colours use the right sector',
     '''The direction plotted and coloured for an orientation lies in the fundamental sector of the crystal symmetry (by default the upper
     triangle) and is symmetrically equivalent to the crystal direction parallel to the sample direction. Colour channels lie in [0, 1] with the
     largest equal to 1, and the corner directions of the sector are pure red, green and blue, also for directions exactly on a pole or corner.''',
     'inputs', 'all unit directions and orientations, cubic and hexagonal', '''Which equivalent falls in the sector changes from region to region
     of the sphere; tests sample few regions.''',
     ['quat.py'], [('sector selection and colouring', 'quat.py: Quat.calc_fund_dirs, Quat.calc_ipf_colours')],
     REAL + 'All directions away from sector borders by a stated margin.')

prop('E01', 'Boundaries are where neighbouring misorientation exceeds the tolerance',
     '''A boundary segment lies between two horizontally or vertically adjacent points exactly when their misorientation, reduced by
     crystal symmetry, is larger than the boundary tolerance, or when they belong to different phases. Grain boundary and phase
     boundary points follow this at every position including the map edges, where no boundary is reported, and the boundary image and
     boundary lines describe the same boundaries.''',
     ['inputs', 'configurations'], 'all orientation and phase maps within the size bound, all tolerances',
     'The rule must hold for every pair of neighbours, phase layout and map shape, including one pixel wide maps.',
     ['ebsd.py'], [('boundary detection', 'ebsd.py: Map.find_boundaries, BoundarySet')],
     REAL + 'Maps up to 3x3.')
prop('E02', 'EBSD grains are the connected regions enclosed by boundaries',
     '''Every indexed point belongs to exactly one grain, or to none if its region is smaller than the minimum size. Two points share a
     grain exactly when they are connected through neighbours not separated by a boundary, the points listed for a grain are those
     labelled with its number, numbers start from 1 without gaps, and every grain has a single phase.''',
     ['inputs', 'configurations'], 'all boundary layouts and phase maps within the size bound, all minimum sizes',
     'Flood filling order, map edges, small regions and one pixel wide maps give a combinatorial number of layouts.',
     ['ebsd.py', '_accelerated.py'], [('flood fill', 'ebsd.py: Map.find_grains; _accelerated.py: flood_fill')],
     'All boundary layouts of small grids.')
prop('E03', 'Kernel average misorientation uses the four neighbours',
     '''The kernel average misorientation of a point is the rotation angle 2 arccos(m) in which m is the mean of two values: the average
     |q.q'| (absolute scalar product of the orientation quaternions, no crystal symmetry) with the neighbours above and below, and the
     same average with the neighbours left and right. Points on the edge use the neighbours that exist. A map of a single
     orientation has zero everywhere, and neither the sign nor the map position of an orientation matters.''',
     'inputs', 'all orientation maps within the size bound, at least 2x2', 'Edge handling and signs depend on position and orientation.',
     ['ebsd.py'], [('kernel', 'ebsd.py: Map.calc_kam')], REAL + 'Maps of 2x2 up to 3x3 points.')
prop('E04', 'Nye tensor and GND density come from lattice curvature',
     '''At every point except the last row and column, the lattice distortion gradients in x and in y are the rotation matrices that take the (symmetry-closest)
     orientation of the next point in x and in y to that of the point, minus the identity, divided by the step size in metres, and the components of the Nye tensor are their stated combinations
     (columns 0 and 1: minus the third column of the y gradient, the third column of the x gradient; column 2: first column of the y gradient minus second of the x gradient)
     over the Burgers vector 1.4e-10 m; points of the last row and column have a zero tensor. The stored dislocation density is 1.5 times the sum of the absolute values of all nine
     components. A map whose points are one orientation, or symmetric equivalents of it, has a zero tensor and density.''',
     'inputs', 'all orientation maps within the size bound', 'A wrong gradient or index shows only for curvature of a particular direction.',
     ['ebsd.py'], [('curvature', 'ebsd.py: Map.calc_nye')], REAL + 'All orientations of 2x2 maps for a choice of closest equivalents, of 2x3 maps without symmetry.')
prop('E05', 'Misorientation within a grain is measured from its mean orientation',
     '''For every point of a grain the stored misorientation is the cosine of half the symmetry-reduced misorientation between the point
     and the mean (reference) orientation of the grain; its axis, if requested, is the rotation vector (axis scaled by the angle) from mean
     to the symmetry-closest point orientation, in the documented frame, and values stay in the order of the points they belong to. The average misorientation of the
     grain is the mean of its stored values. The map of the reference deviation (GROD) holds at every point of a grain these values
     as an angle and as an axis, and the axis is NaN exactly where the point has the mean orientation.''',
     'inputs', 'all grains within the size bound', 'Ordering and symmetry selection must be right for each point of any grain.',
     ['ebsd.py'], [('grain reference deviation', 'ebsd.py: Grain.build_mis_ori_list, Map.calc_grod')], REAL + 'Grains of up to 3 points, cubic and hexagonal; axes for misorientations away from 0 and 180 degrees.')
prop('E06', 'Schmid factors are the geometric ones and independent of symmetry',
     '''For every load direction and grain mean orientation the Schmid factor of a slip system is |(load . plane normal)(load . slip
     direction)| with the load rotated into the crystal, between 0 and 0.5; the factors are kept per plane and direction in the order of the
     slip systems, and the map shows at every point of a grain the largest of the selected planes and directions of that grain.
     Replacing the orientation by a symmetric equivalent only permutes the factors within the family.''',
     'inputs', 'all orientations and load directions, the slip systems distributed with the package', 'A transposed rotation is invisible for symmetric test values.',
     ['ebsd.py'], [('resolved shear', 'ebsd.py: Map.calc_average_grain_schmid_factors, Grain.calc_average_schmid_factors')], REAL)
prop('E07', 'Slip trace angles lie in the surface and in the slip plane',
     '''The trace reported for a slip plane in a grain is the intersection of the rotated plane with the sample surface, expressed as
     an angle between 0 and 180 degrees in the map frame, for every orientation whose plane is not parallel to the surface; the plane
     inclination is the angle between plane normal and surface normal, between 0 and 90 degrees.''',
     'inputs', 'all orientations and slip planes', 'Quadrant and degenerate cases appear only at special orientations.',
     ['ebsd.py'], [('trace computation', 'ebsd.py: Grain.calc_slip_traces')], REAL)
prop('E08', 'Rotating a map by 180 degrees is an involution',
     '''Rotating the map data moves every data item loaded with the map to the point opposite the map centre and additionally rotates every
     orientation by 180 degrees about the map normal, whether or not derived data had been requested before; derived data requested afterwards
     follow the rotated map. Rotating twice restores the map. The stored Euler angles move with their point without being rotated.''',
     ['inputs', 'histories'], 'all small maps and request histories', 'State caching makes the outcome depend on what was accessed before.',
     ['ebsd.py'], [('rotation', 'ebsd.py: Map.rotate_data')], REAL + 'Maps up to 2x3.')
prop('C01', 'Miller index conversions are consistent with the lattice',
     '''Conversion between three and four index notation is invertible and describes the same plane or direction in cartesian coordinates;
     plane normals are perpendicular to directions exactly when the zone law holds, for every unit cell (HKL frame: cells with a = b and
     90 degree alpha and beta). The symmetric equivalents of a direction are its images under the crystal symmetry, and projection onto the upper
     half keeps the line. Reducing indices keeps the direction and yields coprime integers.''',
     'inputs', 'all integer indices in the bound and all unit cells', 'Integer wrap-around and special cells need values tests do not use.',
     ['crystal_utils.py', 'crystal.py'], [('index conversion', 'crystal_utils.py: create_l_matrix, create_q_matrix, convert_idc, reduce_idc, project_to_orth')],
     REAL + 'Indices in small ranges around zero, see DESIGN.md.')
prop('C02', 'Slip system families are complete orbits without duplicates',
     '''The family generated from a slip system holds all symmetrically equivalent systems exactly once, up to sign, and equal
     systems hash equally. Grouping by plane keeps every system exactly once, puts systems of parallel planes together and never mixes planes.
     Slip system files are read into such groups with their colours, and every system has a unit plane normal and unit slip direction of its indices.''',
     'inputs', 'all slip systems with small indices', 'Duplicates differ by the sign or order of indices of particular members.',
     ['crystal.py', 'crystal_utils.py'], [('families', 'crystal.py: SlipSystem.generate_family, __eq__, __hash__, group, load')],
     'Indices in a stated small range; the slip system files distributed with the package and generated ones.')
prop('C03', 'Pole figure projections match the geometric projection',
     '''Stereographic and equal area projection of a direction are the geometric projections from the pole opposite the plotted hemisphere, with the
     sample y axis to the right: the hemisphere boundary has radius 1 (stereographic) or sqrt(2) (equal area), the pole is at the centre,
     turning a direction by 180 degrees about the normal gives the opposite point, vectors of any length and polar angles describe the
     same point.''',
     'inputs', 'all directions', 'Special directions and hemispheres are not sampled.', ['plotting.py'],
     [('projection', 'plotting.py: PolePlot.stereo_project, lambert_project, add_points')], REAL)
prop('B01', 'Neighbour network and boundary segments partition the boundaries',
     '''Two grains are neighbours exactly when a boundary point separates adjacent points of theirs; every boundary point
     between two grains belongs to exactly one segment, that of this pair of grains.''',
     'inputs', 'all grain maps within the size bound', 'Adjacency at map edges and triple points is combinatorial.',
     ['base.py', 'ebsd.py'], [('network', 'base.py: Map.build_neighbour_network; ebsd.py: BoundarySegment')], 'All label maps of small grids.')
prop('B02', 'Proxigram distances are distances to the nearest boundary',
     '''The distance reported for every point is the distance in pixels from the point to the closest boundary point of the requested set,
     boundary points lying half a pixel beyond the index position, for maps of any size and whatever trial distance or batch size is used.''',
     'inputs', 'all boundary layouts within the bound', 'Caps or index slips show only for distant or particular boundary positions.',
     ['base.py'], [('proxigram', 'base.py: Map.calc_proxigram')], REAL + 'Boundary layouts with up to a few points at any position of the map.')
prop('B03', 'Grain data and map data are consistent views',
     '''Extracting the data of a grain gives the map values at its points in their order, and the grain map image holds them at their position relative to the grain's
     extreme coordinates (also for per-point colours) and the missing value elsewhere. The grain averages are the mean over the points of the grain, written back to the
     map only at the points of the grain (and of the given grains), and the coarse grain map is the block mean over the kernel.''',
     'inputs', 'all maps and grains within the bound', 'Coordinate order slips are invisible on square symmetric test data.',
     ['base.py'], [('grain/map conversion', 'base.py: Grain.grain_data, grain_map_data, grain_map_data_coarse, extreme_coords; Map.grain_data_to_map')], 'Maps up to 3x4, grains of a few points.')
prop('B04', 'Cropping selects exactly the requested window',
     '''Cropping a DIC map returns for every pixel of the window the value of the full map at the same position, for data, binned pattern images and
     homologous points (if their update is requested); any further set_crop replaces the crop distances from the full map, so that cropping can be undone.''',
     ['inputs', 'histories'], 'all crop distances, map contents and sequences of crops', 'Unequal distances on the four sides are needed to see mixed-up sides.',
     ['hrdic.py'], [('crop', 'hrdic.py: Map.set_crop, Map.crop')], 'Maps up to 5x6, up to 3 crops in a row.')
prop('D01', 'Strain comes from the displacement gradient',
     '''The deformation gradient is the identity plus the central differences of the displacement over the sub-window spacing (one-sided at the edges),
     component by component; the strain is the Green strain (F^T F - I)/2, zero for every translation and rigid rotation, and the effective shear strain is
     sqrt(((e00 - e11)/2)^2 + e01^2), at every pixel.''',
     'inputs', 'all displacement fields', 'Component order and axis signs are invisible for symmetric strain states.',
     ['hrdic.py'], [('strain', 'hrdic.py: Map.load_data')], REAL + 'Maps up to 4x4.')
prop('D02', 'DIC grains are connected regions enclosed by EBSD boundaries',
     '''Flood filling on the DIC map yields the regions of points connected without crossing boundary points; a boundary point joins the region on its
     left or above it, or none (-1); regions smaller than the minimum size (counted with the attached boundary points) are marked -2; the points listed for a grain are
     those labelled with its number, numbered from 1 without gaps, including on map edges, after cropping and if there is no grain at all.''',
     'inputs', 'all boundary layouts within the bound, all minimum sizes', 'Layouts are combinatorial.', ['hrdic.py', '_accelerated.py'],
     [('flood fill', 'hrdic.py: Map.find_grains; _accelerated.py: flood_fill_dic')], 'All boundary layouts of small grids.')
prop('D03', 'Masking removes exactly the masked pixels',
     '''Masked points (and points within the requested number of dilation steps to the four neighbours) are missing in the strain data and in nothing else,
     for full and cropped maps; a mask that is no boolean array of the map shape is refused, and setting None removes the mask.''',
     'inputs', 'all masks', 'Masks are combinatorial.', ['hrdic.py'], [('mask', 'hrdic.py: Map.calc_mask, mask')], 'All masks of small grids.')
prop('D04', 'DIC grains link to the EBSD grain they overlap',
     '''With the flood fill algorithm each DIC grain is linked to the EBSD grain that most of its points have after warping, and to none if no point is in a grain. With the warp
     algorithm the DIC grains are the warped EBSD grains renumbered without gaps in increasing order, nonpositive labels are kept, and each grain is
     linked to the EBSD grain it comes from.''',
     'inputs', 'all label layouts', 'Depends on overlap counts and unindexed points.', ['hrdic.py'], [('linking', 'hrdic.py: Map.find_grains')], 'All label layouts of small grids.')
prop('U01', 'Stored and generated map data behave as one dictionary',
     '''Whatever the history of adding, generating, updating, deleting and requesting data, a key present can be read with its latest value, a missing
     one raises an error, iteration lists the keys present, metadata stays with its item, generators run only when their data are requested and missing, derived data follow their
     source and cannot be set, updating from another store copies its items, and crop and mask apply to map data only.''',
     'histories', 'all operation sequences within the bound', 'Order-dependent caches need particular sequences.', ['utils.py'],
     [('store', 'utils.py: Datastore')], 'Sequences of up to 4 (thorough 5) operations on three keys.')
prop('F01', 'Saving and loading an EBSD map returns the same map',
     '''Writing an EBSD map to a .ctf file and reading it gives back the map shape, step size, phases (name, lattice, symmetry and space group, so also the slip systems), the phase, band contrast
     and Euler angles of every point within the digits written; an existing file is not overwritten without the request.''',
     'inputs', 'all small maps', 'Order and unit slips can cancel for symmetric data.', ['file_writers.py', 'file_readers.py'],
     [('round trip', 'file_writers.py: OxfordTextWriter; file_readers.py: OxfordTextLoader')], 'Maps up to 2x3, up to 2 phases.')
prop('F02', 'EBSD loaders place every value at its map position',
     '''Each loader puts every value of the file at the row and column the file gives it, with the right phase, the Euler angles in radians in the common convention and unindexed points as phase 0:
     Oxford .ctf (columns in any order), Oxford .cpr/.crc (fields as listed, including unknown and EDX ones), EDAX .ang (angle
     offset of -90 degrees, phases counted from 1) and python dictionaries. Files whose size or header does not fit are refused.''',
     'inputs', 'all file contents within the bound', 'Files used by tests are few.', ['file_readers.py'], [('loaders', 'file_readers.py: EdaxAngLoader, OxfordTextLoader, OxfordBinaryLoader, PythonDictLoader')], 'Maps up to 2x3.')
prop('F03', 'DIC loaders place every displacement at its map position',
     '''Each loader puts every displacement at the row and column of its coordinates, rows in increasing y whatever the order in the file, keeping components and their signs
     as documented: DaVis text (with statistics), OpenPIV text and binary, pyvale text and binary (missing points have zero displacement).
     Files whose header, spacing or shape disagree with their data are refused.''',
     'inputs', 'all file contents within the bound', 'Files used by tests are few.', ['file_readers.py'], [('loaders', 'file_readers.py: DavisLoader, OpenPivTextLoader, OpenPivBinaryLoader, PyValeLoader')], 'Maps up to 3x3.')
prop('I01', 'Slip lines are grouped by angle',
     '''The stored angle of a line drawn in any direction is its angle from the vertical less the correction angle, between 0 and 180 degrees. In order, every line joins the group with the nearest angle if that
     is within 10 degrees and starts a new group otherwise; the angle of a group is the mean of its lines (to two decimals) and does not depend on
     lines that have been removed. The active planes of a group are those with a slip trace within 5 degrees, angles being those of undirected lines, with their deviations.''',
     ['inputs', 'histories'], 'all line angles, slip trace angles and drawn lines', 'Band edges and wrap-around are rare.', ['inspector.py'],
     [('grouping', 'inspector.py: GrainInspector.group_lines, save_line, remove_line')], 'Up to 3 (thorough 4) lines of any angle, 4 (5) in clusters.')
prop('I02', 'Saved inspector sessions reload unchanged',
     '''Lines, groups, active planes, deviations and displacement ratios of every grain written to a file are read back with the same values for the same
     grain by a new session on the same map.''',
     ['inputs', 'histories'], 'all lines and groups', 'Value types vary with the path by which they were calculated.', ['inspector.py'], [('save and load', 'inspector.py: save_file, load_file')], 'Two grains with up to 2 lines.')
prop('I03', 'Relative displacement ratio is the regression of displacement pairs',
     '''The ratio of a group of lines is the slope of the regression of the x on the y displacement, each centred per set of points across the line, over all pixels of all lines of the group and of no other, at
     the position of the given grain in the (cropped) map; points are taken along the multiple of 45 degrees nearest to the perpendicular, as many as requested. The theoretical ratio of a slip system is minus the x over
     the y component of its slip direction in the sample.''',
     'inputs', 'all displacement fields and orientations', 'Axis swaps are invisible on symmetric data.', ['inspector.py', 'ebsd.py'],
     [('ratio', 'inspector.py: calc_rdr; ebsd.py: Grain.calc_rdr')], REAL + 'Lines of a few pixels; 3 or 5 points across.')
prop('I04', 'Slip trace report describes each grain by its own values',
     '''The slip trace analysis of all grains prints one row for each group of lines, with the number, mean Euler angles and largest Schmid factor of the grain the group belongs to, and the number,
     angle, planes, deviations and displacement ratio of the group, whichever grain is shown.''',
     'inputs', 'all values of the grains and groups', 'A wrong grain shows only if the values differ from those of the grain shown.', ['inspector.py'],
     [('report', 'inspector.py: GrainInspector.batch_run_sta')], 'Two grains with up to 2 groups.')
prop('X01', 'Linked frames transform coordinates in the requested direction',
     '''Once two maps are linked by homologous points, points of one are carried to the partners of the other by the transform of the requested type (affine, projective, polynomial of order 1, piecewise affine), in either
     direction and whichever map was linked, there and back being the identity for affine relations; changed points or a new link take effect at once and too few points or missing links are refused. Lines go to the nearest
     pixel corners, images are warped by nearest neighbour, and the boundaries of a DIC map are those of the EBSD map linked last.''',
     ['inputs', 'histories'], 'all point sets', 'Direction mistakes cancel for symmetric data.', ['experiment.py', 'base.py', 'hrdic.py'], [('frames', 'experiment.py: Experiment, Frame')],
     REAL + 'Three or four pairs of points, images up to 4x4; boundary images for shifts only.')

NA = {}
exec(open(os.path.join(HERE, 'tools', 'na.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'na.py')) else None

have = set()
for f in glob.glob(os.path.join(HERE, 'harness', '*.py')):
    have |= set(re.findall(r"@harness\('([A-Z]\d\d)'", open(f).read()))
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
TECH = 'symbolic execution of the real Python source, verification conditions decided by the Z3 SMT solver, counterexamples replayed on the real code'
m = dict(version=1, setup_cmd='./setup.sh',
         checks=[dict(property=d['id'], quick_cmd='./check.py %s --tier quick' % d['id'],
                      thorough_cmd='./check.py %s --tier thorough' % d['id'],
                      technique=TECH, level='model_checking', level_note=NOTE[d['id']] or 'Bounded sizes, see DESIGN.md and the evidence file.')
                 for d in P if d['id'] in have and d['id'] not in NA],
         not_applicable=[dict(property=d['id'], reason=NA.get(d['id'], 'no check built yet'))
                         for d in P if d['id'] not in have or d['id'] in NA])
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks', [x['property'] for x in m['not_applicable']])
