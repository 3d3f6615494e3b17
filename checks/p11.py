"""P11: selection of satellite pixels by quality flags, and the pipeline that grids them."""
from vf.api import harness
from checks import satpipe
from checks.satpipe import cube

SAT = 'eustace.satgrid_iris.satellite'
PIPE = 'eustace.satgrid_iris.pipeline'
MODIS = 'eustace.satgrid_iris.modis'
FIELD = 'eustace.satgrid_iris.gridbin.gridfieldlist'
SATFILE = 'eustace.satgrid.satellite_file'
STUB = ('iris cubes and coordinates are stand-ins; the replay uses iris itself', 'floating point numbers are real numbers')
F32 = 'float32'
BAD = -32768.0


def iris():
    from vf import fakeiris
    return fakeiris.modules()



@harness(bounds='3 pixels, any 16-bit flags, masks and filters')
def flag_indices(S):
    """Selected pixels are exactly those whose flags agree with the filter in the bits of the mask, in order."""
    F = S.module(SATFILE).SatelliteFile
    q = S.array('qc', (1, 3), 'bv', bits=16, signed=True)
    mask, want = S.bv('mask', 16, True), S.bv('filter', 16, True)
    got = [int(k) for k in S.flat(F.find_qc_flag_indices(q, mask, want))]
    flags = S.flat(q)
    S.check(got == sorted(set(got)) and all(0 <= k < 3 for k in got), 'in order, once each')
    for k in range(3):
        ok = (flags[k] & mask) == want
        S.check(ok if k in got else S.not_(ok), 'selected exactly if the flags agree')


@harness(overrides=iris, assumptions=STUB, bounds='3 pixels, any 16-bit flags, masks and filters, any existing mask or none, coordinates valid or the error value')
def quality_filter(S):
    """A pixel is hidden if it was, or its flags do not agree with the filter, or one of its coordinates is invalid; else it is kept with its value."""
    A = S.module(SAT)
    np = S.np
    x = S.array('x', (1, 3), lo=100, hi=400, dtype=F32)
    q = S.array('qc', (1, 3), 'bv', bits=16, signed=True)
    mask, want = S.bv('mask', 16, True), S.bv('filter', 16, True)
    had = S.array('m', (1, 3), 'bool') if S.fork_bool('masked') else None
    bad = [S.choice('bad%d' % k, [None, 'latitude', 'longitude', 'both'] if k == 1 else [None, 'latitude']) for k in range(3)]
    lat = np.array([[BAD if b in ('latitude', 'both') else 10.0 + k for k, b in enumerate(bad)]])
    lon = np.array([[BAD if b in ('longitude', 'both') else 20.0 + k for k, b in enumerate(bad)]])
    c = cube(S, x, had, q, lat, lon)
    s = A.SatelliteCollection(S.module(MODIS).SatelliteFieldNamesMODIS(), c)
    s.generate_safety_mask()
    hide = s.get_filter_from_qc_flags(mask, want)
    flags = S.flat(q)
    disagree = [S.or_(S.not_((f & mask) == want), b is not None) for f, b in zip(flags, bad)]
    S.eq(list(S.flat(hide)), disagree, 'filter')
    before = list(S.flat(had)) if had is not None else [False] * 3
    s.apply_filter(hide)
    got = s.cube.data
    S.eq(list(S.flat(got.mask)), [S.or_(a, b) for a, b in zip(before, disagree)], 'hidden before or by the filter')
    S.eq(list(S.flat(got.data)), list(S.flat(x)), 'values are kept')


class Names(object):
    primary, qc, coordinate_fields, uncertainty_fields, uncertainty_scalars = 'LST', 'QC', ['latitude', 'longitude'], ['u'], ['sys']


@harness(overrides=iris, assumptions=STUB, bounds='2 pixels, any masks of the temperature, flag and uncertainty fields and of the scalar')
def loading(S):
    """Pixels without all their auxiliary values are hidden; a masked scalar is refused unless there is nothing to apply it to; coordinates must be there."""
    A = S.module(SAT)
    np = S.np
    x, u, k = S.array('x', (1, 2), lo=100, hi=400, dtype=F32), S.array('u', (1, 2), lo=0, hi=9, dtype=F32), S.array('k', 1, lo=0.5, hi=9, dtype=F32)
    m = [S.fork_bool('m%d' % i) for i in range(2)]
    mu = [S.fork_bool('mu%d' % i) for i in range(2)]
    mk = S.fork_bool('mk')
    coordinates = S.choice('coordinates', [['latitude', 'longitude'], ['latitude']])
    cubes = [A.Cube(np.ma.masked_array(data=x, mask=[m]), var_name='LST'),
             A.Cube(np.ma.masked_array(data=np.array([[0, 1]], np.int16), mask=[[False, False]]), var_name='QC'),
             A.Cube(np.ma.masked_array(data=u, mask=[mu]), var_name='u'),
             A.Cube(np.ma.masked_array(data=k, mask=[mk]), var_name='sys')]
    cubes += [A.Cube(np.array([[1.0, 2.0]]), var_name=n) for n in coordinates] + [A.Cube(np.array([[1.0, 2.0]]), var_name='other')]

    def load(names, constraints=None):
        return [c for c in cubes if any(w.extract(c) is not None for w in constraints)]

    def load_cube(name, constraint=None):
        found = load([name], [constraint])
        assert len(found) == 1
        return found[0]
    keep = A.load, A.load_cube
    A.load, A.load_cube = load, load_cube
    try:
        r = S.attempt(A.SatelliteCollection.load, Names, ['lst.nc', 'aux.nc'])
    finally:
        A.load, A.load_cube = keep
    hidden = [a or b for a, b in zip(m, mu)]
    refused = len(coordinates) == 1 or (mk and not all(hidden))
    S.check(r.raised == refused, 'refused exactly if a coordinate is missing or a scalar that is needed is masked')
    if refused:
        S.check(isinstance(r.error, ValueError), 'refused as a value error')
        return
    c = r.value.cube
    S.eq(list(S.flat(c.data.mask)), hidden, 'pixels without all values are hidden')
    S.eq(list(S.flat(c.data.data)), list(S.flat(x)), 'temperatures')
    S.eq(list(S.flat(getattr(c.coord('u').points, 'data', None) if hasattr(c.coord('u').points, 'mask') else c.coord('u').points)), list(S.flat(u)), 'uncertainties')
    sys = S.flat(c.coord('sys').points)
    S.eq(sys, [0.0] if mk else list(S.flat(k)), 'scalar, zero where there is nothing to apply it to')


@harness(bounds='a single time, and all times of any of four days')
def input_list(S):
    """A day has one pair of files for each five minutes, in order; a single time has one."""
    A = S.module(SAT)

    class Args(object):
        path, pattern_lst, pattern_aux = 'p', 'lst.%Y%m%d.%H%M.nc', '%H/aux.%Y%m%d.%H%M.nc'
    d = S.choice('day', ['20010723', '20000229', '19991231', '20110101'])
    Args.date = d
    got = A.SatelliteInputList(Args)
    want = [['p/lst.%s.%02d%02d.nc' % (d, h, m), 'p/%02d/aux.%s.%02d%02d.nc' % (h, d, h, m)] for h in range(24) for m in range(0, 60, 5)]
    S.check([list(f) for f in got.filenames] == want, 'files of a day')
    S.check(got.time_mode == 'day', 'whole day')
    i = S.int('time', 0, 287)
    Args.date = d + '%02d%02d' % (int(i) // 12, int(i) % 12 * 5) if not S.symbolic else d + '0735'
    one = A.SatelliteInputList(Args)
    S.check([list(f) for f in one.filenames] == [['p/lst.%s.%s.nc' % (d, Args.date[8:]), 'p/%s/aux.%s.%s.nc' % (Args.date[8:10], d, Args.date[8:])]], 'files of a time')
    S.check(one.time_mode == 'single', 'single time')


@harness(params=[(k,) for k in range(3)], overrides=iris, assumptions=STUB, max_paths=20000, tol=1e-3,
         bounds='3 files of 2, 1 and 1 pixels in 3 arrangements over 1 x 2 cells, each file there, missing or unreadable, pixels clear, cloudy or of the other time of day, any temperatures and uncertainties')
def pipeline(S, arrangement):
    """Fields of the grid are statistics of the selected pixels of all files that could be read, and files are reported as they were found."""
    satpipe.pipeline(S, arrangement)


@harness(max_paths=20000, tol=1e-4, assumptions=('floating point numbers are real numbers; aggregate.c is interpreted from its source, and compiled for the replay',),
         bounds='3 files of 2, 1 and 1 pixels in 3 arrangements over 1 x 2 cells, each file there, missing or unreadable, pixels clear, cloudy or of the other time of day, any temperatures and uncertainties')
def run_files(S):
    """Every file that can be read counts once; others are reported and add nothing."""
    satpipe.run_files(S)


@harness(bounds='each of two files there or not, readable or not', assumptions=('the file system is a stand-in',))
def readable(S):
    """A source can be read if all its files are there and may be read."""
    satpipe.readable(S)
