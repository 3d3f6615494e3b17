"""P23: quality control flags."""
import datetime
import re
from fractions import Fraction

from vf.api import harness

POST = 'eustace.postprocess.'
REAL = ('floating point numbers are real numbers',)
BIT = dict(DAY=0, PRIOR_WINDOW=1, POST_WINDOW=2, PRIOR_CALENDAR=3, POST_CALENDAR=4, CLIMATOLOGY_UNC=5, LARGE_SCALE_UNC=6, AREAL_LOW=7,
           AREAL_HIGH=8, EXTREME_LOW=9, EXTREME_HIGH=10, PERSISTANT_OUTLIER=11, MISSING_MARINE=12, LOCATION_LOW=13, LOCATION_HIGH=14, MISSING_FLAG=15)


def flag(*names):
    return sum(1 << BIT[n] for n in names)


class Axis(object):
    def __init__(self, points):
        self.points = points


class Cube(object):
    def __init__(self, name, data, var_name='', axes=None):
        self.title, self.data, self.var_name, self.axes, self.shape = name, data, var_name, axes or {}, getattr(data, 'shape', None)

    def name(self):
        return self.title

    def coord(self, name):
        return Axis(self.axes[name])


def files(S, contents):
    """Stand-in for iris: cubes by file name; files which are not there cannot be loaded."""
    iris = S.module('iris')
    asked = []

    def load(name, *a):
        if isinstance(name, (list, tuple)):
            return [c for n in name for c in load(n)]
        asked.append(str(name))
        if str(name) not in contents:
            raise IOError('no such file: %s' % name)
        return list(contents[str(name)])

    def load_cube(name, constraint=None):
        return load(name)[0]
    iris.load, iris.load_cube = load, load_cube
    return asked


def qc(directory, day, iteration=9):
    return '%s/%04d/eustace_analysis_%d_qc_flags_%04d%02d%02d.nc' % (directory, day.year, iteration, day.year, day.month, day.day)


def part(directory, kind, day, iteration=9):
    return '%s/eustace_%s_%d/%04d/eustace_%s_%d_%04d%02d%02d.nc' % (directory, kind, iteration, day.year, kind, iteration, day.year, day.month, day.day)


def words(S, name, shape):
    return S.array(name, (1,) + shape, kind='bv', bits=16)


def pair(S, name, shift):
    """Flags of two cells: any flags of the first; the second differs from it and between days."""
    w = S.bv(name, 16)
    return S.np.array([[[w, S.np.uint16((0, 0xffff, 0x0183)[shift % 3])]]], dtype=S.np.uint16)


def flagcube(S, data):
    return Cube('Quality control flags', S.np.array(data))


def values(S, x):
    return S.flat(x)


def has(S, word, bits):
    return (word & bits) == bits


def count(S, xs):
    return S.sum([S.ite(x, 1, 0) for x in xs])


def bits_equal(S, got, want, label):
    S.eq(len(got), len(want), label + ': number of cells')
    for g, w in zip(got, want):
        S.check(S.not_(S.not_(g == w)), label)


def patch_size(S, module, n, m):
    d = S.module('eustace.outputformats.definitions')
    d.GLOBAL_FIELD_SHAPE = (1, n, m)
    return S.module(module)


DAYS = [datetime.datetime(2000, 2, 29), datetime.datetime(2001, 12, 31), datetime.datetime(1880, 1, 1)]


@harness(params=[(d, w, t) for d in range(3) for w, t in ((1, 1), (2, 1), (2, 2), (2, 3))], bounds='windows of 1 or 2 days either side, thresholds 1 to 3, constraint by one flag or by two together, 3 dates across month and year ends, any flags of a cell and three of another, any days missing but at least one other day present')
def window(S, which, window_range, threshold):
    """A cell is flagged as unconstrained before (after) the day when fewer than the threshold of the days before (after) are constrained; other flags stay."""
    day = DAYS[which]
    m = S.module(POST + 'window_check')
    contents, flags = {}, {}
    for shift in range(-window_range, window_range + 1):
        d = day + datetime.timedelta(days=shift)
        if shift == 0 or S.fork_bool('have%d' % shift):
            w = pair(S, 'f%d' % shift, shift)
            flags[shift] = S.flat(w)
            contents[qc('/in', d)] = [Cube('something else', None), flagcube(S, w)]
    S.assume(len(flags) > 1)
    files(S, contents)
    target = flag('DAY', 'AREAL_LOW') if (window_range, threshold) == (2, 1) else flag('DAY')
    got = values(S, m.local_window_constraint_checks('/in', '/out', 9, day, window_range, threshold, S.np.uint16(target)))
    want = []
    for i in range(2):
        before = count(S, [S.not_(has(S, flags[s][i], target)) for s in flags if s < 0])
        after = count(S, [S.not_(has(S, flags[s][i], target)) for s in flags if s > 0])
        f = flags[0][i]
        f = S.ite(before < threshold, f | flag('PRIOR_WINDOW'), f)
        want.append(S.ite(after < threshold, f | flag('POST_WINDOW'), f))
    bits_equal(S, got, want, 'window flags')


@harness(params=[(d, a, b) for d in range(3) for a, b in ((-2, 2), (-1, 3), (0, 3), (-4, 0))], bounds='4 or 5 years around or beside 3 dates (one of them 29 February), any flags of a cell and three of another, any other years missing but at least one present')
def calendar(S, which, first, last):
    """Calendar day flags: no constrained year before, none after, fewer than three in all; other flags stay. 29 February is compared with 28 February of common years."""
    day = DAYS[which]
    m = S.module(POST + 'calendar_check')
    contents, flags = {}, {}
    for shift in range(first, last + 1):
        year = day.year + shift
        leap = year % 4 == 0 and (year % 100 != 0 or year % 400 == 0)
        d = day.replace(year=year, day=28 if (day.month, day.day) == (2, 29) and not leap else day.day)
        if shift == 0 or S.fork_bool('have%d' % shift):
            w = pair(S, 'f%d' % shift, shift)
            flags[shift] = S.flat(w)
            contents[qc('/in', d)] = [flagcube(S, w)]
    S.assume(len(flags) > 1)
    files(S, contents)
    target = flag('DAY', 'PRIOR_WINDOW', 'POST_WINDOW')
    got = values(S, m.calendar_constraint_checks('/in', '/out', 9, day, day.year + first, day.year + last, S.np.uint16(target)))
    want = []
    for i in range(2):
        free = {s: S.not_(has(S, flags[s][i], target)) for s in flags}
        f = flags[0][i]
        f = S.ite(S.any([free[s] for s in free if s < 0]), f, f | flag('PRIOR_CALENDAR'))
        f = S.ite(S.any([free[s] for s in free if s > 0]), f, f | flag('POST_CALENDAR'))
        want.append(S.ite(count(S, free.values()) < 3, f | flag('MISSING_FLAG'), f))
    bits_equal(S, got, want, 'calendar flags')


@harness(params=[(d, w, t) for d in range(3) for w, t in ((1, 1), (1, 2), (2, 2), (2, 4))], bounds='windows of 1 or 2 days either side, thresholds 1 to 4, any flags of a cell and three of another, any other days missing')
def persistent(S, which, window_range, threshold):
    """A cell is a persistent outlier when at least the threshold of the days of the window, the day itself among them, carry any of the outlier flags."""
    day = DAYS[which]
    m = S.module(POST + 'outlier_window_check')
    contents, flags = {}, {}
    for shift in range(-window_range, window_range + 1):
        if shift == 0 or S.fork_bool('have%d' % shift):
            w = pair(S, 'f%d' % shift, shift)
            flags[shift] = S.flat(w)
            contents[qc('/in', day + datetime.timedelta(days=shift))] = [flagcube(S, w)]
    files(S, contents)
    got = values(S, m.persistant_outlier_check('/in', '/out', 9, day, window_range, threshold))
    want = []
    for i in range(2):
        bad = count(S, [(flags[s][i] & flag('AREAL_LOW', 'AREAL_HIGH', 'EXTREME_LOW', 'EXTREME_HIGH')) != 0 for s in flags])
        want.append(S.ite(bad >= threshold, flags[0][i] | flag('PERSISTANT_OUTLIER'), flags[0][i]))
    bits_equal(S, got, want, 'outlier flags')


@harness(bounds='any flags of 3 cells in two files')
def merged(S):
    """Merged flags are those set in either file, the low areal flag of the second standing for the marine flag."""
    m = S.module(POST + 'merge_flag_files')
    a, b = words(S, 'a', (1, 3)), words(S, 'b', (1, 3))
    A, B = S.flat(a), S.flat(b)
    files(S, {qc('/one', DAYS[0]): [flagcube(S, a)], qc('/two', DAYS[0]): [flagcube(S, b)]})
    got = values(S, m.merged_flags('/one', '/two', '/out', 9, DAYS[0]))
    low = flag('AREAL_LOW')
    want = [x | S.ite(has(S, y, low), (y & (0xffff - low)) | flag('MISSING_MARINE'), y) for x, y in zip(A, B)]
    bits_equal(S, got, want, 'merged flags')


def window_mean(field, half_lat, half_lon):
    """Mean over the window about each cell of rows and columns; columns wrap around, rows turn back at the poles."""
    n, m = len(field), len(field[0])
    out = []
    for i in range(n):
        row = []
        for j in range(m):
            total = 0
            for a in range(i - half_lat, i + half_lat + 1):
                while a < 0 or a > n - 1:
                    a = -a if a < 0 else 2 * (n - 1) - a
                for b in range(j - half_lon, j + half_lon + 1):
                    total = total + field[a][b % m]
            row.append(total / ((2 * half_lat + 1) * (2 * half_lon + 1)))
        out.append(row)
    return out


def grid(S, flat, n, m):
    flat = S.flat(flat)
    return [flat[i * m:(i + 1) * m] for i in range(n)]


@harness(params=[(10, 10, 1, 3), (12, 11, 3, 3), (4, 5, 3, 3), (3, 12, 1, 5), (21, 3, 5, 3), (10, 20, 3, 1)], assumptions=REAL, bounds='images of 10 to 200 cells, of up to 21 rows or columns, windows of 1 to 5 cells each way')
def means(S, n, m, wa, wo):
    """Running mean over the window: around the globe in longitude, turned back at the first and last rows."""
    f = S.array('f', (n, m), lo=-10, hi=10)
    F = grid(S, f, n, m)
    got = S.module(POST + 'outlier_check').compute_window_mean(f, wa, wo)
    S.eq(list(S.shape(got)), [n, m], 'shape')
    for g, w in zip(grid(S, got, n, m), window_mean(F, wa // 2, wo // 2)):
        S.close(g, w, 'running mean', tol=1e-9)


SMOOTH = [('climatology_uncertainty_checks', 'climatology_component', 1, 6, 'CLIMATOLOGY_UNC', False), ('large_scale_uncertainty_checks', 'large_scale_component', 1, 8, 'LARGE_SCALE_UNC', False),
          ('local_influence_checks', 'analysis', 2, 2, 'DAY', True)]
PARTS = ['air_temperature', 'Total uncertainty in average daily surface air temperature', 'Observation influence for average daily surface air temperature',
         'Average daily surface air temperature ensemble']


@harness(params=[(i,) for i in range(3)], assumptions=REAL, bounds='fields of 3 by 3 cells, one of them with any value, any threshold')
def smoothed(S, which):
    """Uncertainty flags where the smoothed uncertainty exceeds the threshold, the day flag where the smoothed influence is below it; no other flags."""
    name, kind, at, half, bit, below = SMOOTH[which]
    n, m = 3, 3
    mod = patch_size(S, POST + 'threshold_check', n, m)
    F = [[Fraction(i * 3 + j, 16) for j in range(m)] for i in range(n)]
    F = [[float(x) for x in r] for r in F]
    cells = S.array('f', 1, lo=-10, hi=200)
    for x, (i, j) in zip(S.flat(cells), ((2, 1),)):
        F[i][j] = x
    data = S.np.array([F], dtype=S.np.float64)
    cubes = [Cube(t, data if k == at else S.np.zeros((1, n, m))) for k, t in enumerate(PARTS)]
    files(S, {part('/in', kind, DAYS[1]): cubes})
    limit = S.real('threshold', -10, 60)
    got = values(S, getattr(mod, name)('/in', '/out', 9, DAYS[1], limit))
    want = [x for r in window_mean(F, half, half) for x in r]
    S.eq(len(got), n * m, 'a flag for each cell')
    for g, w in zip(got, want):
        S.check(S.or_(S.and_(g == flag(bit), w < limit if below else w > limit), S.and_(g == 0, w >= limit if below else w <= limit), S.and_(w - limit < 1e-9, limit - w < 1e-9, S.or_(g == 0, g == flag(bit)))), bit + ' flag')


@harness(params=[(10, 12), (12, 10), (5, 6)], assumptions=REAL, bounds='fields of 5 by 6 to 12 by 10 cells, one or two of them with any values')
def extremes(S, n, m):
    """Cells within two cells of a value below (above) the limits are flagged as extreme, and no others."""
    mod = patch_size(S, POST + 'outlier_check', n, m)
    F = [[280.0] * m for i in range(n)]
    for x, (i, j) in zip(S.flat(S.array('f', 2, lo=100, hi=400)), ((0, 1), (n - 2, m - 1))):
        F[i][j] = x
    files(S, {part('/in', 'analysis', DAYS[1]): [Cube(t, S.np.array([F], dtype=S.np.float64)) for t in PARTS]})
    got = grid(S, mod.extremes_checks('/in', '/out', 9, DAYS[1], 193.15, 333.15), n, m)
    for i in range(n):
        for j in range(m):
            low, high = [], []
            for a in range(i - 2, i + 3):
                a = -a if a < 0 else 2 * (n - 1) - a if a > n - 1 else a
                for b in range(j - 2, j + 3):
                    low.append(F[a][b % m] < 193.15)
                    high.append(F[a][b % m] > 333.15)
            want = S.ite(S.any(low), flag('EXTREME_LOW'), 0) + S.ite(S.any(high), flag('EXTREME_HIGH'), 0)
            S.check(got[i][j] == want, 'extreme value flags')


@harness(assumptions=REAL, bounds='2 by 2 cells, any values, medians and quartiles')
def location(S):
    """Cells further from the median of their calendar day than eight times the distance of the quartile on that side are flagged, and no others."""
    mod = patch_size(S, POST + 'cell_percentile_threshold', 2, 2)
    x, q1, q2, q3 = (S.array(k, (2, 2), lo=200, hi=400) for k in ('x', 'q1', 'q2', 'q3'))
    X, A, B, C = (S.flat(v) for v in (x, q1, q2, q3))
    S.assume(S.all([S.and_(a <= b, b <= c) for a, b, c in zip(A, B, C)]))
    files(S, {part('/in', 'analysis', DAYS[0]): [Cube(t, S.np.array([grid(S, x, 2, 2)], dtype=S.np.float64)) for t in PARTS]})
    asked = []

    def load(name, *a, **k):
        asked.append(str(name))
        return {'lower_quartile_block': q1, 'median_block': q2, 'upper_quartile_block': q3}
    mod.numpy.load = load
    got = values(S, mod.location_threshold_checks('/in', '/percentiles', '/out', 9, DAYS[0]))
    S.eq(asked, ['/percentiles/eustace_analysis_9_percentiles_0229.npz'], 'quartiles of the calendar day')
    for g, v, a, b, c in zip(got, X, A, B, C):
        S.check(S.implies(v < b - 8 * (b - a) - 1e-9, has(S, g, flag('LOCATION_LOW'))), 'too cold for the place')
        S.check(S.implies(v > b + 8 * (c - b) + 1e-9, has(S, g, flag('LOCATION_HIGH'))), 'too hot for the place')
        S.check(S.implies(v > b - 8 * (b - a) + 1e-9, S.not_(has(S, g, flag('LOCATION_LOW')))), 'not too cold')
        S.check(S.implies(v < b + 8 * (c - b) - 1e-9, S.not_(has(S, g, flag('LOCATION_HIGH')))), 'not too hot')
        S.check((g & (0xffff - flag('LOCATION_LOW', 'LOCATION_HIGH'))) == 0, 'no other flags')


@harness(params=[(POST + 'threshold_check',), (POST + 'apply_mask',)], assumptions=REAL, bounds='4 by 4 cells, any share of water inside the edges of the map')
def marine(S, name):
    """Cells of water (all water, or more than 95 % for masking) carry the marine flag and no others; the first row is land, the last sea, and the outer columns repeat their neighbours."""
    mod = patch_size(S, name, 4, 4)
    c = S.array('c', (4, 4), lo=0, hi=100)
    C = grid(S, c, 4, 4)
    files(S, {'/gws/nopw/j04/eustace/data/internal/climatology_covariates/coastal_influence.test.0.25_0.25.nc': [Cube('coast', S.np.array(C), 'coastal_influence')]})
    if name.endswith('apply_mask'):
        f = words(S, 'f', (4, 4))
        before, limit = S.flat(f), 95.0
        got = mod.reset_marine_flag(f)
        S.eq(list(S.shape(got)), [1, 4, 4], 'shape')
        got = values(S, got)
    else:
        before, limit = [0] * 16, None
        got = values(S, mod.get_marine_flag())
    for k, (g, b) in enumerate(zip(got, before)):
        i, j = divmod(k, 4)
        water = 0.0 if i == 0 else 100.0 if i == 3 else C[i][min(max(j, 1), 2)]
        sea = water > limit if limit is not None else water >= 100.0
        if i == 3:
            sea = True
        if i == 0:
            sea = False
        clear = b & (0xffff - flag('MISSING_MARINE')) if limit is not None else 0
        S.check(g == S.ite(sea, clear | flag('MISSING_MARINE'), clear), 'marine flag')


def quartiles(S, xs):
    """Quartiles of numbers, interpolated between neighbours of the ordered numbers."""
    n, v = len(xs), list(xs)
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = v[j], v[j + 1]
            if isinstance(a, float) and isinstance(b, float):
                v[j], v[j + 1] = min(a, b), max(a, b)
            else:
                c = a <= b
                v[j], v[j + 1] = S.ite(c, a, b), S.ite(c, b, a)
    out = []
    for q in (1, 2, 3):
        i, r = divmod((n - 1) * q, 4)
        out.append(v[i] + (v[i + 1] - v[i]) * (r / 4.0) if r else v[i])
    return out


def around(F, i, j, a, b):
    """Values of the window about a cell."""
    n, m = len(F), len(F[0])
    out = []
    for x in range(i - a, i + a + 1):
        while x < 0 or x > n - 1:
            x = -x if x < 0 else 2 * (n - 1) - x
        out += [F[x][y % m] for y in range(j - b, j + b + 1)]
    return out


def relief(n, m):
    return [[270.0 + ((i * 7 + j * 5) % 11) * 0.5 for j in range(m)] for i in range(n)]


@harness(params=[(4, 5, 1, 1), (11, 4, 1, 0), (3, 12, 0, 1)], assumptions=REAL, bounds='images of 20 to 44 cells, 2 of them with any values, windows of 3 cells one or both ways')
def quartile_windows(S, n, m, a, b):
    """Running quartiles over the window: around the globe in longitude, turned back at the first and last rows."""
    F = relief(n, m)
    F[0][0], F[n - 2][m - 1] = S.real('x', 200, 350), S.real('y', 200, 350)
    got = S.module(POST + 'outlier_check').compute_window_median_quartiles(S.np.array(F, dtype=S.np.float64), 2 * a + 1, 2 * b + 1)
    got = [grid(S, g, n, m) for g in got]
    for i in range(n):
        for j in range(m):
            S.close([g[i][j] for g in got], quartiles(S, around(F, i, j, a, b)), 'quartiles', tol=1e-9)


@harness(params=[(5, 2), (6, 3), (4, 3)], assumptions=REAL, bounds='global fields of 4 to 6 rows of 4 cells in blocks of 2 or 3 rows, one cell with any value')
def areal(S, n, block):
    """Cells within two cells of a value outside the quartiles of its surroundings, less the effect of altitude, by more than four times the distance from the
    median are flagged, and no others; surroundings reach 750 km, and at most the number of cells allowed."""
    import math
    m, limit = 4, 4.0
    mod = patch_size(S, POST + 'outlier_check', n, m)
    mod.LATITUDE_BLOCK_SIZE, mod.MAX_LONGITUDE_SEARCH_RANGE_GRID_CELLS, mod.MAX_LATITUDE_SEARCH_RANGE_GRID_CELLS = block, 1, 1
    lats, lons = [-60.0 + 8.0 * i for i in range(n)], [-135.0 + 90.0 * j for j in range(m)]
    F = relief(n, m)
    F[n - 1][0] = S.real('x', 100, 400)
    height = [[125.0 * ((i + 2 * j) % 4) for j in range(m)] for i in range(n)]
    axes = {'latitude': S.np.array(lats), 'longitude': S.np.array(lons)}
    files(S, {part('/in', 'analysis', DAYS[1]): [Cube(t, S.np.array([F], dtype=S.np.float64), axes=axes) for t in PARTS],
              mod.ALTITUDE_FILE: [Cube('dem', S.np.array(height), 'dem')]})
    got = grid(S, mod.areal_checks('/in', '/out', 9, DAYS[1], limit), n, m)
    A = [[F[i][j] + 4.5 * height[i][j] / 1000 for j in range(m)] for i in range(n)]
    low, high = {}, {}
    for i in range(n):
        for j in range(m):
            q1, q2, q3 = quartiles(S, around(A, i, j, 1, 1))
            d1, d3 = q1 - limit * (q2 - q1) - A[i][j], A[i][j] - (q3 + limit * (q3 - q2))
            S.assume(S.and_(*[S.or_(d > 1e-6, d < -1e-6) for d in (d1, d3)]))
            low[i, j], high[i, j] = d1 > 0, d3 > 0
    for i in range(n):
        for j in range(m):
            bits = 0
            for mark, bit in ((low, 'AREAL_LOW'), (high, 'AREAL_HIGH')):
                marks = [[mark[a, b] for b in range(m)] for a in range(n)]
                bits = bits + S.ite(S.any(around(marks, i, j, 2, 2)), flag(bit), 0)
            S.check(got[i][j] == bits, 'areal flags')
