"""P25: air temperatures over ice: screening of surface temperatures, the model and its uncertainties, and the global field."""
import math

from vf.api import harness

QC = 'eustace.surfaceairmodel.model_ice_input_processing'
ICE = 'eustace.surfaceairmodel.model_ice'
REAL = ('floating point numbers are real numbers',)
KINDS = {'tas': 'quality_controlled_surface_temperature', 'tasmin': 'quality_controlled_surface_temperature_min', 'tasmax': 'quality_controlled_surface_temperature_max'}
NIGHT, DAY = (0, 1, 6, 7), (2, 3, 4, 5)


class Field(object):
    """Values and masks of a field by index; a plain value stands for all."""

    def __init__(self, S, shape, value, mask=False, only=None):
        """only: {index: (value, mask)}"""
        self.S, self.shape = S, shape
        self.cell = {}
        index = [()]
        for n in shape:
            index = [i + (k,) for i in index for k in range(n)]
        for i in index:
            self.cell[i] = (only or {}).get(i, (value, mask))
        nest = lambda f: self._nest(f, ())
        self.values, self.masks = nest(0), nest(1)

    def _nest(self, part, at):
        if len(at) == len(self.shape):
            return self.cell[at][part]
        return [self._nest(part, at + (k,)) for k in range(self.shape[len(at)])]

    def array(self, dtype=None):
        np = self.S.np
        return np.ma.masked_array(np.array(self.values, dtype=dtype or np.float64), np.array(self.masks, dtype=bool))


def inputs(S, shape, latitude=None, **fields):
    """A day of input: plain and valid unless given."""
    np = S.np
    n, m = shape
    plain = dict(surface_temperature=Field(S, shape, 260.0), surface_temperature_min=Field(S, shape, 255.0), surface_temperature_max=Field(S, shape, 265.0),
                 surface_temperature_std=Field(S, shape, 1.0), surface_temperature_3d=Field(S, (8,) + shape, 260.0), Nobs3d=Field(S, (8,) + shape, 1),
                 land_mask=Field(S, shape, 0), sea_ice_fraction=Field(S, shape, 0.9), uncorrelated_uncertainty=Field(S, shape, 1.0),
                 synoptically_correlated_uncertainty=Field(S, shape, 1.0), large_scale_correlated_uncertainty=Field(S, shape, 1.0))
    plain.update(fields)
    given = {k: v.array(np.int64 if k in ('Nobs3d', 'land_mask') else None) for k, v in plain.items()}
    lat = np.array(latitude if latitude is not None else [60.0 + k for k in range(n)])
    return S.module(QC).IceSurfaceTemperatureQualityControl(50000, lat, np.array([10.0 * k for k in range(m)]), **given), plain


def screened(S, kind, f, at):
    """Whether a cell is hidden, outliers apart."""
    v = lambda name: f[name].cell[at]
    name = {'tas': 'surface_temperature', 'tasmin': 'surface_temperature_min', 'tasmax': 'surface_temperature_max'}[kind]
    land, ice, ice_unknown = v('land_mask')[0], v('sea_ice_fraction')[0], v('sea_ice_fraction')[1]
    on_land = S.or_(land == 1, land == 4)
    at_sea = S.and_(S.not_(ice_unknown), ice >= 0.3)
    known = lambda name, limit: S.and_(S.not_(v(name)[1]), v(name)[0] > limit)
    bins = lambda which: [(f['surface_temperature_3d'].cell[(b,) + at]) for b in which]

    def unobserved(which):
        obs = [f['Nobs3d'].cell[(b,) + at] for b in which]
        return S.and_(*[S.or_(m, x == 0) for x, m in obs])

    def far(x, which, limit):
        got = bins(which)
        n = S.sum([S.ite(m, 0, 1) for _, m in got])
        total = S.sum([S.ite(m, 0.0, y) for y, m in got])
        return S.and_(n > 0, S.or_(x * n - total > limit * n, total - x * n > limit * n))
    x, hidden = v(name)
    reasons = [hidden, S.not_(S.or_(on_land, at_sea)), known('surface_temperature_std', 7.07), known('surface_temperature', 278.15)]
    if kind != 'tasmax':
        reasons.append(unobserved(NIGHT))
    if kind != 'tasmin':
        reasons.append(unobserved(DAY))
    if kind == 'tas':
        reasons.append(far(x, range(8), 10))
    if kind == 'tasmax':
        reasons.append(far(x, DAY, 20))
    return S.or_(*reasons), on_land, at_sea


def one(S, at, kind):
    """Everything about one cell is unknown."""
    r, b = (lambda n, lo, hi: S.real(n, lo, hi)), (lambda n: S.bool(n))
    shape = (5, 5)
    f = {}
    for name in ('surface_temperature', 'surface_temperature_min', 'surface_temperature_max'):
        f[name] = Field(S, shape, 260.0, only={at: (r(name, 200, 300), b(name + '?'))})
    f['surface_temperature_std'] = Field(S, shape, 1.0, only={at: (r('std', 0, 20), b('std?'))})
    f['surface_temperature_3d'] = Field(S, (8,) + shape, 260.0, only={(k,) + at: (r('bin%d' % k, 200, 300), b('bin%d?' % k) if k in (1, 4) else False) for k in range(8)})
    f['Nobs3d'] = Field(S, (8,) + shape, 1, only={(k,) + at: (S.int('n%d' % k, 0, 3), b('n%d?' % k) if k in (0, 5) else False) for k in range(8)})
    f['land_mask'] = Field(S, shape, 0, only={at: (S.int('land', 0, 5), False)})
    f['sea_ice_fraction'] = Field(S, shape, 0.9, only={at: (r('ice', 0, 1), b('ice?'))})
    return f


@harness(params=[(k, n) for k in sorted(KINDS) for n in (0, 1, 2)], assumptions=REAL, timeout_ms=30000,
         bounds='any temperatures, deviation, ice, surface and bins (two of them and two counts possibly missing) of one cell in the middle, corner or at the edge of 5 x 5 cells, others plain')
def screening(S, kind, n):
    """A surface temperature is used only if known, over ice, steady, not warm, observed at its time of day, near its bins and not much colder than those around; all others are."""
    at = [(0, 0), (2, 2), (4, 2)][n]
    f = one(S, at, kind)
    q, f = inputs(S, (5, 5), **f)
    got = getattr(q, KINDS[kind])()
    S.eq(list(S.shape(got)), [5, 5], 'shape')
    m = S.flat(S.np.ma.getmaskarray(got))
    hidden, on_land, at_sea = screened(S, kind, f, at)
    name = {'tas': 'surface_temperature', 'tasmin': 'surface_temperature_min', 'tasmax': 'surface_temperature_max'}[kind]
    x = f[name].cell[at][0]
    if at == (2, 2):
        hidden = S.or_(hidden, S.and_(at_sea, x < 250.0))      # all around are sea ice at 260
    S.eq(m[at[0] * 5 + at[1]], hidden, 'cell is used if it passes all tests and only then')
    for k in range(25):
        if k != at[0] * 5 + at[1]:
            S.check(S.not_(m[k]), 'other cells do not depend on it')
    d = S.flat(S.np.ma.getdata(got))
    S.close(d, [f[name].cell[(k // 5, k % 5)][0] for k in range(25)], 'values stay')


AROUND = [[0] * 30, [1] * 30, [(0, 1)[(k % 6) < 3] for k in range(30)], [(0, 4, 1)[k % 3] for k in range(30)], [(2, 0)[k % 2] for k in range(30)]]


@harness(params=list(range(len(AROUND))), assumptions=REAL, timeout_ms=30000, bounds='5 x 6 cells, 5 patterns of land and sea ice, any temperatures, five of them possibly missing, two without sea ice and two unsteady')
def outliers(S, which):
    """A temperature more than 10 K below the mean of the others of its kind of ice within two cells each way is hidden, if there are two or more; none at the border is."""
    land = AROUND[which]
    maybe = {(2, 2): 'a', (2, 3): 'b', (0, 0): 'c', (4, 4): 'd', (1, 3): 'e'}
    x = {(i, j): S.real('x%d%d' % (i, j), 230, 275) for i in range(5) for j in range(6)}
    # most around are missing, so that few of them decide
    hidden = {at: True for at in x if which == 4 and at not in maybe and at not in ((2, 0), (3, 5))}
    for at, n in maybe.items():
        hidden[at] = S.bool('missing ' + n)
    ice = {(2, 2): (S.real('ice22', 0, 1), False), (2, 4): (S.real('ice24', 0, 1), S.bool('ice24?'))}
    t = Field(S, (5, 6), None, only={at: (x[at], hidden.get(at, False)) for at in x})
    q, f = inputs(S, (5, 6), surface_temperature_min=t, land_mask=Field(S, (5, 6), None, only={(i, j): (land[i * 6 + j], False) for i in range(5) for j in range(6)}),
                  sea_ice_fraction=Field(S, (5, 6), 0.9, only=ice), surface_temperature_std=Field(S, (5, 6), 1.0, only={(1, 1): (S.real('std', 0, 20), False), (3, 3): (S.real('std33', 0, 20), S.bool('std33?'))}))
    m = S.flat(S.np.ma.getmaskarray(q.quality_controlled_surface_temperature_min()))
    info = {at: screened(S, 'tasmin', f, at) for at in x}
    for at in sorted(x):
        want = info[at][0]
        if at in ((2, 2), (2, 3)):
            for kind in (1, 2):
                near = [b for b in x if b != at and abs(b[0] - at[0]) <= 2 and abs(b[1] - at[1]) <= 2]
                valid = {b: S.and_(S.not_(info[b][0]), info[b][kind]) for b in near}
                n = S.sum([S.ite(valid[b], 1, 0) for b in near])
                total = S.sum([S.ite(valid[b], x[b], 0.0) for b in near])
                want = S.or_(want, S.and_(info[at][kind], n >= 2, total - n * x[at] > 10 * n))
        S.eq(m[at[0] * 6 + at[1]], want, 'outliers among the valid ones of the kind')


SAMPLING = {('nh', 'LandIce'): (1.6, 2.2, 2.1), ('nh', 'SeaIce'): (0.0, 2.9, 2.0), ('sh', 'LandIce'): (1.6, 1.5, 3.8), ('sh', 'SeaIce'): (1.7, 5.7, 2.9)}
RELATION = {'LandIce': (1.5, 1.8, 2.0), 'SeaIce': (1.7, 1.8, 2.1)}
ORDER = ('tas', 'tasmin', 'tasmax')
PARTS = ('_unc_rand', '_unc_corr_local', '_unc_sys', '_unc_cloud')


class Inputs(object):
    """Screened input: temperatures of each kind, where there is land and sea ice, and uncertainties."""

    def __init__(self, S, name, lat, columns, land, day=50000, missing=(), lon=None):
        """missing: (name of field, cell) of those missing."""
        self.S, self.daynumber = S, day
        self.latitude, self.longitude = S.np.array(lat), S.np.array(lon if lon is not None else [10.0 * k for k in range(columns)])
        shape = self.shape = (len(lat), columns)
        cells = [(i, j) for i in range(shape[0]) for j in range(shape[1])]
        make = lambda n, lo, hi: Field(S, shape, None, only={at: (S.real('%s%s%d%d' % (name, n, at[0], at[1]), lo, hi), (n, at) in missing) for at in cells})
        self.temperature = {k: make(k, 200, 280) for k in ORDER}
        self.rand, self.corr, self.large = make('u', 0, 5), make('c', 0, 5), make('l', 0.2, 5)
        self.land = {at: land[k] for k, at in enumerate(cells)}

    def hemisphere(self):
        return 'nh' if self.latitude[0] > 0 else 'sh'

    def _part(self, which):
        return self.S.np.array([[self.land[(i, j)] != which for j in range(self.shape[1])] for i in range(self.shape[0])])

    def land_ice_mask(self):
        return self._part('land')

    def sea_ice_mask(self):
        return self._part('sea')

    def quality_controlled_surface_temperature(self):
        return self.temperature['tas'].array()

    def quality_controlled_surface_temperature_min(self):
        return self.temperature['tasmin'].array()

    def quality_controlled_surface_temperature_max(self):
        return self.temperature['tasmax'].array()

    def uncertainty_uncorrelated(self):
        return self.rand.array()

    def uncertainty_synoptically_correlated(self):
        return self.corr.array()

    def uncertainty_large_scale_correlated(self):
        return self.large.array()


def model(S):
    M = S.module(ICE).ModelIce()
    coeffs = {h: {p: {k: [S.real('%s%s%s%d' % (h, p, k, n), *((0.5, 1.5) if n == 1 else (-10, 10))) for n in range(4)] for k in ORDER} for p in ('LandIce', 'SeaIce')} for h in ('nh', 'sh')}
    M.components = {h: {p: {k: S.np.array(v) for k, v in c.items()} for p, c in d.items()} for h, d in coeffs.items()}
    return M, coeffs


def expected(S, inp, coeffs, kind, at):
    """None if there is no result in the cell, else the results."""
    x, hidden = inp.temperature[kind].cell[at]
    part = {'land': 'LandIce', 'sea': 'SeaIce'}.get(inp.land[at])
    u, c, l = (f.cell[at] for f in (inp.rand, inp.corr, inp.large))
    if part is None or bool(S.or_(hidden, u[1], c[1], l[1])):
        return None
    k = ORDER.index(kind)
    a = coeffs[inp.hemisphere()][part][kind]
    angle = 2 * math.pi * (inp.daynumber - 18262.0) / 365.2425
    squares = [a[1] * a[1] * (u[0] * u[0] + SAMPLING[inp.hemisphere(), part][k] ** 2), c[0] * c[0] * a[1] * a[1] + RELATION[part][k] ** 2, a[1] * a[1] * 0.04]
    cloud = a[1] * (l[0] - 0.2 + (2.0 if kind == 'tasmin' else 0.0))
    return a[1] * (x - 273.15) + a[0] + a[2] * math.cos(angle) + a[3] * math.sin(angle) + 273.15, squares + [cloud * cloud], cloud


def compare(S, results, kind, index, want):
    names = [kind, kind + 'uncertainty', kind + '_unc_no_cloud'] + [kind + p for p in PARTS]
    fields = [results[n] for n in names]
    mask = [S.flat(S.np.ma.getmaskarray(f))[index] for f in fields]
    if want is None:
        S.check(S.and_(*mask), 'no result without temperature, ice or uncertainties')
        return
    S.check(S.not_(S.or_(*mask)), 'a result wherever there is all it needs')
    v = [S.flat(S.np.ma.getdata(f))[index] for f in fields]
    air, squares, cloud = want
    S.close(v[0], air, 'air temperature', tol=1e-6)
    for got, sq in zip(v[3:6], squares):
        S.check(got >= 0, 'uncertainties are not negative')
        S.close(got * got, sq, 'components of uncertainty', tol=1e-6)
    S.close(v[6], cloud, 'cloud component of uncertainty', tol=1e-6)
    S.close(v[2] * v[2], squares[0] + squares[1] + squares[2], 'uncertainty without cloud', tol=1e-6)
    S.close(v[1] * v[1], sum(squares[1:], squares[0]), 'total uncertainty', tol=1e-6)


@harness(params=[(h, k) for h in ('nh', 'sh') for k in ORDER], assumptions=REAL, max_paths=6000, bounds='2 cells of land ice, sea ice or neither, any temperatures, uncertainties and coefficients, 21 patterns of missing ones; two days')
def results(S, hemisphere, kind):
    """Air temperature and uncertainties of a cell are those of the model of its hemisphere and ice, from its own inputs; there are none where an input is missing."""
    land = [S.choice('land', ['land', 'sea', 'none']), S.choice('land2', ['land', 'sea'])]
    missing = [(n, (0, 0)) for n in S.choice('missing', [(), (kind,), ('u',), ('c',), ('l',), ('u', 'l'), (kind, 'u', 'c', 'l')])] + [(n, (0, 1)) for n in S.choice('missing2', [(), (kind,), ('c',)])]
    inp = Inputs(S, 'i', [50.0] if hemisphere == 'nh' else [-50.0], 2, land, 18262 if kind == 'tas' and hemisphere == 'nh' else 50000, missing)
    m, coeffs = model(S)
    P = S.module(ICE).ModelIceProcessor(m, inp)
    r = P.process_observable(kind)
    S.eq(sorted(r), sorted([kind, kind + 'uncertainty', kind + '_unc_no_cloud'] + [kind + p for p in PARTS]), 'fields of the result')
    for j in range(2):
        compare(S, r, kind, j, expected(S, inp, coeffs, kind, (0, j)))


@harness(params=[0, 1, 2, 3, 4], assumptions=REAL, bounds='one cell in the corner of 5 x 5, five surfaces, sea ice of any fraction or unknown')
def surfaces(S, land):
    """Land ice is modelled as such whatever the sea ice around it, other cells as sea ice where there is enough of it."""
    at = (0, 0)
    ice = S.choice('ice', ['some', 'much', 'little', 'unknown'])
    fraction = {'some': 0.3, 'much': S.real('much', 0.3, 1), 'little': S.real('little', 0, 0.2999), 'unknown': 0.5}[ice]
    q, f = inputs(S, (5, 5), land_mask=Field(S, (5, 5), 0, only={at: (land, False)}), sea_ice_fraction=Field(S, (5, 5), 0.9, only={at: (fraction, ice == 'unknown')}))
    m, coeffs = model(S)
    r = m.process_hemisphere(q)
    S.eq(len(r), 21, 'all fields of all kinds')
    part = 'land' if land in (1, 4) else 'sea' if ice in ('some', 'much') else 'none'
    inp = Inputs(S, 'i', [60.0], 1, [part])
    for kind, name in zip(ORDER, ('', '_min', '_max')):
        inp.temperature[kind] = Field(S, (1, 1), f['surface_temperature' + name].cell[at][0])
    inp.rand = inp.corr = inp.large = Field(S, (1, 1), 1.0)
    for kind in ORDER:
        compare(S, r, kind, 0, expected(S, inp, coeffs, kind, at))


@harness(params=ORDER, assumptions=REAL, max_paths=2000, bounds='southern grid of 2 or 3 and northern of 2 rows, 0 to 2 rows apart, any values')
def whole_globe(S, kind):
    """Results of each hemisphere are put at their own latitudes; rows between them have none; inputs that do not fit are refused."""
    n = S.choice('rows', [2, 3])
    gap = S.choice('gap', [0, 1, 2])
    south = Inputs(S, 's', [-0.25 - 0.5 * gap / 2 - 0.5 * (n - 1 - k) for k in range(n)], 1, ['land', 'sea', 'none'][:n])
    start = -0.25 - 0.5 * gap / 2 + 0.5 * (gap + 1)
    north = Inputs(S, 'n', [start, start + 0.5], 1, ['sea', 'land'])
    m, coeffs = model(S)
    r = m.process_global(south, north)
    S.eq(r['daynumber'], 50000, 'day')
    total = n + gap + 2
    S.eq(list(S.shape(r[kind])), [total, 1], 'all latitudes from first to last')
    S.eq(len(r), 22, 'all fields of all kinds')
    for k in range(total):
        inp, at = (south, k) if k < n else (north, k - n - gap)
        compare(S, r, kind, k, expected(S, inp, coeffs, kind, (at, 0)) if at >= 0 else None)


@harness(assumptions=REAL, bounds='six kinds of inputs that do not fit')
def refused(S):
    """Hemispheres exchanged, of different days, numbers of longitudes, spacing or order of latitudes are refused."""
    m, coeffs = model(S)
    make = lambda name, lat, columns=1, day=50000: Inputs(S, name, lat, columns, ['land'] * (len(lat) * columns), day)
    south, north = make('s', [-1.0, -0.5]), make('n', [0.5, 1.0])
    wrong = [(north, south), (south, make('n2', [0.5, 1.0], day=50001)), (south, make('n3', [0.5, 1.0], 2)), (make('s2', [-0.5, -1.0]), north), (south, make('n4', [0.5, 1.25])),
             (make('s3', [-1.5, -1.0, -0.25]), north), (south, south), (make('s4', [-0.5, 0.0, 0.5, 1.0]), north), (make('s5', [-1.0, -0.5, 0.0]), make('n5', [0.25, 0.5, 1.0]))]
    a, b = wrong[S.choice('case', list(range(len(wrong))))]
    S.raises(ValueError, m.process_global, 'inputs that do not fit are refused', a, b)


@harness(assumptions=REAL, bounds='surfaces in either order or one of them missing or with too few vectors, any coefficients')
def coefficients(S):
    """Coefficients of a file are those of the surface named, for mean, minimum and maximum in this order; files without both surfaces or all three are refused."""
    M = S.module(ICE)
    np = S.np
    names = S.choice('names', [('LandIce', 'SeaIce'), ('SeaIce', 'LandIce'), ('LandIce',), ('SeaIce',), ('LandIce', 'Other'), ('Other', 'LandIce', 'SeaIce')])
    count = S.choice('count', [3, 2, 4])
    c = {n: [[S.real('%s%d%d' % (n, k, j), -10, 10) for j in range(4)] for k in range(count)] for n in names}
    content = {'sf_name': [[[n] for n in names]], 'M': [[np.array([[v] for v in vector]) for vector in c[n]] for n in names]}
    old = M.scipy.io.loadmat
    M.scipy.io.loadmat = lambda filename, *a, **k: content
    try:
        if count != 3 or not set(names) >= set(['LandIce', 'SeaIce']):
            S.raises(ValueError, M.ModelIce.load_hemisphere_model_parameters, 'files without all coefficients are refused', 'a.mat')
            return
        m = M.ModelIce({'nh': 'a.mat', 'sh': 'b.mat'})
    finally:
        M.scipy.io.loadmat = old
    for h in ('nh', 'sh'):
        for n in ('LandIce', 'SeaIce'):
            for k, kind in enumerate(ORDER):
                S.close(S.flat(m.components[h][n][kind]), c[n][k], 'coefficients of their surface and kind')
