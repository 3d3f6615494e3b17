"""P18: lattice basis functions and interpolation on regular grids."""
from vf.api import harness
from checks.linear import rows

LATTICE = 'eustace.analysis.advanced_standard.stats.spde.lattice'
GEO = 'eustace.analysis.advanced_standard.elements.geography_based'
REAL = ('floating point numbers are real numbers',)


def magnitude(S, x):
    return S.ite(x >= 0, x, -x)


def least(S, a, b):
    return S.ite(a <= b, a, b)


def apart(S, x, node, period=None):
    """Distance of two places, the short way round where there is a period; both lie within one period."""
    d = magnitude(S, x - node)
    return d if period is None else least(S, d, period - d)


def wendland(S, r):
    return S.ite(r >= 1, 0.0, (1.0 - r)**6 * (35.0 * r * r + 18.0 * r + 3.0) / 3.0)


def linear(S, r):
    return S.ite(r >= 1, 0.0, 1.0 - r)


KINDS = {'wendland': ('WendlandC4Basis', wendland), 'linear': ('PiecewiseLinearBasis', linear), 'cone': ('BasisFunction', linear)}
# (start, end, nodes), wrapped, span in node separations
LINES = [((0.0, 10.0, 6), None, 1.0), ((0.0, 10.0, 6), None, 2.5), ((-5.0, 3.0, 4), [True], 1.0), ((2.0, 6.0, 8), [True], 2.5), ((0.0, 8.0, 5), [True], 1.5), ((-90.0, 90.0, 7), [False], 2.0), ((0.0, 10.0, 6), None, 1.7), ((2.0, 6.0, 8), [True], 1.75)]


@harness(params=[(k, i) for k in ('wendland', 'linear', 'cone') for i in range(len(LINES)) if k == 'wendland' or i in (0, 3)], assumptions=REAL,
         bounds='lines of 4 to 8 nodes, wrapped or not, basis functions over 1 to 2.5 node separations, 2 observations: one anywhere within the nodes and one separation beyond (wrapped: anywhere), one fixed')
def line(S, kind, which):
    """On a line every observation has, for every node, the value of the basis function at its distance from the node, the short way round if wrapped."""
    L = S.module(LATTICE)
    (lo, hi, n), wrap, factor = LINES[which]
    wrapped = bool(wrap and wrap[0])
    name, phi = KINDS[kind]
    step = (hi - lo) / (n if wrapped else n - 1)
    m = L.LatticeSPDE.construct(dimension_specification=[(lo, hi, n)], basis_function=getattr(L, name)(), overlap_factor=factor, wrap_dimensions=wrap)
    S.eq(m.n_latent_variables(), n, 'number of nodes')
    S.close(S.flat(m.lattice.nodes), [lo + k * step for k in range(n)], 'nodes')
    x = S.real('x', lo - (0 if wrapped else step), hi + (0 if wrapped else step))
    y = lo + 1.75 * step
    flat = S.fork_bool('one_dimensional')
    A = m.build_A(S.np.array([x, y]) if flat else S.np.array([[x], [y]]))
    S.eq(list(S.shape(A)), [2, n], 'observations by nodes')
    A = rows(S, A)
    period = (hi - lo) if wrapped else None
    for i, z in enumerate((x, y)):
        for k in range(n):
            r = apart(S, z, lo + k * step, period) / (factor * step)
            S.close(A[i][k], phi(S, r), 'basis function of the distance', tol=1e-6)


PLANES = [([(0.0, 2.0, 3), (10.0, 16.0, 4)], None), ([(0.0, 4.0, 3), (-1.0, 1.0, 3)], [False, True])]


@harness(params=[0, 1], assumptions=REAL, max_paths=20000, time_s=200, bounds='planes of 3 by 3 or 4 nodes, one dimension wrapped or none, product of linear functions over one separation, an observation anywhere')
def plane(S, which):
    """On a plane the piecewise linear basis is the product over the dimensions, for the node of the same place."""
    L = S.module(LATTICE)
    dims, wrap = PLANES[which]
    wrapped = [bool(wrap and w) for w in (wrap or [0, 0])]
    step = [(hi - lo) / (n if w else n - 1) for (lo, hi, n), w in zip(dims, wrapped)]
    m = L.LatticeMesh(dimension_specification=dims, basis_function=L.PiecewiseLinearBasis(), overlap_factor=1.0, wrap_dimensions=wrap)
    x = [S.real('x%d' % k, lo, hi) for k, (lo, hi, n) in enumerate(dims)]
    A = m.build_A(S.np.array([x]))
    nodes = rows(S, m.nodes)
    S.eq(list(S.shape(A)), [1, dims[0][2] * dims[1][2]], 'one column a node')
    places = sorted(tuple(round(float(v), 6) for v in p) for p in nodes)
    S.check(places == sorted((round(dims[0][0] + i * step[0], 6), round(dims[1][0] + j * step[1], 6)) for i in range(dims[0][2]) for j in range(dims[1][2])), 'nodes')
    a = S.flat(A)
    for k, p in enumerate(nodes):
        v = 1.0
        for z, q, s, w, (lo, hi, n) in zip(x, p, step, wrapped, dims):
            v = v * linear(S, apart(S, z, float(q), (hi - lo) if w else None) / s)
        S.close(a[k], v, 'product of the basis functions', tol=1e-6)
    S.close(S.sum(a), 1.0, 'weights add up to one', tol=1e-6)


@harness(params=['WendlandC4Basis', 'PiecewiseLinearBasis', 'BasisFunction'], assumptions=REAL, bounds='1 or 2 dimensions, spans 0.5 to 5, any distances up to twice as far')
def basis(S, name):
    """Basis functions are one at their node, between zero and one around it, symmetric, and zero from their span on."""
    L = S.module(LATTICE)
    d = S.choice('dimensions', [1, 2] if name != 'WendlandC4Basis' else [1])
    span = S.choice('span', [[1.0, 1.0], [2.5, 0.5], [0.5, 5.0]])[:d]
    x = [S.real('x%d' % k, -10, 10) for k in range(d)]
    b = getattr(L, name)(basis_span=S.np.array(span))
    f = S.flat(b.evaluate(S.np.array([x, [0.0] * d, [-v for v in x]])))
    S.eq(len(f), 3, 'one value for each distance')
    S.close(f[1], 1.0, 'one at the node')
    S.close(f[0], f[2], 'symmetric', tol=1e-6)
    S.check(f[0] >= 0, 'not negative')
    S.check(f[0] <= 1 + 1e-9, 'at most one')
    beyond = S.any([magnitude(S, v) >= s for v, s in zip(x, span)])
    S.check(S.implies(beyond, S.and_(f[0] <= 1e-9, f[0] >= -1e-9)), 'zero from the span on')


# -- interpolation of covariates
ROWS, COLS, D2 = 3, 4, 90.0


@harness(assumptions=REAL, max_paths=20000, time_s=200, bounds='a grid of 3 latitudes by 4 longitudes going round, any covariate and rescaling, a place anywhere between the first and last latitude')
def interpolation(S):
    """Within the grid a covariate is interpolated bilinearly between the four cells around the place, across the date line too, and rescaled."""
    G = S.module(GEO)
    np = S.np
    lat = [-90.0, 0.0, 90.0]
    lon = [-180.0 + 45.0 + 90.0 * j for j in range(COLS)]
    c = [[S.real('c%d%d' % (i, j), -100, 100) for j in range(COLS)] for i in range(ROWS)]
    k = S.real('scale', -3, 3)
    x, y = S.real('lat', -90, 90), S.real('lon', -180, 180)
    la, lo = np.meshgrid(np.array(lat), np.array(lon), indexing='ij')
    f = G.GeographyBasedCovariateFunction(la, lo, np.array(c), k)
    got = S.flat(f.compute(np.array([[x, y], [0.0, lon[1]]])))
    S.eq(len(got), 2, 'one value a place')
    S.close(got[1], k * c[1][1], 'own value at the centre of a cell', tol=1e-6)
    want = 0
    for i, wi in weights(x, lat[0], D2, range(ROWS)):
        for j, wj in weights(y, lon[0], D2, range(-1, COLS + 1)):
            want = want + wi * wj * c[i][j % COLS]
    S.close(got[0], k * want, 'bilinear interpolation', tol=1e-3)


def weights(x, start, step, nodes):
    """Weights of the two nodes next to a place."""
    for k in nodes:
        if bool(x >= start + k * step) and bool(x < start + (k + 1) * step):
            t = (x - start) / step - k
            return [(k, 1.0 - t), (k + 1, t)] if k + 1 in nodes else [(k, 1.0)]
    raise AssertionError('outside')


@harness(assumptions=REAL, bounds='grids of 2 by 3 cells with spacings 1 and any of 1, 1.5, 2')
def spacing(S):
    """Grids of different spacing in latitude and longitude are refused."""
    G = S.module(GEO)
    np = S.np
    d = S.choice('spacing', [1.0, 1.5, 2.0])
    la, lo = np.meshgrid(np.array([0.0, 1.0]), np.array([0.0, d, 2 * d]), indexing='ij')
    f = G.GeographyBasedCovariateFunction(la, lo, np.array([[1.0, 2.0, 3.0], [4.0, 5.0, 6.0]]), 1.0)
    r = S.attempt(f.compute, np.array([[0.5, 0.5]]))
    S.check(r.raised == (d != 1.0), 'refused exactly if spacings differ')
    if r.raised:
        S.check(isinstance(r.error, ValueError), 'as a value error')
    else:
        S.close(S.flat(r.value), [3.0], 'interpolated')


@harness(assumptions=REAL, bounds='2 places, any covariate at them')
def covariate_design(S):
    """The design of a covariate is its value at the place of each observation, for one parameter."""
    G = S.module(GEO)
    v = [S.real('v%d' % k, -9, 9) for k in range(2)]
    asked = []

    class F(object):
        def compute(self, locations):
            asked.append(locations)
            return S.np.array(v).reshape(-1, 1)

    class O(object):
        def location_polar_coordinates(self):
            return 'places'
    d = G.GeographyBasedElementDesign(F(), O())
    S.eq(S.flat(d.design_matrix()), v, 'covariate')
    S.eq(d.design_number_of_state_parameters(), 1, 'one parameter')
    S.check(asked == ['places'], 'places of the observations')
