"""P17: prior precision matrices: their derivatives, their structure and what they are made of."""
import math

from vf.api import harness
from checks.linear import rows

EL = 'eustace.analysis.advanced_standard.elements.'
LATTICE = 'eustace.analysis.advanced_standard.stats.spde.lattice'
SPHERE = 'eustace.analysis.advanced_standard.stats.spde.spherical'
REAL = ('floating point numbers are real numbers', 'exp is a positive increasing function with exp(a+b) = exp(a) exp(b)')
R = 1.5


def log(S, name):
    """Logarithm of a scale, any between exp(-1.5) and exp(1.5)."""
    return S.real(name, -R, R)


def derivatives(S, n, build, derive, label, indices=None):
    """derive(p, i) is the derivative of build(p) in the parameter i."""
    p = [log(S, 'p%d' % k) for k in range(n)]
    i = S.choice('parameter', indices if indices is not None else list(range(n)))
    size = []

    def at(v):
        Q = build([v if k == i else p[k] for k in range(n)])
        size[:] = list(S.shape(Q))
        return Q
    want = S.derivative(at, p[i])
    got = derive(p, i)
    S.eq(list(S.shape(got)), size, 'size of the derivative')
    S.close(S.flat(got), want, label, tol=1e-6)


def symmetric(S, Q):
    q = rows(S, Q)
    n = len(q)
    S.eq(list(S.shape(Q)), [n, n], 'square')
    S.close([q[i][j] for i in range(n) for j in range(i)], [q[j][i] for i in range(n) for j in range(i)], 'symmetric', tol=1e-9)


# -- one hyperparameter shared by all state variables
@harness(assumptions=REAL, bounds='1 to 3 variables, any standard deviation between exp(-1.5) and exp(1.5)')
def covariate(S):
    """Independent variables of precision 1 / sigma^2, and its derivative."""
    C = S.module(EL + 'covariate')
    n = S.choice('n', [1, 2, 3])

    def prior(p):
        return C.CovariatePrior(C.CovariateHyperparameters(p[0]), n)
    derivatives(S, 1, lambda p: prior(p).prior_precision(), lambda p, i: prior(p).prior_precision_derivative(i), 'derivative')
    p = [log(S, 'q')]
    Q = prior(p).prior_precision()
    s = S.exp(p[0])
    S.close([v * s * s for v in S.flat(Q)], [1.0 if i == j else 0.0 for i in range(n) for j in range(n)], 'precision is 1 / variance', tol=1e-9)
    S.eq(prior(p).prior_number_of_state_parameters(), n, 'number of variables')
    S.raises(ValueError, prior(p).prior_precision_derivative, 'other parameters refused', 1)


LATTICES = [([(0.0, 6.0, 4)], None), ([(0.0, 6.0, 4)], [True]), ([(-1.0, 2.0, 2), (10.0, 14.0, 3)], None), ([(0.0, 3.0, 3), (0.0, 3.0, 4)], [True, False])]


def lattice(S, which, overlap=2.5):
    L = S.module(LATTICE)
    dims, wrap = LATTICES[which]
    return L.LatticeSPDE.construct(dimension_specification=dims, basis_function=L.WendlandC4Basis(), overlap_factor=overlap, wrap_dimensions=wrap)


@harness(params=[0, 1, 2, 3], assumptions=REAL, time_s=100, bounds='lattices of 4, 2 x 3 and 3 x 4 nodes, one of the dimensions wrapped or none, smoothness 1 and 2, any amplitude and range')
def lattice_derivative(S, which):
    """Derivatives of a lattice prior are the derivatives of its precision, wrapped dimensions included."""
    m = lattice(S, which)
    d = len(LATTICES[which][0])
    alpha = S.choice('alpha', [a for a in (1, 2) if 2 * a > d])
    H = S.choice('H', [1.0, 0.5])
    derivatives(S, 2, lambda p: m.build_Q_stationary(p[0], p[1], alpha, H, 'csr'),
                lambda p, i: m.build_dQdp_stationary(p[0], p[1], alpha, H, i, 'csr'), 'derivative')


@harness(params=[0, 1, 2, 3], assumptions=REAL, time_s=100, bounds='as lattice_derivative')
def lattice_precision(S, which):
    """The precision of a lattice is that of the discretised equation: each node is linked with its neighbours, across the end of wrapped dimensions too."""
    m = lattice(S, which)
    dims, wrap = LATTICES[which]
    d = len(dims)
    alpha = S.choice('alpha', [a for a in (1, 2) if 2 * a > d])
    H = S.choice('H', [1.0, 0.5])
    ls, lr = log(S, 'log_sigma'), log(S, 'log_rho')
    Q = m.build_Q_stationary(ls, lr, alpha, H, 'csr')
    symmetric(S, Q)
    wrap = wrap or [False] * d
    step = [(hi - lo) / (n if w else n - 1) for (lo, hi, n), w in zip(dims, wrap)]
    nodes = [[]]
    for n in reversed([n for lo, hi, n in dims]):
        nodes = [[i] + rest for rest in nodes for i in range(n)]
    place = [[float(v) for v in S.flat(m.lattice.nodes)][k * d:(k + 1) * d] for k in range(len(nodes))]
    want = [[lo + i * s for i, s, (lo, hi, n) in zip(x, step, dims)] for x in nodes]
    S.check(len(nodes) == m.n_latent_variables() and all(abs(a - b) < 1e-9 for x, y in zip(place, want) for a, b in zip(x, y)), 'first dimension varies fastest')
    nu = alpha - d / 2.0
    kappa2 = S.exp(-2 * lr) * (8.0 * nu)
    N = len(nodes)

    def linked(a, b):
        """Dimension in which two nodes are neighbours."""
        differ = [k for k in range(d) if a[k] != b[k]]
        if len(differ) != 1:
            return None
        k = differ[0]
        gap = abs(a[k] - b[k])
        return k if gap == 1 or (wrap[k] and gap == dims[k][2] - 1) else None

    K = [[0.0] * N for _ in range(N)]
    for a in range(N):
        for b in range(N):
            k = linked(nodes[a], nodes[b])
            if a == b:
                K[a][b] = kappa2 + 2.0 * sum(H / s**2 for s in step)
            elif k is not None:
                K[a][b] = -H / step[k]**2
    tau2 = S.exp(-2 * ls + 2 * nu * lr) * (math.gamma(nu) / (math.gamma(alpha) * (4 * math.pi)**(d / 2.0)) * (8.0 * nu)**(-nu))
    if alpha == 2:
        K = [[sum_(K[a][c] * K[c][b] for c in range(N)) for b in range(N)] for a in range(N)]
    scale = 1.0
    for s in step:
        scale *= s
    S.close(S.flat(Q), [tau2 * v * scale for r in K for v in r], 'precision', tol=1e-6)


def sum_(xs):
    r = 0.0
    for x in xs:
        r = r + x
    return r


# -- sphere
@harness(params=[2, 3, 4], assumptions=REAL, time_s=100, bounds='icosahedron, smoothness 2 to 4, any amplitude and range')
def sphere_derivative(S, alpha):
    """Derivatives of the prior on the sphere are the derivatives of its precision."""
    m = S.module(SPHERE).SphereMeshSPDE(level=0)
    derivatives(S, 2, lambda p: m.build_Q_stationary(p[0], p[1], alpha), lambda p, i: m.build_dQdp_stationary(p[0], p[1], alpha, i), 'derivative')


def geometry(S, m):
    """Areas of triangles, lumped mass and stiffness matrices by hand, from the points and triangles of the mesh."""
    P = [[float(x) for x in S.flat(r)] for r in m.triangulation.points]
    T = [[int(x) for x in S.flat(r)][1:] for r in m.triangulation.triangles]
    return fem(P, T)


def fem(P, T, keep=None):
    n = len(P)
    C, G = [0.0] * n, [[0.0] * n for _ in range(n)]
    for t in T:
        e = [[P[t[(k + 2) % 3]][x] - P[t[(k + 1) % 3]][x] for x in range(3)] for k in range(3)]
        u, v = e[2], [-x for x in e[1]]
        area = 0.5 * math.sqrt(sum(w * w for w in (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])))
        for i in range(3):
            C[t[i]] += area / 3
            for j in range(3):
                G[t[i]][t[j]] += sum(a * b for a, b in zip(e[i], e[j])) / (4 * area)
    return C, G


@harness(params=[2, 3, 4], assumptions=REAL, time_s=100, bounds='icosahedron, smoothness 2 to 4, any amplitude and range')
def sphere_precision(S, alpha):
    """The precision on the sphere is tau^2 times the product of as many K = kappa^2 C + G of the triangles as the smoothness says, with C^-1 in between."""
    m = S.module(SPHERE).SphereMeshSPDE(level=0)
    ls, lr = log(S, 'log_sigma'), log(S, 'log_rho')
    Q = m.build_Q_stationary(ls, lr, alpha)
    symmetric(S, Q)
    C, G = geometry(S, m)
    n = len(C)
    nu = alpha - 1.0
    kappa2 = S.exp(-2 * lr) * (8.0 * nu)
    tau2 = S.exp(-2 * ls + 2 * nu * lr) * (math.gamma(nu) / (math.gamma(alpha) * 4 * math.pi) * (8.0 * nu)**(-nu))
    K = [[kappa2 * C[i] + G[i][j] if i == j else G[i][j] for j in range(n)] for i in range(n)]
    product = K
    for _ in range(alpha - 1):
        product = [[sum_(product[i][k] * K[k][j] * (1.0 / C[k]) for k in range(n)) for j in range(n)] for i in range(n)]
    S.close(S.flat(Q), [tau2 * v for r in product for v in r], 'precision', tol=1e-5)
    S.raises(ValueError, m.build_Q_stationary, 'too rough a field refused', ls, lr, 1)
    S.raises(ValueError, m.build_dQdp_stationary, 'too rough a field refused', ls, lr, 1, 0)


@harness(assumptions=REAL, time_s=120, bounds='icosahedron, any amplitude and range at each of its 12 nodes; derivatives in those of 3 nodes')
def nonstationary(S):
    """With an amplitude and a range at every node, derivatives are those of the precision in the parameter of that node."""
    V = S.module(EL + 'local_view')
    e = V.NonStationaryLocal(0)

    def prior(p):
        return e.element_prior(V.ExpandedLocalHyperparameters(S.np.array(p[:12]), S.np.array(p[12:])))
    derivatives(S, 24, lambda p: prior(p).prior_precision(), lambda p, i: prior(p).prior_precision_derivative(i), 'derivative', [0, 11, 12, 17])
    h = prior([S.real('v%d' % k, -1, 1) for k in range(24)]).hyperparameters
    new = [S.real('w%d' % k, -1, 1) for k in range(24)]
    h.set_array(S.np.array(new))
    S.eq(S.flat(h.get_array()), new, 'parameters set are those got')
    S.eq(S.flat(h.log_sigma) + S.flat(h.log_rho), new, 'amplitudes come first')


# -- elements
def local(S):
    M = S.module(EL + 'local')
    return 2, M.LocalElement(0), lambda p: M.LocalHyperparameters(p[0], p[1]), 12


def bias(S):
    M = S.module(EL + 'local')
    return 2, S.module(EL + 'spatial_bias').SpatialBiasElement('group', 0), lambda p: M.LocalHyperparameters(p[0], p[1]), 12


def seasonal(harmonics, mean):
    def make(S):
        M = S.module(EL + 'seasonal')
        n = harmonics + (1 if mean else 0)

        def hyper(p):
            h = M.SeasonalHyperparameters(n, 0.0, 0.0)
            h.set_array(S.np.array(p))
            return h
        return 2 * n, M.SeasonalElement(0, harmonics, mean), hyper, 12 * (2 * harmonics + (1 if mean else 0))
    make.__name__ = 'seasonal_%d%s' % (harmonics, 'm' if mean else '')
    return make


def spacetime(kind, wrap=None, times=2):
    def make(S):
        M = S.module(EL + ('kronecker_annual' if kind == 'Annual' else kind.lower()))
        H = S.module(EL + 'spacetimespde').SpaceTimeSPDEHyperparameters
        cls = {'Kronecker': 'SpaceTimeKroneckerElement', 'Annual': 'AnnualKroneckerElement', 'Factor': 'SpaceTimeFactorElement'}[kind]
        e = getattr(M, cls)(n_triangulation_divisions=0, alpha=2, starttime=0.0, endtime=6.0, n_nodes=times, overlap_factor=2.5, H=1.0, wrap_dimensions=wrap)
        return 3, e, lambda p: H(p[0], p[1], p[2]), 12 + times if kind == 'Factor' else 12 * times
    make.__name__ = kind.lower() + ('_%d' % times) + ('_wrapped' if wrap else '')
    return make


def spline(S):
    M = S.module(EL + 'latitudespline')
    keep, M.PADDING_NODES = M.PADDING_NODES, 1
    try:
        e = M.LatitudeSplineElement(2, 3, 2.5, 1.0)
    finally:
        M.PADDING_NODES = keep
    return 2, e, lambda p: S.module(EL + 'local').LocalHyperparameters(p[0], p[1]), 5


def harmonics(S):
    M, C, D = S.module(EL + 'latitudeharmonics'), S.module(EL + 'combination'), S.module(EL + 'covariate')
    return 4, M.LatitudeHarmonicsElement(), lambda p: C.CombinationHyperparameters([D.CovariateHyperparameters(v) for v in p]), 4


def geography(S):
    M, D = S.module(EL + 'geography_based'), S.module(EL + 'covariate')
    return 1, M.GeographyBasedElement('file', 'lat', 'lon', 'altitude', 1.0), lambda p: D.CovariateHyperparameters(p[0]), 1


def mean(S):
    return 1, S.module(EL + 'grandmean').GrandMeanElement(), lambda p: S.module(EL + 'covariate').CovariateHyperparameters(p[0]), 1


def together(S):
    C, D, B = S.module(EL + 'combination'), S.module(EL + 'covariate'), S.module(EL + 'bias')
    parts = [mean(S), harmonics(S), (1, B.BiasElement('group', 2), lambda p: D.CovariateHyperparameters(p[0]), 2), spline(S)]

    def hyper(p):
        p, hs = list(p), []
        for n, e, h, k in parts:
            hs.append(h(p[:n]))
            p = p[n:]
        return C.CombinationHyperparameters(hs)
    return sum(x[0] for x in parts), C.CombinationElement([x[1] for x in parts]), hyper, sum(x[3] for x in parts)


DEEP = [seasonal(2, False), spacetime('Kronecker', None, 3), spacetime('Kronecker', [True], 3), spacetime('Annual', None, 3)]
ELEMENTS = [local, bias, seasonal(1, True), seasonal(1, False), spacetime('Kronecker'), spacetime('Annual'), spacetime('Factor', None, 3), spline, harmonics, geography, mean, together]


@harness(params=DEEP, tier='thorough', assumptions=REAL, time_s=600, bounds='icosahedron, 3 times, any hyperparameters between exp(-1.5) and exp(1.5)')
@harness(params=ELEMENTS, assumptions=REAL, time_s=150, bounds='icosahedron, 2 or 3 times, any hyperparameters between exp(-1.5) and exp(1.5)')
def element(S, make):
    """Derivatives of the prior of an element are those of its precision in each of its hyperparameters; sizes agree; hyperparameters set are those got."""
    n, e, hyper, size = make(S)

    def prior(p):
        return e.element_prior(hyper(p))
    derivatives(S, n, lambda p: prior(p).prior_precision(), lambda p, i: prior(p).prior_precision_derivative(i), 'derivative')
    p = [0.25 * k for k in range(n)]
    S.eq(prior(p).prior_number_of_state_parameters(), size, 'number of state parameters')
    S.eq(list(S.shape(prior(p).prior_precision())), [size, size], 'size of the precision')
    new = [S.real('new%d' % k, -9, 9) for k in range(n)]
    h = hyper(p)
    S.close(S.flat(h.get_array()), p, 'hyperparameters given')
    h.set_array(S.np.array(new))
    S.eq(S.flat(h.get_array()), new, 'hyperparameters set')
