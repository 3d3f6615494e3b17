"""P16: designs of elements say what each observation sees of the state."""
import math

from vf.api import harness
from checks.linear import rows, dot

EL = 'eustace.analysis.advanced_standard.elements.'
REAL = ('floating point numbers are real numbers',)
BASIS = ('the basis of space and time is a stand-in giving any weights (the bases themselves: P18, P19)',)


class Where(object):
    """Observations at given places and time, with given effects."""

    def __init__(self, S, n=2, time=7, date=None, places=None, effects=None):
        self.S, self.n, self.time, self.date, self.effects, self.asked = S, n, time, date, effects or {}, []
        self.places = places if places is not None else S.np.array([[10.0 * k, 20.0 * k] for k in range(n)])

    def number_of_observations(self):
        return self.n

    def location_polar_coordinates(self):
        return self.places

    def time_index(self):
        return self.time

    def time_datetime(self):
        return self.date

    def covariate_effect(self, groupname, **k):
        self.asked.append((groupname, k))
        return self.effects.get(groupname)


class Basis(object):
    """m basis functions, any weights."""

    def __init__(self, S, name, m):
        self.S, self.name, self.m, self.at, self.w = S, name, m, None, None

    def n_latent_variables(self):
        return self.m

    def build_A(self, locations, *a, **k):
        S = self.S
        self.at = locations
        n = S.shape(locations)[0]
        if self.w is None:
            self.w = [[S.real('%s.%d.%d' % (self.name, i, j), -3, 3) for j in range(self.m)] for i in range(n)]
        assert len(self.w) == n
        return S.sp.csr_matrix(S.np.array(self.w, dtype=S.np.float64))


def state(S, n, name='x'):
    return [S.real('%s%d' % (name, k), -50, 50) for k in range(n)]


def linear(S, d, want, name=''):
    """The design is the matrix given: as matrix, as function of the state, rectified, and as jacobian."""
    n, m = len(want), len(want[0])
    S.eq(d.design_number_of_state_parameters(), m, 'number of state parameters')
    S.check(not d.isnonlinear(), 'linear')
    A = d.design_matrix()
    S.eq(list(S.shape(A)), [n, m], 'size of the design')
    S.close(S.flat(A), [v for r in want for v in r], 'what each observation sees of the state', tol=1e-6)
    x = state(S, m, name + 'x')
    X = S.np.array(x)
    S.close(S.flat(d.design_jacobian(X)), [v for r in want for v in r], 'jacobian is the design', tol=1e-6)
    S.close(S.flat(d.design_function(X)), [dot(r, x) for r in want], 'function is design times state', tol=1e-4)
    y = [S.real('%su%d' % (name, k), 0, 50) for k in range(m)]
    S.close(S.flat(d.design_function(S.np.array(y), rectified=True)), [dot([S.ite(v >= 0, v, -v) for v in r], y) for r in want], 'rectified: magnitudes times state', tol=1e-4)


# -- effects of biases
@harness(params=['bias_deep'], tier='thorough', assumptions=REAL, time_s=600, bounds='3 observations and 3 biases, up to 3 effects of any observation and bias, or none defined')
@harness(params=['bias', 'insitu_land'], assumptions=REAL, bounds='3 observations and 3 biases, up to 2 effects of any observation and bias, or none defined')
def biases(S, kind):
    """An observation sees exactly the biases its effects name."""
    k = S.choice('effects', {'bias': [None, 0, 1, 2], 'insitu_land': [None, 1], 'bias_deep': [3]}[kind])
    effect = None
    if k is not None:
        effect = S.np.array([[S.int('o%d' % i, 0, 2), S.int('b%d' % i, 0, 2)] for i in range(k)], dtype=S.np.int64).reshape(k, 2)
    o = Where(S, 3, effects={'sensor': effect, 'insitu_land': effect, 'other': S.np.array([[0, 0]])})
    if kind != 'insitu_land':
        d = S.module(EL + 'bias').BiasElement('sensor', 3).element_design(o)
        S.check([a[0] for a in o.asked] == ['sensor'], 'effects of the own group')
    else:
        d = S.module(EL + 'bias_insitu_land').InsituLandBiasDesign(o, 'insitu_land', 3, 'break points')
        S.check(o.asked == [('insitu_land', {'breakpoints': 'break points'})], 'effects of the own group and break points')
    e = [] if effect is None else [S.flat(r) for r in effect]
    want = [[S.ite(S.any([S.and_(a == i, b == j) for a, b in e]), 1.0, 0.0) if e else 0.0 for j in range(3)] for i in range(3)]
    linear(S, d, want)


@harness(assumptions=REAL + BASIS, bounds='2 observations, 2 basis functions, any weights, effect defined or not')
def spatial_bias(S):
    """Observations with an effect see the bias field at their place, others none of it."""
    B = S.module(EL + 'spatial_bias')
    has = S.fork_bool('effect')
    o = Where(S, 2, effects={'sensor': S.np.array([[0, 0], [1, 0]])} if has else {'other': S.np.array([[0, 0]])})
    b = Basis(S, 'w', 2)
    d = B.SpatialBiasDesign(o, b, 'sensor')
    A = d.design_matrix()
    if has:
        S.eq(S.flat(b.at), S.flat(o.places), 'places of the observations')
    linear(S, d, b.w if has else [[0.0, 0.0]] * 2)


# -- functions of place
@harness(assumptions=REAL, bounds='1 to 3 observations anywhere')
def mean_and_harmonics(S):
    """The grand mean is seen by all alike; harmonics are cosine and sine of two and four times the latitude."""
    n = S.choice('n', [1, 2, 3])
    la = [S.real('lat%d' % k, -90, 90) for k in range(n)]
    o = Where(S, n, places=S.np.array([[a, 5.0] for a in la]))
    linear(S, S.module(EL + 'grandmean').GrandMeanElement().element_design(o), [[1.0]] * n)
    H = S.module(EL + 'latitudeharmonics').LatitudeHarmonicsElement()
    d = H.element_design(o)
    r = [a * (math.pi / 180) for a in la]
    A = rows(S, d.design_matrix())
    S.eq(d.design_number_of_state_parameters(), 4, 'number of harmonics')
    S.close([v for row in A for v in row], [v for a in r for v in (S.cos(2 * a), S.sin(2 * a), S.cos(4 * a), S.sin(4 * a))], 'harmonics of latitude', tol=1e-6)


@harness(assumptions=REAL + BASIS, bounds='2 observations, 2 basis functions, any weights')
def local(S):
    """Local and latitude elements see their basis at the place of the observation."""
    o = Where(S, 2)
    b = Basis(S, 'w', 2)
    d = S.module(EL + 'local').LocalDesign(o, b)
    A = d.design_matrix()
    S.eq(S.flat(b.at), S.flat(o.places), 'places of the observations')
    linear(S, d, b.w)
    b = Basis(S, 'v', 3)
    d = S.module(EL + 'latitudespline').LatitudeSplineElementDesign(o, b, 2, 1.0)
    A = d.design_matrix()
    S.eq(S.flat(b.at), S.flat(o.places)[0::2], 'latitudes of the observations')
    linear(S, d, b.w, 'b')


# -- functions of place and time
def year(S, d):
    """Decimal year by hand."""
    return S.module('eustace.timeutils.decimaltime').datetime_to_decimal_year(d)


@harness(params=[(0, True), (1, False), (1, True), (2, True), (3, False)], assumptions=REAL + BASIS, dates=True, bounds='2 observations, 2 basis functions, any weights, any time 1850 to 2024, 0 to 3 harmonics with or without mean')
def seasonal(S, n, mean):
    """Blocks of the state are the local mean, then sine and cosine of each harmonic of the year."""
    t = S.datetime('time')
    o = Where(S, 2, date=t)
    b = Basis(S, 'w', 2)
    d = S.module(EL + 'seasonal').SeasonalElementDesign(o, b, n, mean)
    y = year(S, t)
    f = [1.0] if mean else []
    for k in range(1, n + 1):
        a = k * 2.0 * math.pi * y
        f += [S.sin(a), S.cos(a)]
    A = rows(S, d.design_matrix())
    S.eq(S.flat(b.at), S.flat(o.places), 'places of the observations')
    S.eq(d.design_number_of_state_parameters(), 2 * len(f), 'number of state parameters')
    S.eq(len(A[0]), 2 * len(f), 'columns of the design')
    for i in range(2):
        S.close(A[i], [g * b.w[i][j] for g in f for j in range(2)], 'harmonics of the year times basis', tol=1e-6)
    S.check(not d.isnonlinear(), 'linear')


@harness(params=['kronecker', 'kronecker_annual'], assumptions=REAL + BASIS, dates=True, bounds='2 observations, 2 basis functions in space and 3 in time, any weights, any time')
def space_time(S, kind):
    """The state has one block of space for each node of time; the weight is the product of the weights."""
    M = S.module(EL + kind)
    t, when = S.datetime('time'), S.int('day', 0, 60000)
    o = Where(S, 2, time=when, date=t)
    space, time = Basis(S, 's', 2), Basis(S, 't', 3)
    d = (M.SpaceTimeKroneckerDesign if kind == 'kronecker' else M.AnnualKroneckerDesign)(o, space, 2, time, 1.0)
    d.design_matrix()
    S.eq(S.flat(space.at), S.flat(o.places), 'places of the observations')
    S.eq(list(S.shape(time.at)), [1, 1], 'one time')
    S.close(S.flat(time.at), [when] if kind == 'kronecker' else [year(S, t)], 'time of the observations', tol=1e-6)
    linear(S, d, [[g * v for g in time.w[0] for v in space.w[i]] for i in range(2)])
    S.eq(S.flat(d.design_initial_state()), [0.0] * 6, 'initial state')


def factor(S, o):
    space, time = Basis(S, 'fs', 2), Basis(S, 'ft', 2)
    return space, time, S.module(EL + 'factor').SpaceTimeFactorDesign(o, space, 2, time, 1.0)


@harness(assumptions=REAL + BASIS, bounds='2 observations, 2 basis functions in space and in time, any weights and state')
def factors(S):
    """A factor is the product of its space and time parts; its jacobian is its derivative in the state."""
    o = Where(S, 2)
    space, time, d = factor(S, o)
    S.eq(d.design_number_of_state_parameters(), 4, 'number of state parameters')
    S.check(d.isnonlinear(), 'nonlinear')
    x = state(S, 4)
    f = S.flat(d.design_function(S.np.array(x)))
    S.eq(S.flat(space.at), S.flat(o.places), 'places of the observations')
    S.eq(S.flat(time.at), [7], 'time of the observations')
    S.close(f, [dot(space.w[i], x[:2]) * dot(time.w[0], x[2:]) for i in range(2)], 'product of space and time', tol=1e-4)
    J = d.design_jacobian(S.np.array(x))
    S.eq(list(S.shape(J)), [2, 4], 'size of the jacobian')
    for j in range(4):
        want = S.derivative(lambda v: d.design_function(S.np.array([v if k == j else x[k] for k in range(4)])), x[j])
        S.close([rows(S, J)[i][j] for i in range(2)], want, 'jacobian is the derivative', tol=1e-3)
    S.eq(S.flat(d.design_initial_state()), [0.0, 0.0, 1.0, 1.0], 'initial state')


# -- combinations
class Part(object):
    """A linear part with any design."""

    def __init__(self, S, name, n, m):
        self.S, self.m = S, m
        self.w = [[S.real('%s.%d.%d' % (name, i, j), -3, 3) for j in range(m)] for i in range(n)]

    def design(self):
        S, w, m = self.S, self.w, self.m
        E = S.module(EL + 'element')

        class D(E.ElementLinearDesign):
            def design_number_of_state_parameters(self):
                return m

            def design_matrix(self):
                return S.sp.csr_matrix(S.np.array(w, dtype=S.np.float64))
        return D()

    def element(self):
        E = self.S.module(EL + 'element')
        d = self.design()

        class L(E.ElementLinear):
            def element_design(self, o):
                return d
        return L()


@harness(assumptions=REAL, bounds='2 observations, 1 to 3 parts of 1 to 3 parameters, any designs and state')
def together(S):
    """A combination sees the sum of what its parts see, each of its own part of the state, in order."""
    C = S.module(EL + 'combination')
    sizes = S.choice('sizes', [[2], [1, 2], [2, 1], [1, 3, 2], [2, 2, 1]])
    parts = [Part(S, 'p%d' % k, 2, m) for k, m in enumerate(sizes)]
    e = C.CombinationElement([p.element() for p in parts])
    S.check(not e.isnonlinear(), 'linear')
    d = e.element_design(Where(S, 2))
    linear(S, d, [sum([p.w[i] for p in parts], []) for i in range(2)])
    S.check(d.design_initial_state() is None, 'no initial state')
    x = state(S, sum(sizes), 'y')
    pieces, k = d.element_states(S.np.array(x)), 0
    for p, s in zip(pieces, sizes):
        S.eq(S.flat(p), x[k:k + s], 'own part of the state')
        k += s
    S.check(d.element_states(None) == [None] * len(sizes), 'no state')


@harness(assumptions=REAL + BASIS, bounds='2 observations, a linear part of 2 parameters before, after or around a factor of 4, any designs and state')
def together_nonlinear(S):
    """With a nonlinear part, function and jacobian are still those of the parts, and the initial state is that of the nonlinear part."""
    C = S.module(EL + 'combination')
    order = S.choice('order', ['LF', 'FL', 'LFL'])
    o = Where(S, 2)
    space, time, fd = factor(S, o)
    parts = [fd if c == 'F' else Part(S, 'p%d' % k, 2, 2) for k, c in enumerate(order)]
    d = C.CombinationDesign([p.design() if isinstance(p, Part) else p for p in parts])
    sizes = [4 if c == 'F' else 2 for c in order]
    S.check(d.isnonlinear(), 'nonlinear')
    S.eq(d.design_number_of_state_parameters(), sum(sizes), 'number of state parameters')
    x = state(S, sum(sizes))
    f = S.flat(d.design_function(S.np.array(x)))
    J = rows(S, d.design_jacobian(S.np.array(x)))
    want, wantJ, first, k = [0, 0], [[], []], [], 0
    for p, n in zip(parts, sizes):
        v = x[k:k + n]
        k += n
        for i in range(2):
            if n == 4:
                a, b = dot(space.w[i], v[:2]), dot(time.w[0], v[2:])
                want[i] = want[i] + a * b
                wantJ[i] += [w * b for w in space.w[i]] + [w * a for w in time.w[0]]
            else:
                want[i] = want[i] + dot(p.w[i], v)
                wantJ[i] += p.w[i]
        first += [0.0, 0.0, 1.0, 1.0] if n == 4 else [0.0] * n
    S.close(f, want, 'sum of the parts', tol=1e-3)
    S.close([v for r in J for v in r], [v for r in wantJ for v in r], 'jacobian of the parts side by side', tol=1e-3)
    S.eq(S.flat(d.design_initial_state()), first, 'initial state')


@harness(assumptions=REAL, bounds='1 to 3 parts of 1 or 2 hyperparameters, any values, vectors of 0 to 6 values')
def hyperparameters(S):
    """Hyperparameters set on a combination reach their own part, in order; a vector of another length is refused and changes nothing."""
    C, D, L = S.module(EL + 'combination'), S.module(EL + 'covariate'), S.module(EL + 'local')
    kinds = S.choice('kinds', ['c', 'l', 'cl', 'lc', 'clc', 'lcl', 'lll'])
    n = sum(1 if k == 'c' else 2 for k in kinds)
    old, new = state(S, n, 'old'), state(S, 6, 'new')
    hs, k = [], 0
    for c in kinds:
        hs.append(D.CovariateHyperparameters(old[k]) if c == 'c' else L.LocalHyperparameters(old[k], old[k + 1]))
        k += 1 if c == 'c' else 2
    h = C.CombinationHyperparameters(hs)
    S.eq(S.flat(h.get_array()), old, 'in order')
    m = S.choice('values', [0, 1, 2, 3, 4, 5, 6])
    if m != n:
        S.raises(ValueError, h.set_array, 'another number of values refused', S.np.array(new[:m]))
        S.eq(S.flat(h.get_array()), old, 'unchanged')
        return
    h.set_array(S.np.array(new[:m]))
    S.eq(S.flat(h.get_array()), new[:n], 'as set')
    S.eq([v for p in hs for v in ([p.value] if hasattr(p, 'value') else [p.log_sigma, p.log_rho])], new[:n], 'each part has its own')
    S.check([list(r) for r in h.get_element_ranges()] == ranges(kinds), 'places of the parts')


def ranges(kinds):
    r, k = [], 0
    for c in kinds:
        n = 1 if c == 'c' else 2
        r.append(list(range(k, k + n)))
        k += n
    return r
